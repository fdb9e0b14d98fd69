"""Generators: JSON-able signal and configuration descriptions, and their resolution to real arguments.

Fields are kept mutually independent (fractions instead of absolute values) so that any mixture of two cases is again
valid; resolve() turns them into concrete, valid parameters."""
import ast
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from . import core

# ------------------------------------------------------------------------------------------------ dictionary
BASEFILE = os.path.join(core.VERIF, "vp", "baseline_literals.json")


def mine(repo=None):
    """Numeric literals of the code under test: a fuzzing dictionary (it steers the search, never the verdict)."""
    nums = set()
    for root, _, files in os.walk(os.path.join(repo or core.REPO, "spafe")):
        for f in files:
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(root, f)).read())
                except (SyntaxError, UnicodeDecodeError):
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        if math.isfinite(n.value):
                            nums.add(n.value)
                    elif isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                        try:
                            v = {ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.Add: lambda a, b: a + b,
                                 ast.Sub: lambda a, b: a - b, ast.LShift: lambda a, b: a << b,
                                 ast.Pow: lambda a, b: a ** b if abs(b) < 64 else 0}[type(n.op)](n.left.value, n.right.value)
                            if isinstance(v, (int, float)) and math.isfinite(v):
                                nums.add(v)
                        except Exception:
                            pass
    return nums


def _load():
    try:
        base = set(json.load(open(BASEFILE)))
    except (OSError, ValueError):
        base = None
    cur = mine()
    new = (cur - base) if base is not None else set()
    return sorted(cur), sorted(new)


LITS, NEW = _load()
NEW = NEW[:40]


SALT = 0


def pick(seq):
    """sampled_from, rotated differently in every shard (Hypothesis favours the first element)."""
    seq = list(seq)
    k = ((SALT % 8) * len(seq) // 8 + SALT // 8) % len(seq)
    return st.sampled_from(seq[k:] + seq[:k])


def _ints(vals, lo, hi):
    out = set()
    for v in vals:
        for d in (-1, 0, 1):
            w = int(v) + d
            if lo <= w <= hi:
                out.add(w)
    return sorted(out)


def I(lo, hi, *special, p=40):
    """Integer in [lo, hi]; special values get p % of the draws, values from newly appeared literals more."""
    sp = [s for s in special if lo <= s <= hi]
    nw = _ints(NEW, lo, hi)
    alts = [st.integers(lo, hi)] * max(1, (100 - p) // 10 if sp else 10)
    if sp:
        alts += [pick(sp)] * max(1, p // 10)
    if nw:
        alts += [pick(nw)] * 4
    return st.one_of(*alts) if len(alts) > 1 else alts[0]


def F(lo, hi, *special, p=40, digits=6):
    sp = [s for s in special if lo <= s <= hi]
    nw = sorted({x for v in NEW for x in (v, v * (1 - 1e-3), v * (1 + 1e-3)) if lo <= x <= hi})
    lo, hi = float(lo), float(hi)
    sp = [float(s) for s in sp]
    base = st.floats(lo, hi, allow_nan=False).map(lambda v: min(hi, max(lo, round(v, digits))))
    alts = [base] * max(1, (100 - p) // 10 if sp else 10)
    if sp:
        alts += [pick(sp)] * max(1, p // 10)
    if nw:
        alts += [pick([float(x) for x in nw])] * 4
    return st.one_of(*alts)


SEED = st.integers(0, 2 ** 31 - 1)
FS = st.deferred(lambda: st.one_of(pick([8000, 16000, 16000, 22050, 44100, 48000, 11025, 32000, 96000, 192000]), I(1000, 100000), I(400, 200000)))
WINS = ["hamming", "hanning", "bartlet", "kaiser", "blackman"]
WIN = st.deferred(lambda: pick(WINS))
MEL = ["Oshaghnessy", "Lindsay"]
BARK = ["Wang", "Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller"]
SCALES = ["constant", "ascendant", "descendant"]


# ------------------------------------------------------------------------------------------------ signals
def nframes(big=True):
    alts = [I(1, 12)] * 6 + [I(1, 60)] * 3
    if big:
        alts += [I(60, 400), I(1, 12), I(1, 12), I(1, 12), I(1, 60), I(60, 2000)]
    return st.one_of(*alts)


def sigspec(noise_floor=True, zeros=False, quant=None, kinds=("noise", "tones", "chirp", "impulses", "dc", "steps", "am", "swell")):
    d = {"seed": SEED,
         "kind": pick(kinds),
         "amp": pick([1.0, 1.0, 0.1, 1e-3, 1e-7, 30.0, 1000.0, 20000.0, 1e7]),
         "floor": pick([1.0, 0.1, 0.01, 1e-3]) if noise_floor else pick([0.0, 0.0, 1.0, 0.1, 1e-3]),
         "F": nframes(), "long": st.integers(0, 60), "many": st.integers(0, 44), "ex": st.floats(0, 0.999).map(lambda v: round(v, 3)),
         "q": st.booleans() if quant is None else st.just(quant)}
    if zeros:
        d["zero"] = st.lists(st.tuples(F(0, 1, 0.0, digits=3), F(0, 1, 1.0, 0.5, digits=3)).map(list), min_size=0, max_size=3)
    return st.fixed_dictionaries(d)


def realise(s, n):
    """Signal of n float samples from its description."""
    rng = np.random.default_rng(s["seed"])
    t = np.arange(n)
    k = s["kind"]
    x = np.zeros(n)
    if k == "tones":
        for _ in range(int(rng.integers(1, 5))):
            x += rng.uniform(0.1, 1) * np.sin(2 * np.pi * rng.uniform(0.002, 0.498) * t + rng.uniform(0, 6.3))
    elif k == "chirp":
        f0, f1 = rng.uniform(0, 0.5, 2)
        x = np.sin(2 * np.pi * (f0 * t + (f1 - f0) * t ** 2 / (2 * max(n, 1))))
    elif k == "impulses":
        m = max(1, n // 60)
        x[rng.integers(0, n, m)] = rng.uniform(-1, 1, m)
    elif k == "dc":
        x = np.full(n, rng.uniform(-1, 1))
    elif k == "steps":
        x = np.sign(np.sin(2 * np.pi * rng.uniform(0.001, 0.2) * t))
    elif k == "am":
        x = np.sin(2 * np.pi * rng.uniform(0.01, 0.4) * t) * (1 + np.sin(2 * np.pi * rng.uniform(1e-4, 5e-3) * t)) / 2
    elif k in ("noise", "swell"):
        x = rng.standard_normal(n) * 0.3
    x = x + s["floor"] * 0.3 * rng.standard_normal(n)
    x = x * s["amp"]
    if k == "swell":                              # stretches of very different level
        m = int(rng.integers(2, 7))
        x = x * 10.0 ** -np.repeat(rng.uniform(0, 5.5, m), -(-n // m))[:n]
    if s.get("q"):
        sc = max(1.0, 8000.0 / s["amp"]) if s["amp"] < 8000 else 1.0
        x = np.clip(np.rint(x * sc), -32768, 32767)
    for a, l in s.get("zero", ()):
        i = int(a * n)
        x[i:i + int(math.ceil(l * n))] = 0.0
    return x


# ------------------------------------------------------------------------------------------------ configurations
def winspec():
    """wm: 'none' (library default window), 'std' (usual durations), 'obj' (arbitrary lengths in samples)."""
    return {"wm": pick(["none", "std", "obj", "obj", "obj", "obj"]),
            "wstd": pick([[0.025, 0.01], [0.03, 0.015], [0.02, 0.01], [0.032, 0.016], [0.05, 0.02], [0.025, 0.025], [0.04, 0.005]]),
            "L": st.one_of(I(2, 300, 256, 160, 200, 64, p=20), I(2, 300), I(2, 900, 400, 512, p=20), I(2, 900), I(2, 60), st.one_of(I(300, 3000, 1024, 2048, 1600, p=20), I(300, 3000), I(300, 9000, 4096, 8192, p=20))),
            "hopf": st.one_of(pick([1.0, 0.5, 0.4, 0.25]), F(0.02, 1.0, digits=3)),
            "win": WIN}


def bankspec(nfilts_max=60):
    return {"nfft": st.one_of(pick([512, 256, 128, 1024, 64, 2048, 4096, 512, 256, 8192]), I(8, 700), I(8, 1200), I(8, 300)),
            "nfilts": st.one_of(pick([24, 26, 20, 40, 13]), I(1, nfilts_max), I(2, 30), I(1, nfilts_max), I(2, 30), I(1, nfilts_max * 2)),
            "low": st.one_of(st.just(0), st.just(0), F(0.001, 0.7)),
            "high": st.one_of(st.none(), st.just(1.0), F(0.05, 1.0)),
            "scale": pick(SCALES), "app": st.integers(0, 5)}


def presub():
    return {"pre": st.booleans(), "coeff": F(0.0, 1.0, 0.97, 0.95, 0.97, 1.0, p=30)}


def cepspec():
    return {"cepsf": st.one_of(st.just(1.0), st.just("13"), F(0.0, 1.0, digits=3)), "dct": pick([2, 2, 2, 1, 3, 4])}


def postspec():
    return {"energy": st.booleans(),
            "lifter": st.one_of(st.none(), I(-30, 30, 0, 1, 3, 10, 11, -1, -22, p=50)),
            "norm": pick([None, None, "mvn", "ms", "vn", "mn"])}


class R:
    """Resolved configuration."""
    pass


def res_window(c, r):
    from spafe.utils.preprocessing import SlidingWindow
    fs = r.fs
    wm = c.get("wm", "obj")
    wl, wh = None, None
    if wm == "std":
        wl, wh = c["wstd"]
        if int(wh * fs) < 1:
            wm = "obj"
    if wm == "none" and int(0.01 * fs) < 1:
        wm = "obj"
    if wm == "none":
        wl, wh, r.win = 0.025, 0.01, "hamming"
    elif wm == "obj":
        L = int(c["L"])
        H = max(1, min(L, int(round(L * c["hopf"]))))
        wl, wh, r.win = (L + 0.25) / fs, (H + 0.25) / fs, c["win"]
    else:
        r.win = c["win"]
    r.wm = wm
    r.win_len, r.win_hop = wl, wh
    r.L, r.H = int(wl * fs), int(wh * fs)
    r.window = None if wm == "none" else SlidingWindow(wl, wh, r.win)


def res_sig(c, r, cap=60000, minframes=1, longs=False):
    s = c["sig"]
    if longs and s.get("long") == 37:             # rarely: a signal beyond 2^16 samples
        cap = 150000
        s = dict(s, F=max(s["F"], min(2500, (66000 + s["seed"] % 60000) // r.H)))
    Fn = max(minframes, min(s["F"], max(1, (cap - r.L) // r.H + 1)))
    r.F = Fn
    r.n = r.L + (Fn - 1) * r.H + int(s["ex"] * r.H)
    r.sig = realise(s, r.n)


def res_bank(c, r, fam):
    nyq = r.fs / 2
    r.nfft, r.nfilts = int(c["nfft"]), int(c["nfilts"])
    r.low = 0 if c["low"] == 0 else round(c["low"] * nyq, 3)
    if c["high"] is None:
        r.high = None
    elif c["high"] >= 1.0:
        r.high = nyq
    else:
        r.high = round(min(nyq, r.low + (nyq - r.low) * c["high"]), 3)
    r.scale = c["scale"]
    if fam in ("mel", "imel"):
        r.app = MEL[c["app"] % 2]
    elif fam == "bark":
        r.app = BARK[c["app"] % 6]
        if r.app == "Zwicker" and r.low == 0:
            r.low = round(0.02 * nyq, 3)          # the Zwicker formula is undefined at 0 Hz
            if r.high is not None:
                r.high = max(r.high, round(0.1 * nyq, 3))
        if r.app == "Terhardt":
            pass
    else:
        r.app = "Glasberg"
    r.hi = r.high if r.high is not None else nyq
    if fam == "bark":
        while r.nfilts > 8 and r.nfilts * r.nfft > 150000:
            r.nfilts //= 2
        fix_bark_edges(r)


def fix_bark_edges(r):
    """Keep band edges off exact bin boundaries, where the (floor) choice of the edge bin is a rounding accident."""
    nyq = r.fs / 2
    for _ in range(50):
        a = (r.nfft + 1) * r.low / r.fs
        b = (r.nfft + 1) * r.hi / r.fs
        badl = r.low != 0 and abs(a - round(a)) < 1e-4
        badh = abs(b - round(b)) < 1e-4
        if not badl and not badh:
            return
        if badl:
            r.low = round(r.low + 0.0123 * r.fs / (r.nfft + 1), 6)
        if badh:
            if r.high is None or r.high == nyq:      # odd nfft: (nfft+1)/2 is an integer at fs/2
                r.nfft += 1
            else:
                r.high = r.hi = round(r.high - 0.0123 * r.fs / (r.nfft + 1), 6)


def res_ceps(c, r):
    n = r.nfilts
    if c["cepsf"] == "13":
        r.num = min(13, n)
    else:
        r.num = max(1, min(n, int(round(c["cepsf"] * n))))
    r.dct = c["dct"]
    if r.dct == 1 and n < 2:
        r.dct = 2


def basis(c, fam=None, ceps=False, post=False, sig=True, cap=60000, minframes=1, longs=False):
    r = R()
    r.fs = int(c["fs"])
    if sig and cap >= 20000 and c.get("wm") == "obj" and c.get("sig", {}).get("many") == 23:
        # rarely: very many short frames
        s = c["sig"]
        c = dict(c, L=24 + c["L"] % 40, hopf=c["hopf"] if c["hopf"] == 1.0 else min(c["hopf"], 0.2), sig=dict(s, F=500 + s["seed"] % 1000) if s["F"] > 2 else s)
        if "nfilts" in c:
            c["nfilts"] = min(c["nfilts"], 30)
        if "nfft" in c:
            c["nfft"] = min(c["nfft"], 512)
    if "wm" in c:
        res_window(c, r)
    if "nfft" in c:
        res_bank(c, r, fam)
    if ceps:
        res_ceps(c, r)
    r.pre, r.coeff = c.get("pre", False), c.get("coeff", 0.97)
    r.energy, r.lifter, r.norm = c.get("energy", False), c.get("lifter"), c.get("norm")
    r.gamma = c.get("gamma", -1 / 7)
    if sig and "sig" in c:
        res_sig(c, r, cap, minframes, longs)
    return r
