"""Histories of calls.  The task process itself never calls the library; every history, and every single call used as the
history-free reference, runs in its own forked process."""
import copy
import os
import pickle
import signal

import numpy as np
from hypothesis import strategies as st
from .. import ext, gen
from ..core import CASE_CPU_S, Property, Sub, Violated, fail, forked
from spafe.features import bfcc, lpc, pncc, spfeats
from spafe.fbanks import bark_fbanks, gammatone_fbanks, mel_fbanks
from spafe.frequencies import dominant_frequencies, fundamental_frequencies
from spafe.utils import cepstral, converters, filters, preprocessing, spectral
from spafe.utils.preprocessing import SlidingWindow

GROUPS = {
    "mel": ["bank:mel", "bank:imel", "mel_spectrogram", "mfcc", "imfcc", "msrcc", "psrcc", "bank:lin"],
    "gamma": ["bank:gamma", "erb_spectrogram", "gfcc", "ngcc", "pncc", "u:centres"],
    "bark": ["bank:bark", "bark_spectrogram", "bfcc", "plp", "rplp"],
    "lin": ["bank:lin", "linear_spectrogram", "lfcc", "bank:mel"],
    "lp": ["lpc", "lpcc", "plp", "rplp", "u:lpc2lpcc"],
    "cqt": ["cqt_spectrogram", "cqcc", "u:cqt"],
    "util": ["u:framing", "u:windowing", "u:pre", "u:norm", "u:lifter", "u:deltas", "u:rasta", "u:zero", "u:scale", "u:stride", "mfcc"],
    "pncc": ["pncc", "u:medium", "u:asym", "u:tmask", "u:smooth", "u:meanpow", "u:ans"],
    "track": ["t:yin", "t:dominant", "t:spfeats", "t:butter", "u:difference", "u:cmnd"],
    "conv": ["u:mel", "u:bark", "u:erb", "bank:mel", "bank:bark", "bank:gamma"],
}
GROUPS["any"] = sorted({x for v in GROUPS.values() for x in v})


def strat():
    cfg = ext.full_cfg(sig=gen.sigspec(), nfilts_max=20)
    cfg["L"] = st.one_of(gen.I(2, 24), gen.I(16, 120), gen.I(16, 120))
    cfg["nfft"] = st.one_of(gen.pick([64, 128, 256]), gen.I(16, 200))
    cfg["wm"] = gen.pick(["obj", "obj", "none"])
    cfg["fs"] = gen.pick([8000, 1000, 2000, 4000])
    cfg["bpo"], cfg["oct"] = gen.I(1, 8), gen.I(1, 4)
    cfgs = st.fixed_dictionaries(cfg)

    @st.composite
    def s(draw):
        a, b = draw(cfgs), draw(cfgs)
        keys = draw(st.lists(gen.pick(sorted(cfg)), min_size=1, max_size=3, unique=True))
        g = draw(gen.pick(sorted(GROUPS)))
        op = st.fixed_dictionaries({"fn": gen.pick(GROUPS[g]), "v": st.integers(0, 1), "s": gen.pick([0, 0, 0, 1]), "clob": gen.pick([True, False]), "bank": gen.pick([False, False, True]),
                                    "mut": gen.pick(["", "", "", "rev", "neg", "one", "scale"])})
        ops = draw(st.lists(op, min_size=2, max_size=7))
        if draw(st.booleans()):
            ops = ops + [dict(ops[0], mut="", v=draw(st.integers(0, 1)))]
        return {"cfg": a, "alt": {k: b[k] for k in keys}, "sig2": b["sig"], "kinds": draw(st.lists(gen.pick(["f", "f", "i2", "list", "f4"]), min_size=2, max_size=2)), "ops": ops, "seed": draw(gen.SEED)}
    return s()


def build(op, c, world):
    """(callable, args, kwargs) for an operation, arguments being the shared objects themselves."""
    cfg = dict(c["cfg"])
    if op["v"]:
        cfg.update(c["alt"])
    name = op["fn"]
    sig = world["sigs"][op["s"]]
    ename = name if name in ext.ALL else "mfcc"
    if name.startswith("bank:"):
        r = gen.basis(cfg, fam=name[5:], sig=False)
        return ext.BANK[name[5:]], [], ext.bank_kwargs(r, name[5:])
    r = ext.resolve(cfg, "cqcc" if name == "u:cqt" else ename, cap=1500)
    win = None if r.wm == "none" else world["wins"].setdefault((op["v"], r.win_len, r.win_hop, r.win), SlidingWindow(r.win_len, r.win_hop, r.win))
    r.window = win
    if name in ext.ALL:
        k = ext.kwargs(r)
        if op["bank"] and name in ext.WITHBANK:
            B = world.get(("bank", r.nfilts, r.nfft // 2 + 1))
            if B is None:
                B = np.random.default_rng(c["seed"]).uniform(0.1, 1, (r.nfilts, r.nfft // 2 + 1))
                world[("bank", r.nfilts, r.nfft // 2 + 1)] = B
            k["fbanks"] = B
        return ext.ALL[name][0], [sig], k
    M = world["mats"][op["s"]]
    t = {"t:yin": lambda: (fundamental_frequencies.compute_yin, [sig, r.fs], dict(win_len=0.04, win_hop=0.02, low_freq=max(60, r.fs / 50), high_freq=r.fs / 4, harmonic_threshold=0.3 + 0.3 * op["v"])),
         "t:dominant": lambda: (dominant_frequencies.get_dominant_frequencies, [sig, r.fs], dict(nfft=r.nfft, win_len=r.win_len, win_hop=r.win_hop, win_type=r.win)),
         "t:butter": lambda: (dominant_frequencies.get_dominant_frequencies, [sig, r.fs], dict(butter_filter=True, lower_cutoff=0.05 * r.fs, upper_cutoff=(0.2 + 0.1 * op["v"]) * r.fs, nfft=r.nfft, win_len=r.win_len, win_hop=r.win_hop)),
         "t:spfeats": lambda: (spfeats.extract_feats, [sig, r.fs], dict(nfft=r.nfft)),
         "u:framing": lambda: (preprocessing.framing, [sig, r.fs], dict(win_len=r.win_len, win_hop=r.win_hop)),
         "u:stride": lambda: (preprocessing.stride_trick, [sig, r.L, r.H], {}),
         "u:windowing": lambda: (preprocessing.windowing, [M, M.shape[1], r.win], {}),
         "u:pre": lambda: (preprocessing.pre_emphasis, [sig, r.coeff], {}),
         "u:norm": lambda: (cepstral.normalize_ceps, [M, r.norm or "mvn"], {}),
         "u:lifter": lambda: (cepstral.lifter_ceps, [M, 3 if r.lifter is None else r.lifter], {}),
         "u:deltas": lambda: (cepstral.deltas, [M, 1 + 2 * (1 + r.order % 4)], {}),
         "u:rasta": lambda: (filters.rasta_filter, [M], {}),
         "u:zero": lambda: (preprocessing.zero_handling, [M], {}),
         "u:scale": lambda: (filters.scale_fbank, [r.scale, r.nfilts], {}),
         "u:lpc2lpcc": lambda: (lpc.lpc2lpcc, [M[0] * 0.05, abs(M[0, 0]) + 0.1, 3 + r.order], {}),
         "u:centres": lambda: (gammatone_fbanks.generate_center_frequencies, [r.low, r.hi, r.nfilts], {}),
         "u:cqt": lambda: (spectral.compute_constant_qtransform, [M], dict(fs=r.fs, low_freq=r.low, high_freq=r.high, nfft=r.nfft, number_of_octaves=r.oct, number_of_bins_per_octave=r.bpo,
                                                                           win_type=r.win, spectral_threshold=r.thr, f0=r.f0, q_rate=r.q_rate)),
         "u:medium": lambda: (pncc.medium_time_power_calculation, [np.abs(M)], {}),
         "u:asym": lambda: (pncc.asymmetric_lowpass_filtering, [M], {}),
         "u:tmask": lambda: (pncc.temporal_masking, [M], {}),
         "u:smooth": lambda: (pncc.weight_smoothing, [M, world["mats"][1 - op["s"]]], dict(nfilts=M.shape[1])),
         "u:meanpow": lambda: (pncc.mean_power_normalization, [M], dict(nfilts=M.shape[1])),
         "u:ans": lambda: (pncc.asymmetric_noise_suppression_with_temporal_masking, [M], {}),
         "u:difference": lambda: (fundamental_frequencies.compute_difference, [M[0], M.shape[1]], {}),
         "u:cmnd": lambda: (fundamental_frequencies.compute_cmnd, [np.abs(M[0]), M.shape[1]], {}),
         "u:mel": lambda: (lambda f, a: (converters.hz2mel(f, a), converters.mel2hz(f, a)), [M[0], gen.MEL[op["v"]]], {}),
         "u:bark": lambda: (lambda f, a: (converters.hz2bark(f, a), converters.bark2hz(2.0, a)), [np.abs(M[0]), gen.BARK[cfg["app"] % 6]], {}),
         "u:erb": lambda: (lambda f: (converters.hz2erb(f), converters.erb2hz(f)), [np.abs(M[0])], {})}
    return t[name]()


def snap(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple, dict)) or isinstance(v, SlidingWindow):
        return copy.deepcopy(v)
    return v


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, (int, float, complex, np.generic)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind not in "fciub":
            return bool(np.all(x == y))
        with np.errstate(all="ignore"):
            if tol:
                fin = np.isfinite(x) & np.isfinite(y)
                s = np.abs(x[fin]).max() if fin.any() else 0
                ok = (np.abs(x - y) <= tol * s) | (x == y) | ((x != x) & (y != y))
            else:
                ok = (x == y) | ((x != x) & (y != y))
        return bool(np.all(ok))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def clobber(v, rng):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.dtype != object:
            v[...] = np.asarray(rng.uniform(-7, 7, v.shape) if v.dtype.kind in "fc" else 3).astype(v.dtype)
    elif isinstance(v, list):
        for i in range(len(v)):
            if isinstance(v[i], np.ndarray):
                clobber(v[i], rng)
            else:
                v[i] = 12345.0
    elif isinstance(v, tuple):
        for x in v:
            clobber(x, rng)
    elif isinstance(v, dict):
        for k in v:
            v[k] = -1


def mutate(sig, kind):
    n = len(sig)
    if kind == "rev":
        sig[:] = sig[::-1].copy() if isinstance(sig, np.ndarray) else sig[::-1]
    elif kind == "neg":
        sig[:] = -sig if isinstance(sig, np.ndarray) else [-v for v in sig]
    elif kind == "one":
        sig[n // 2] = sig[n // 2] + 1 if sig[n // 2] < 1000 else 0
    elif kind == "scale":
        sig[:] = sig // 2 if isinstance(sig, np.ndarray) and sig.dtype.kind == "i" else ([v * 0.5 for v in sig] if isinstance(sig, list) else sig * 0.5)


def make_world(c):
    rng = np.random.default_rng(c["seed"])
    cfg = dict(c["cfg"])
    sigs = []
    for s, k in zip((cfg["sig"], c["sig2"]), c["kinds"]):
        n = 420 + int(rng.integers(0, 600)) * (12 if c.get("long") else 1)
        x = gen.realise(s, n)
        if k in ("i2", "list"):
            x = np.clip(np.rint(x * (1 if np.abs(x).max() > 50 else 3000)), -32000, 32000).astype(np.int16)
        if k == "list":
            x = [int(v) for v in x]
        if k == "f4":
            x = x.astype(np.float32)
        sigs.append(x)
    m = (int(rng.integers(3, 12)), int(rng.integers(6, 16)))
    return {"sigs": sigs, "wins": {}, "mats": [rng.uniform(0.1, 2, m), rng.uniform(0.1, 2, m)]}


def attempt(fn, a, k):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return "ok", fn(*a, **k)
    except Exception as e:
        return "exc", "%s: %s" % (type(e).__name__, e)


def history(c):
    """Runs in a child: the list of (op, status, result) plus what went wrong with inputs."""
    signal.alarm(int(CASE_CPU_S))
    world = make_world(c)
    rng = np.random.default_rng(c["seed"] + 1)
    np.random.seed(c["seed"] % 1000)
    out = []
    for n, op in enumerate(c["ops"]):
        if op["mut"]:
            mutate(world["sigs"][op["s"]], op["mut"])
        fn, a, k = build(op, c, world)
        sa, sk = [snap(v) for v in a], {x: snap(v) for x, v in k.items()}
        st0 = np.random.get_state()[1].copy()
        status, res = attempt(fn, a, k)
        np.random.set_state(np.random.get_state())
        if not same(sa, a) or not same(sk, k):
            return out, "call %d (%s) modified its arguments" % (n, op["fn"])
        if not np.array_equal(st0, np.random.get_state()[1]):
            return out, "call %d (%s) drew from or reseeded the global random generator" % (n, op["fn"])
        out.append((n, sa, sk, status, copy.deepcopy(res)))
        if op["fn"].startswith("bank:") and status == "ok" and op["bank"]:
            world[("bank",) + np.asarray(res[0]).shape] = res[0]
        if op["clob"] and op["fn"] != "u:lifter" and status == "ok":
            clobber(res, rng)
            if not same(sa, a) or not same({x: v for x, v in sk.items() if x != "fbanks"}, {x: v for x, v in k.items() if x != "fbanks"}):
                return out, "overwriting what call %d (%s) returned changed the caller's input" % (n, op["fn"])
    return out, ""


def alone(c, n, sa, sk):
    signal.alarm(int(CASE_CPU_S))
    np.random.seed(987654321 % (2 ** 31) + n)
    fn, _, _ = build(c["ops"][n], c, make_world(c))
    return attempt(fn, sa, sk)


def check(c):
    ok, v = forked(lambda: history(c))
    if not ok:
        if "child died" in v:
            fail("history did not terminate")
        raise RuntimeError(v)
    out, msg = v
    if msg:
        fail(msg)
    n_ok = 0
    for n, sa, sk, status, res in out:
        ok, v = forked(lambda: alone(c, n, sa, sk))
        if not ok:
            if "child died" in v:
                fail("call %d did not terminate on its own" % n)
            raise RuntimeError(v)
        st2, res2 = v
        name = c["ops"][n]["fn"]
        if st2 == "exc" and status == "exc":
            continue
        if st2 != status:
            fail("call %d (%s) %s after this history but %s on its own" % (n, name, "raises " + res if status == "exc" else "returns", "raises " + res2 if st2 == "exc" else "returns"))
        if not same(res2, res, 1e-9):
            fail("call %d (%s) gives a different result after this history than on its own" % (n, name))
        n_ok += 1
    fns = {o["fn"] for o in c["ops"]}
    return {"nt": n_ok >= 2, "labels": ["fn:" + f for f in fns] + ["clobber" if any(o["clob"] for o in c["ops"]) else "noclobber", "mutate" if any(o["mut"] for o in c["ops"]) else "nomutate"]}


def s_pure():
    cfg = ext.full_cfg(sig=gen.sigspec(), nfilts_max=40)
    cfg["L"] = st.one_of(gen.I(2, 24), gen.I(8, 300), gen.I(8, 300))
    cfg["bpo"], cfg["oct"] = gen.I(1, 12), gen.I(1, 5)
    op = st.fixed_dictionaries({"fn": gen.pick(GROUPS["any"]), "v": st.integers(0, 1), "s": st.integers(0, 1), "bank": st.booleans(), "clob": st.booleans()})
    return st.fixed_dictionaries({"cfg": st.fixed_dictionaries(cfg), "alt": st.just({}), "sig2": gen.sigspec(), "kinds": st.lists(gen.pick(["f", "f", "i2", "list", "f4"]), min_size=2, max_size=2),
                                  "op": op, "seed": gen.SEED, "big": gen.pick([False, False, False, True]), "long": gen.pick([False] * 7 + [True])})


def c_pure(c):
    """One call in the running process (whose history is all earlier cases): arguments untouched, and the same values again."""
    world = make_world(c)
    if c["big"]:
        world["mats"] = [np.repeat(np.repeat(m, 5, 0), 4, 1) * np.random.default_rng(c["seed"]).uniform(0.5, 2, (5 * m.shape[0], 4 * m.shape[1])) for m in world["mats"]]
    op = c["op"]
    fn, a, k = build(op, c, world)
    sa, sk = [snap(v) for v in a], {x: snap(v) for x, v in k.items()}
    s1, r1 = attempt(fn, a, k)
    if not same(sa, a) or not same(sk, k):
        fail("%s modified its arguments" % op["fn"])
    keep = copy.deepcopy(r1)
    if op["clob"] and op["fn"] != "u:lifter" and s1 == "ok":
        clobber(r1, np.random.default_rng(c["seed"]))
        if not same(sa, a) or not same(sk, k):
            fail("overwriting what %s returned changed the caller's input" % op["fn"])
    s2, r2 = attempt(fn, a, k)
    if s1 != s2 or (s1 == "ok" and not same(keep, r2, 1e-9)):
        fail("%s gives something else the second time" % op["fn"])
    return {"nt": s1 == "ok", "labels": ["pure:" + op["fn"], "pure:" + s1]}


PROP = Property("C19", "Histories of 2-8 calls over shared signals, banks and windows, two configurations differing in one to three fields, the caller overwriting results and changing its "
                "signals in place between calls; each result is compared with the same call alone in a fresh process, arguments are compared with copies. Non-trivial: at least two "
                "calls that return. Plus single calls of every function with wider parameters, repeated in the same process after the result was overwritten.",
                [Sub("histories", strat, check, 900, history=0), Sub("repeat", s_pure, c_pure, 6000, history=0)],
                ["results of the lifter are not overwritten: it hands its argument back when there is nothing to do"])
