import numpy as np
from hypothesis import strategies as st
from scipy import signal as ss
from .. import gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies


def s_max():
    d = {"fs": gen.FS, "sig": gen.sigspec(noise_floor=False, zeros=True), "nfft": st.one_of(gen.pick([512, 256, 128, 1024]), gen.I(2, 700)), "butter": gen.pick([False, False, True]),
         "lo": st.one_of(gen.F(0.03, 0.2, digits=3), gen.F(0.002, 0.44, digits=4)), "bw": st.one_of(gen.F(0.1, 0.27, digits=3), gen.F(0.02, 0.49, digits=4)), "pos": gen.pick([None, True, False]), "omit": st.booleans(), "bdef": gen.pick([False, False, True])}
    d.update(gen.winspec())
    return st.fixed_dictionaries(d)


def c_max(c):
    r = gen.basis({k: v for k, v in c.items() if k != "nfft"}, cap=20000, longs=True)
    nfft, fs = c["nfft"], r.fs
    k = dict(nfft=nfft, win_len=r.win_len, win_hop=r.win_hop, win_type=r.win)
    x = r.sig
    if c["butter"]:
        lo, hi = c["lo"] * fs, min(c["lo"] + c["bw"], 0.498) * fs
        k["butter_filter"] = True
        if c["bdef"] and fs >= 8000:
            lo, hi = 50, 3000
        else:
            k.update(lower_cutoff=lo, upper_cutoff=hi)
        b, a = ss.butter(6, [lo * 2 / fs, hi * 2 / fs], "band")
        y = ss.lfilter(b, a, x)
        # how much does rounding inside this (possibly touchy) recursion matter?
        y2 = ss.lfilter(b, a, x * (1 + 1e-13 * np.random.default_rng(3).standard_normal(len(x))))
        y3 = ss.sosfilt(ss.butter(6, [lo * 2 / fs, hi * 2 / fs], "band", output="sos"), x)
        z = max(np.abs(y - y2).max() * 100, np.abs(y - y3).max() * 3)
        if not np.isfinite(y).all() or not z <= 1e-5 * np.abs(y).max():
            return {"nt": False, "labels": ["ill"]}
        x = y
    else:
        z = 0.0
    if c["pos"] is not None:
        k["only_positive"] = c["pos"]
    if c["omit"]:
        dd = dict(nfft=512, win_len=0.025, win_hop=0.01, win_type="hamming")
        k = {a: v for a, v in k.items() if a not in dd or dd[a] != v}
    got = np.asarray(call(get_dominant_frequencies, r.sig, fs, **k))
    S = ref.Spec(x, r.L, r.H, r.win, nfft)
    if got.shape != (len(S.mag),):
        fail("dominant frequencies: shape %s for %d frames" % (got.shape, len(S.mag)))
    if np.any(got < 0) or np.any(got > fs / 2 + 6e-4):
        fail("dominant frequency outside [0, fs/2]: %r" % got[(got < 0) | (got > fs / 2)][0])
    grid = np.round(np.arange(nfft // 2 + 1) * fs / nfft, 3)
    n = 0
    for i, g in enumerate(got):
        j = int(np.argmin(np.abs(grid - g)))
        if abs(grid[j] - g) > 1.1e-3:
            fail("dominant frequency %r of frame %d is not a bin of %d at %d Hz" % (g, i, nfft, fs))
        m = S.mag[i]
        near = np.abs(grid - g) <= 1.1e-3
        slack = 4 * S.dmag[i].max() + 2 * z * r.L
        if m[near].max() < m.max() * (1 - 1e-9) - slack:
            fail("frame %d: reported %r Hz with magnitude %r, but %r Hz has %r (nfft %d, window %d, hop %d)" % (i, g, m[j], grid[int(m.argmax())], m.max(), nfft, r.L, r.H))
        srt = np.sort(m)
        if len(m) > 1 and srt[-1] - srt[-2] > slack + 1e-9 * srt[-1]:
            n += 1
    return {"nt": n > 0 and nfft >= 4, "labels": ["butter" if c["butter"] else "plain", "odd" if nfft % 2 else "even", "nfft<L" if nfft < r.L else "nfft>=L"]}


def s_tone():
    return st.fixed_dictionaries({"fs": gen.FS, "L": gen.I(64, 800, 256, 400), "z": gen.F(0.6, 2.0, 1.0), "u": gen.F(0, 1), "ph": gen.F(0, 6.28), "win": gen.WIN, "amp": gen.pick([1.0, 1e-3, 1e4]), "hop": gen.F(0.1, 1.0),
                                  "butter": gen.pick([False, False, True]), "F": gen.I(1, 6), "i2": st.booleans()})


def c_tone(c):
    fs, L = c["fs"], c["L"]
    nfft = int(L * c["z"])
    n = min(L, nfft)
    H = max(1, int(L * c["hop"]))
    w = 8.0 / n if c["win"] != "kaiser" else 14.0 / n
    lo, hi = w, 0.5 - w
    skip = 0
    if c["butter"]:
        lo, hi = max(lo, 0.08), min(hi, 0.4)
    if lo >= hi:
        return {"nt": False, "labels": ["no room"]}
    f = (lo + (hi - lo) * c["u"]) * fs
    N = L + (c["F"] - 1) * H + (4000 if c["butter"] else 0)
    x = c["amp"] * np.sin(2 * np.pi * f / fs * np.arange(N) + c["ph"])
    if c["i2"]:
        x = np.rint(x / c["amp"] * 20000).astype(np.int16)
    k = dict(nfft=nfft, win_len=(L + 0.25) / fs, win_hop=(H + 0.25) / fs, win_type=c["win"])
    if c["butter"]:
        k.update(butter_filter=True, lower_cutoff=0.05 * fs, upper_cutoff=0.45 * fs)
        skip = 3000 // H + 1
    got = np.asarray(call(get_dominant_frequencies, x, fs, **k))[skip:]
    if len(got) and np.abs(got - f).max() > fs / nfft + 1e-3:
        fail("tone of %r Hz reported as %r Hz (fs %d, nfft %d, window %d %s)" % (f, got[int(np.abs(got - f).argmax())], fs, nfft, L, c["win"]))
    return {"nt": len(got) > 0, "labels": ["butter" if c["butter"] else "plain", "win:" + c["win"]]}


PROP = Property("C28", "Random signals with and without band-pass against the independently computed spectrum's maximum (ties within rounding tolerated), and single tones of random frequency, phase "
                "and level. Non-trivial: a frame with a unique maximum / at least one frame of the tone.",
                [Sub("maximum", s_max, c_max, 3000), Sub("tone", s_tone, c_tone, 2000)], ["tones are kept a few main-lobe widths away from 0 and fs/2"])
