import numpy as np
from hypothesis import strategies as st
from .. import ext, gen
from ..cmp import close, exact
from ..core import Property, Sub, call
from spafe.features.spfeats import extract_feats
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies
from spafe.utils.preprocessing import framing, pre_emphasis
from .c17 import tracker

KINDS = ["i2", "i4", "i8", "f4", ">i2", ">f8", ">f4", "list", "listf", "strided", "reversed", "ro", "offset", "column", "npint", "mixed"]


def variant(x, kind):
    """x: float array holding integers within 16 bits"""
    if kind in ("i2", "i4", "i8", "f4", ">i2", ">f8", ">f4"):
        return x.astype(kind)
    if kind == "list":
        return [int(v) for v in x]
    if kind == "listf":
        return [float(v) for v in x]
    if kind == "tuple":
        return tuple(int(v) for v in x)
    if kind == "npint":
        return [np.int16(v) for v in x]
    if kind == "mixed":
        return [int(v) if i % 3 else float(v) for i, v in enumerate(x)]
    if kind == "strided":
        y = np.full(3 * len(x) + 2, 7.7)
        y[1:1 + 3 * len(x):3] = x
        return y[1:1 + 3 * len(x):3]
    if kind == "reversed":
        return x[::-1].copy()[::-1]
    if kind == "ro":
        y = x.copy()
        y.setflags(write=False)
        return y
    if kind == "offset":
        y = np.zeros(len(x) * 8 + 4, np.uint8)
        z = y[4:4 + 8 * len(x)].view(np.float64)
        z[:] = x
        return z
    if kind == "column":
        y = np.zeros((len(x), 3), np.int16)
        y[:, 1] = x
        return y[:, 1]
    raise KeyError(kind)


def strat():
    d = ext.full_cfg(sig=gen.sigspec(quant=True, kinds=("noise", "tones", "chirp", "impulses", "steps", "am", "full")), nfilts_max=40)
    d["ext"] = gen.pick(sorted(ext.ALL) + ["dominant", "yin", "spfeats", "butter", "framing", "pre"])
    d["cont"] = gen.pick(KINDS)
    d["loud"] = gen.pick([False, True])
    d["thr"] = gen.F(0.05, 0.8, 0.1, digits=3)
    return st.fixed_dictionaries(d)


def check(c):
    e, kind = c["ext"], c["cont"]
    if e == "yin":
        c = dict(c, L=max(c["L"], 24), wm="obj")
    if c["sig"]["kind"] == "full":
        c = dict(c, sig=dict(c["sig"], kind="noise"))
    c = dict(c, sig=dict(c["sig"], many=0))
    r = ext.resolve(c, e if e in ext.ALL else "mfcc", cap=12000)
    x = r.sig
    if c["loud"]:
        x = np.clip(np.rint(x * (40000 / max(1.0, np.abs(x).max()))), -32768, 32767)
    v = variant(x, kind)
    keep = np.array(v, copy=True)
    if e == "spfeats":
        def f(s):
            o = call(extract_feats, s, r.fs, r.nfft)
            return [np.array([o[k] for k in sorted(o)])]
        base = f(x)
        # single precision input may legitimately be transformed in single precision
        tol = [np.abs(base[0]) * (2e-3 if kind in ("f4", ">f4") else 1e-9) + 1e-9]
        ok = [np.ones(len(base[0]), bool)]
        if kind in ("f4", ">f4"):
            ok[0][sorted(["spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_flux",
                          "spectral_mean", "spectral_rms", "spectral_std", "spectral_variance"]).index("spectral_rolloff")] = False
            if base[0].std() == 0 or np.abs(np.fft.rfft(x, r.nfft)).min() < 1e-3 * np.abs(np.fft.rfft(x, r.nfft)).max():
                return {"nt": False, "labels": ["ill"]}
    else:
        if e in ("dominant", "yin"):
            f = tracker(c, r)
        elif e == "butter":
            f = lambda s: [np.asarray(call(get_dominant_frequencies, s, r.fs, butter_filter=True, lower_cutoff=0.03 * r.fs, upper_cutoff=0.3 * r.fs, nfft=r.nfft, win_len=r.win_len, win_hop=r.win_hop))]
        elif e == "framing":
            f = lambda s: [np.asarray(call(framing, s, r.fs, r.win_len, r.win_hop)[0], float)]
        elif e == "pre":
            f = lambda s: [np.asarray(call(pre_emphasis, s, r.coeff))]
        else:
            f = ext.fw(r)
        base, tol, ok = ext.sens(f, x, c["sig"]["seed"])
        tol = [t + (1e-9 if e in ("dominant", "butter", "yin") else 0) for t in tol]
    got = f(v)
    for i, (g, b, t, m) in enumerate(zip(got, base, tol, ok)):
        close(g, b, t, "%s[%d] of the same samples as %s" % (e, i, kind), rows=m)
        if np.asarray(g).dtype.kind != np.asarray(b).dtype.kind and e in ext.ALL:
            exact(np.asarray(g).dtype.kind, np.asarray(b).dtype.kind, "%s[%d] kind of number for %s input" % (e, i, kind))
    exact(np.asarray(v), keep, "samples after the call")
    return {"nt": bool(ok[0].any()), "labels": ["ext:" + e, "kind:" + kind, "full-scale" if c["loud"] else "moderate"]}


PROP = Property("C20", "Integer-valued signals up to full 16-bit scale through every extractor and tracker as doubles and in one of 17 other representations. Non-trivial: some comparable row.",
                [Sub("containers", strat, check, 5000)], ["for single-precision input the spectral summary features are compared to 0.2 %"])
