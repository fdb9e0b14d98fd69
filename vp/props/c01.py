import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import exact
from ..core import Property, Sub, call, fail
from spafe.utils.preprocessing import framing, stride_trick


def strat():
    return st.fixed_dictionaries({
        "fs": gen.FS, "seed": gen.SEED,
        "L": st.one_of(gen.I(1, 40), gen.I(1, 900)), "hopf": st.one_of(st.just(1.0), gen.F(0.001, 1.0)),
        "F": st.one_of(gen.I(1, 8), gen.I(1, 60), gen.I(1, 1500)), "ex": gen.F(0, 0.9999, 0.0, 0.9999),
        "fl": gen.pick([0.25, 0.5, 0.75, 0.02, 0.97]), "fh": gen.pick([0.25, 0.5, 0.75, 0.02, 0.97]),
        "mode": gen.pick(["samples", "samples", "samples", "std", "equal", "default"]),
        "std": gen.pick([[0.025, 0.01], [0.03, 0.015], [0.02, 0.01], [0.032, 0.016], [0.05, 0.02], [0.1, 0.1], [0.016, 0.016]]),
        "dt": gen.pick(["float64", "int16", "float32", "list", "strided", "int64", "complex128"])})


def make(c, n):
    rng = np.random.default_rng(c["seed"])
    x = rng.permutation(np.arange(1, n + 1)) - n // 3          # all samples distinct
    dt = c["dt"]
    if dt == "int16":
        return ((x * 7) % 60000 - 30000).astype(np.int16)
    if dt == "list":
        return [int(v) for v in x]
    if dt == "strided":
        y = np.zeros(2 * n + 3)
        y[3::2] = x
        return y[3::2]
    return x.astype(dt)


def check(c):
    fs = c["fs"]
    L = c["L"]
    H = max(1, min(L, int(round(L * c["hopf"]))))
    if c["mode"] == "std":
        wl, wh = c["std"]
    elif c["mode"] == "default":
        wl, wh = 0.025, 0.01
    elif c["mode"] == "equal":
        wl = wh = (L + c["fl"]) / fs
    else:
        wl, wh = (L + c["fl"]) / fs, (H + c["fh"]) / fs
        if wl < wh:
            wl = wh
    L, H = int(wl * fs), int(wh * fs)
    if H < 1:
        return {"nt": False}
    F = min(c["F"], max(1, 200000 // max(L, H)))
    n = L + (F - 1) * H + int(c["ex"] * H)
    x = make(c, n)
    keep = np.array(x, copy=True)
    if c["mode"] == "default":
        if fs == 16000:
            got, flen = call(framing, x)
        else:
            got, flen = call(framing, x, fs)
    else:
        got, flen = call(framing, sig=x, fs=fs, win_len=wl, win_hop=wh)
    want = ref.frames(np.asarray(x), L, H)
    exact(np.array(got), want, "framing of %d samples (window %d, hop %d)" % (n, L, H))
    if int(flen) != L:
        fail("frame length reported as %r, expected %d" % (flen, L))
    exact(np.array(call(stride_trick, np.asarray(x), L, H)), want, "strided view of %d samples (window %d, hop %d)" % (n, L, H))
    exact(np.asarray(x), keep, "signal after framing")
    rem = (n - L) % H
    return {"nt": len(want) >= 2 and n > L, "labels": ["rem0" if rem == 0 else "rem>0", "dt:" + c["dt"], "mode:" + c["mode"],
                                                       "hop=len" if L == H else "overlap", "frames>=100" if F >= 100 else "frames<100"]}


PROP = Property("C01", "Signals of pairwise distinct samples are framed with random rate, window, hop, remainder, sample type; "
                "compared exactly with slices. Non-trivial: at least two frames and more samples than one window.",
                [Sub("framing", strat, check, 6000, corpus=[
                    {"fs": 16000, "seed": 0, "L": 1, "hopf": 1.0, "F": 1, "ex": 0.0, "fl": 0.25, "fh": 0.25, "mode": "samples", "std": [0.025, 0.01], "dt": "float64"},
                    {"fs": 8000, "seed": 0, "L": 10, "hopf": 0.1, "F": 5, "ex": 0.0, "fl": 0.25, "fh": 0.25, "mode": "samples", "std": [0.025, 0.01], "dt": "list"}])])
