import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import finite
from ..core import Property, Sub, call, fail
from .c17 import tracker


def strat():
    d = ext.full_cfg(sig=gen.sigspec(noise_floor=False, zeros=True), nfilts_max=50)
    d["ext"] = gen.pick(sorted(ext.ALL) + ["dominant", "yin"])
    d["all0"] = gen.pick([False, False, True])
    d["blk"] = gen.pick([False, True])
    d["b0"], d["b1"] = st.floats(0, 1).map(lambda v: round(v, 3)), st.floats(0, 1).map(lambda v: round(v, 3))
    d["thr"] = gen.F(0.05, 0.8, 0.1, digits=3)
    d["dt"] = gen.pick(["f", "f", "i2", "neg"])
    return st.fixed_dictionaries(d)


def check(c):
    e = c["ext"]
    c = dict(c, norm=None)
    if e == "yin":
        c["L"] = max(c["L"], 24)
        if c["wm"] == "none":
            c["wm"] = "obj"
    r = ext.resolve(c, e if e in ext.ALL else "mfcc", cap=12000)
    x = r.sig
    nf = (r.n - r.L) // r.H + 1
    if c["all0"]:
        x = np.zeros(r.n)
    elif c["blk"]:
        a, b = sorted((int(c["b0"] * nf), int(c["b1"] * nf)))
        x = x.copy()
        x[a * r.H:min(r.n, b * r.H + r.L)] = 0            # frames a..b silent
    if c["dt"] == "i2":
        x = np.clip(np.rint(x * (1 if np.abs(x).max() > 5 else 2000)), -32768, 32767).astype(np.int16)
    elif c["dt"] == "neg":
        x = np.where(x == 0, -0.0, x)
    fr = ref.frames(np.asarray(x, float), r.L, r.H)
    silent = ~fr.any(axis=1)
    if e in ("dominant", "yin"):
        o = tracker(c, r)(x)
        v = o[0]
        for i in np.flatnonzero(silent):
            if i < len(v) and v[i] != 0:
                fail("%s reports %r Hz for silent frame %d" % (e, v[i], i))
        finite(v, e)
        if np.any(v < 0):
            fail("%s reports a negative frequency" % e)
    else:
        for i, v in enumerate(ext.outs(ext.run(r, sig=x))):
            finite(v, "%s[%d] of a signal with %d of %d frames silent" % (e, i, silent.sum(), len(silent)))
    return {"nt": bool(silent.any()), "labels": ["ext:" + e, "all" if silent.all() else "some" if silent.any() else "none"]}


PROP = Property("C18", "Signals wholly, partly (random stretches, whole frames) or not silent - including negative zero and integer samples - through every extractor and both trackers. "
                "Non-trivial: at least one frame of exact zeros.", [Sub("silence", strat, check, 6000)])
