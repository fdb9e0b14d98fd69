import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe
from ..cmp import close
from ..core import Property, Sub, call

NAMES = ["mfcc", "imfcc", "lfcc", "ngcc"]


def strat(names=NAMES):
    d = ext.full_cfg(sig=st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), nfilts_max=80)
    d["ext"] = gen.pick(names)
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=30000, longs=True)
    k = ext.kwargs(r, post=False)
    if c["omit"]:
        k = ext.drop_defaults(k, e)
    got = call(ext.ALL[e][0], r.sig, **k)
    B = np.asarray(ext.bank(r, ext.FAM[e])[0])
    v, tol, ok = pipe.PIPE[e](r, B)
    close(got, v, tol, "%s (%d coefficients of %d filters, nfft %d, fs %d, %r..%r Hz, DCT-%d)" % (e, r.num, r.nfilts, r.nfft, r.fs, r.low, r.high, r.dct), rows=ok)
    return {"nt": bool(ok.any()) and r.num >= 2, "labels": ["ext:" + e, "dct:%d" % r.dct, "cond" if ok.all() else ("part" if ok.any() else "ill"), "odd" if r.nfft % 2 else "even",
                                                          "zero-filter" if not (B > 0).any(axis=1).all() else "full-bank", "app:" + r.app]}


PROP = Property("C12", "Random signals and every parameter (window, FFT size, bank, band, scaling, approach, coefficient count, DCT type; defaults passed or left out) against an independent "
                "pipeline with propagated rounding bounds. Non-trivial: at least two coefficients and some frame whose log energies are well-conditioned.",
                [Sub("values", strat, check, 4000)], ["frames in which rounding could move a log energy noticeably are not compared", "the bank itself is decided by C05-C09"])
