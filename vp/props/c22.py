import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, finite
from ..core import Property, Sub, call, fail


def strat():
    d = {"fs": gen.FS, "sig": st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), "order": st.one_of(gen.I(1, 16, 13, 12, 2), gen.I(1, 40)), "omit": st.booleans(), "rs": gen.SEED}
    d.update(gen.winspec())
    d.update(gen.presub())
    return st.fixed_dictionaries(d)


def check(c):
    r = gen.basis(c, cap=12000)
    p = max(0, min(c["order"] - 1, r.L - 1))
    k = dict(fs=r.fs, order=p + 1, pre_emph=r.pre, pre_emph_coeff=r.coeff, window=r.window)
    if c["omit"]:
        k = ext.drop_defaults(k, "lpc")
    a, e = call(ext.ALL["lpc"][0], r.sig, **k)
    a, e = np.asarray(a), np.asarray(e)
    W = ref.frames(ref.pre(r.sig, r.coeff) if r.pre else r.sig, r.L, r.H) * ref.taper(r.win, r.L)
    if a.shape != (len(W), p + 1) or e.reshape(-1).shape != (len(W),):
        fail("lpc: shapes %s and %s for %d frames and order %d" % (a.shape, e.shape, len(W), p + 1))
    e = e.reshape(-1)
    rng = np.random.default_rng(c["rs"])
    n = 0
    for i, w in enumerate(W):
        if i >= 25 and i % 7:
            continue
        rr = ref.autocorr(w, p)
        if rr[0] == 0:
            close(a[i], np.concatenate(([1.0], np.zeros(p))), 0, "lpc of silent frame %d" % i)
            close(e[i], 0.0, 0, "lpc error of silent frame %d" % i)
            continue
        if np.abs(w).max() < 1e-10 * np.abs(r.sig).max():
            continue
        wa, we, cond = ref.lpc(w, p)
        if cond > 1e9:
            continue
        n += 1
        s = np.abs(wa).max()
        tol = 1e-14 * cond * (1 + s) * (p + 1) + 1e-11
        what = "lpc frame %d (order %d, condition %.1g)" % (i, p + 1, cond)
        if a[i, 0] != 1:
            fail("%s: coefficients start with %r" % (what, a[i, 0]))
        close(a[i], wa, tol * s + tol, what)
        close(e[i], we, rr[0] * tol * (1 + s), what + " error energy")
        if e[i] < 0 or e[i] > rr[0] * (1 + 1e-9):
            fail("%s: error energy %r outside [0, %r]" % (what, e[i], rr[0]))
        # optimality against arbitrary other filters, evaluated directly on the samples
        res = np.convolve(w, a[i])
        E0 = np.dot(res, res)
        close(E0, e[i], rr[0] * (tol * (1 + s) + 1e-11 * s * s), what + " error energy vs. residual of the windowed frame")
        if p:
            for sc in (1e-2, 1.0):
                b = a[i].copy()
                b[1:] += sc * rng.standard_normal(p)
                r2 = np.convolve(w, b)
                if np.dot(r2, r2) < E0 * (1 - 1e-6) - rr[0] * tol:
                    fail("%s: another filter predicts better (%r < %r)" % (what, np.dot(r2, r2), E0))
            if cond < 1e6 and p <= 20:
                z = np.abs(np.roots(a[i]))
                if len(z) and z.max() > 1 + 1e-6:
                    fail("%s: pole at radius %r" % (what, z.max()))
    return {"nt": n > 0 and p >= 1, "labels": ["order:%s" % ("1" if p == 0 else "2-13" if p < 13 else ">13"), "compared" if n else "ill"]}


PROP = Property("C22", "Random signals, windows and orders 1..40: every (or every seventh) frame against the normal equations solved independently, the residual energy on the samples, random "
                "competing filters and pole radii. Non-trivial: order at least 2 and some frame whose autocorrelation matrix has condition below 1e9.",
                [Sub("frames", strat, check, 3000)], ["frames with an autocorrelation matrix conditioned worse than 1e9 are not compared"])
