import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.features.lpc import lpc2lpcc, lpc, lpcc


def s_conv():
    return st.fixed_dictionaries({"seed": gen.SEED, "np": gen.I(0, 14), "rmax": gen.F(0.05, 0.98), "n": st.one_of(gen.I(1, 20), gen.I(1, 60)), "e": gen.pick([1.0, 0.0, 1e-12, 3.7, 1e6, 2.5e-3]),
                                  "cont": gen.pick(["arr", "list", "arr"]), "eq": st.booleans()})


def c_conv(c):
    rng = np.random.default_rng(c["seed"])
    m = c["np"]
    poles = []
    while len(poles) < m:
        rad = c["rmax"] * rng.uniform(0, 1) ** 0.5
        if m - len(poles) >= 2 and rng.uniform() < 0.7:
            p = rad * np.exp(1j * rng.uniform(0, np.pi))
            poles += [p, np.conj(p)]
        else:
            poles.append(rad * rng.choice([-1, 1]))
    a = np.real(np.poly(poles)) if m else np.ones(1)
    n = len(a) if c["eq"] else c["n"]
    v = a.copy() if c["cont"] == "arr" else [float(t) for t in a]
    got = np.asarray([float(np.asarray(t)) for t in call(lpc2lpcc, v, c["e"], n)])
    if len(got) != n:
        fail("lpc2lpcc returned %d values, asked for %d" % (len(got), n))
    k = np.arange(1, n)
    want = np.real(np.array([sum(p ** i for p in poles) / i for i in k])) if m else np.zeros(n - 1)
    # rounding: how far do 1e-14 relative changes of the polynomial move the cepstrum?
    dev = np.zeros(n - 1)
    for _ in range(3):
        q = a * (1 + 1e-13 * rng.standard_normal(len(a)))
        q[0] = 1
        dev = np.maximum(dev, np.abs(ref.lpc_cepstrum(q, n) - ref.lpc_cepstrum(a, n)))
    tol = 100 * dev + 1e-11
    what = "cepstrum of %d poles, %d coefficients" % (m, n)
    close(got[0], np.log(c["e"] if c["e"] else ref.EPS), 1e-12 * 40, what + ": log error")
    close(got[1:], want, tol, what)
    return {"nt": m >= 1 and n >= 2, "labels": ["n<=p" if n <= m else "n=p+1" if n == m + 1 else "n>p+1", "e=0" if c["e"] == 0 else "e>0"]}


def s_ext():
    d = {"fs": gen.FS, "sig": st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), "order": st.one_of(gen.I(1, 16, 13, 12, 2), gen.I(1, 30)), "omit": st.booleans()}
    d.update(gen.winspec())
    d.update(gen.presub())
    return st.fixed_dictionaries(d)


def c_ext(c):
    r = gen.basis(c, cap=12000)
    order = max(1, min(c["order"], r.L))
    k = dict(fs=r.fs, order=order, pre_emph=r.pre, pre_emph_coeff=r.coeff, window=r.window)
    k2 = ext.drop_defaults(k, "lpcc") if c["omit"] else k
    a, e = [np.asarray(v) for v in call(lpc, r.sig, **k)]
    e = e.reshape(-1)
    got = np.asarray(call(lpcc, r.sig, **k2))
    if got.shape != (len(a), order):
        fail("lpcc: shape %s for %d frames and order %d" % (got.shape, len(a), order))
    W = ref.frames(ref.pre(r.sig, r.coeff) if r.pre else r.sig, r.L, r.H) * ref.taper(r.win, r.L)
    n = 0
    for i in range(len(a)):
        if i >= 30 and i % 7:
            continue
        wa, we, cond = ref.lpc(W[i], order - 1)
        if np.any(W[i]) and (cond > 1e9 or we <= 0 or np.abs(W[i]).max() < 1e-10 * np.abs(r.sig).max()):
            continue
        n += 1
        what = "lpcc frame %d (order %d)" % (i, order)
        ee = e[i] if e[i] else ref.EPS
        close(got[i, 0], np.log(ee), 1e-8 + 1e-14 * cond * (ref.autocorr(W[i], 0)[0] / ee if e[i] else 0), what + ": log of the error energy")
        w = ref.lpc_cepstrum(a[i], order)
        close(got[i, 1:], w, 1e-9 * (1 + np.abs(w).max() if len(w) else 1) + 1e-13 * cond * (1 + np.abs(a[i]).max()), what)
    return {"nt": n > 0 and order >= 2, "labels": ["compared" if n else "ill"]}


PROP = Property("C23", "Polynomials with known poles inside the unit circle: cepstrum against power sums of the poles, for lengths below, at and above the polynomial's; LPCC against the "
                "cepstrum of LPC's own coefficients and error. Non-trivial: at least one pole and two coefficients / a well-conditioned frame.",
                [Sub("conversion", s_conv, c_conv, 4000), Sub("extractor", s_ext, c_ext, 2000)])
