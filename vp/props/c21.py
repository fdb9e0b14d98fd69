import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe
from ..cmp import close
from ..core import Property, Sub, call
from spafe.features import pncc as P


def s_stage():
    return st.fixed_dictionaries({"fn": gen.pick(["medium", "asym", "tmask", "smooth", "meanpow", "ans"]), "F": st.one_of(gen.I(1, 12), gen.I(1, 12), gen.I(1, 80), gen.I(1, 80), gen.I(1, 700)), "L": st.one_of(gen.I(1, 12), gen.I(1, 60)),
                                  "seed": gen.SEED, "kind": gen.pick(["unif", "exp", "zeros", "burst", "steps", "ramp", "ties"]), "M": gen.I(0, 6, 2), "N": gen.I(0, 9, 4), "la": gen.F(0.5, 0.9999, 0.999, digits=4),
                                  "lb": gen.F(0.05, 0.95, 0.5, digits=3), "lt": gen.F(0.3, 0.99, 0.85, digits=3), "mt": gen.F(0.01, 0.9, 0.2, digits=3), "thr": gen.pick([0, 0, 0.05, 0.3]), "dflt": st.booleans(),
                                  "k": gen.pick([1, 1, 2, 0.5]), "amp": gen.pick([1.0, 1.0, 1e-6, 1e6, 1e-13, 1e11])})


def matrix(c, rng):
    s = (c["F"], c["L"])
    k = c["kind"]
    if k == "unif":
        X = rng.uniform(0, 1, s)
    elif k == "exp":
        X = rng.exponential(1, s) ** 2
    elif k == "zeros":
        X = rng.uniform(0, 1, s) * (rng.uniform(size=s) < 0.5)
    elif k == "burst":
        X = 0.01 * rng.uniform(0, 1, s)
        X[rng.integers(0, s[0])] *= 1000
        if s[0] > 5:
            X[s[0] // 2:s[0] // 2 + 2] = 0
    elif k == "steps":
        X = np.repeat(rng.uniform(0, 1, (s[0] // 4 + 1, s[1])), 4, axis=0)[:s[0]]
    elif k == "ties":
        X = rng.integers(0, 3, s).astype(float)
    else:
        X = np.linspace(1, 0.01, s[0])[:, None] * rng.uniform(0.9, 1, s)
    return X * c["amp"]


def c_stage(c):
    rng = np.random.default_rng(c["seed"])
    X = matrix(c, rng)
    keep = X.copy()
    w, d = c["fn"], c["dflt"]
    sc = np.abs(X).max() + 1e-300
    nt = c["F"] >= 3
    if w == "medium":
        M = 2 if d else c["M"]
        close(call(P.medium_time_power_calculation, X) if d else call(P.medium_time_power_calculation, X, M), pipe.medium(X, M), 1e-12 * sc, "medium-time power, M=%d" % M)
    elif w == "asym":
        a, b = (0.999, 0.5) if d else (c["la"], c["lb"])
        close(call(P.asymmetric_lowpass_filtering, X) if d else call(P.asymmetric_lowpass_filtering, X, a, b), pipe.asym(X, a, b), 1e-10 * sc, "asymmetric lowpass, %r/%r" % (a, b))
    elif w == "tmask":
        a, b = (0.85, 0.2) if d else (c["lt"], c["mt"])
        v, mar = pipe.tmask(X, a, b)
        tol = np.where(mar <= 1e-9 * sc, np.inf, 1e-10 * sc)
        close(call(P.temporal_masking, X) if d else call(P.temporal_masking, X, a, b), v, tol, "temporal masking, %r/%r" % (a, b))
    elif w == "smooth":
        N = 4 if d else c["N"]
        Q = matrix(dict(c, kind="zeros" if c["seed"] % 3 == 0 else "unif"), rng) + (0 if c["seed"] % 3 == 0 else 0.01 * c["amp"])
        X = np.where(Q == 0, 0, X)
        v = pipe.smooth(X, Q, N)
        kw = dict(nfilts=c["L"])
        if not d:
            kw["N"] = N
        close(call(P.weight_smoothing, X, Q, **kw), v, 1e-11 * np.abs(v) + 1e-11 * np.abs(v).max(), "weight smoothing, N=%d, %d channels" % (N, c["L"]))
        keep = X
        nt = c["L"] >= 2
    elif w == "meanpow":
        lam, k = (0.999, 1) if d else (c["la"], c["k"])
        v = k * X / pipe.meanpow(X, lam)[:, None]
        kw = dict(nfilts=c["L"])
        if not d:
            kw.update(lam_myu=lam, k=k)
        close(call(P.mean_power_normalization, X, **kw), v, 1e-10 * np.abs(v), "mean power normalisation, %r" % lam)
    else:
        thr = 0 if d else c["thr"] * c["amp"]
        le = pipe.asym(X)
        z = X - le
        Q0 = np.where(z < thr, 0.0, z)
        f = pipe.asym(Q0)
        tm, mar = pipe.tmask(Q0)
        R = np.where(X >= 2 * le, tm, f)
        eps = 1e-9 * sc
        amb = ((np.abs(X - 2 * le) <= eps) & ~((X == 0) & (le == 0))) | (mar <= eps)
        if thr > 0:
            amb |= np.maximum.accumulate(np.abs(z - thr) <= eps, axis=0)
        close(call(P.asymmetric_noise_suppression_with_temporal_masking, X) if d else call(P.asymmetric_noise_suppression_with_temporal_masking, X, thr), R,
              np.where(amb, np.inf, 1e-9 * sc), "asymmetric noise suppression, threshold %r" % thr)
        nt = nt and not amb.all()
    close(X, keep, 0, "stage input after the call")
    return {"nt": nt, "labels": ["fn:" + w, "kind:" + c["kind"]]}


def s_pipe():
    d = ext.full_cfg(sig=st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), nfilts_max=40)
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def c_pipe(c):
    r = ext.resolve(c, "pncc", cap=25000)
    k = ext.kwargs(r, post=False)
    if c["omit"]:
        k = ext.drop_defaults(k, "pncc")
    got = call(P.pncc, r.sig, **k)
    B = np.asarray(ext.bank(r, "gamma")[0])
    v, tol, ok = pipe.pncc(r, B)
    ok &= np.isfinite(tol).all(axis=1)
    close(got, v, tol, "PNCC (%d of %d channels, nfft %d, power %r, %d frames)" % (r.num, r.nfilts, r.nfft, r.power, len(v)), rows=ok)
    sharp = tol.max(axis=1) < 1e-3 * (1 + np.abs(v).max(axis=1))
    return {"nt": bool((ok & sharp).any()) and len(v) >= 3, "labels": ["sharp-frames:%d0%%" % int(10 * np.mean(ok & sharp))]}


PROP = Property("C21", "Each stage function on random/structured matrices against its recurrence, and the whole extractor on random signals against an independent pipeline with interval bounds. "
                "Non-trivial: at least three frames (two channels for smoothing) and frames whose interval is narrower than 0.1 %.",
                [Sub("stages", s_stage, c_stage, 5000), Sub("pipeline", s_pipe, c_pipe, 2000)], ["entries decided by a comparison within rounding of its threshold are not compared"])
