import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe
from ..cmp import close, exact
from ..core import Property, Sub, call


def s_same():
    d = ext.full_cfg(nfilts_max=50)
    d["ext"] = gen.pick(ext.WITHBANK)
    return st.fixed_dictionaries(d)


def c_same(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=15000)
    B = np.asarray(ext.bank(r, ext.FAM[e])[0])
    keep = B.copy()
    base, tol, ok = ext.sens(ext.fw(r), r.sig, c["sig"]["seed"])
    got = ext.fw(r, fbanks=B)(r.sig)
    for i, (g, b, t, m) in enumerate(zip(got, base, tol, ok)):
        close(g, b, t, "%s[%d] handed the matching bank vs. building it" % (e, i), rows=m)
    exact(B, keep, "%s: bank after the call" % e)
    return {"nt": bool(ok[0].any()), "labels": ["ext:" + e]}


def s_any():
    d = ext.full_cfg(nfilts_max=50)
    d["ext"] = gen.pick(ext.WITHBANK)
    d["bk"] = gen.pick(["dense", "sparse", "big", "onehot", "other", "zerorow"])
    d["bseed"] = gen.SEED
    d["mem"] = gen.pick(["C", "F", "ro", "strided", "f4", "int"])
    d["low2"], d["high2"], d["scale2"], d["app2"] = st.one_of(st.just(0), gen.F(0.001, 0.7)), st.one_of(st.none(), gen.F(0.05, 1.0)), gen.pick(gen.SCALES), st.integers(0, 5)
    return st.fixed_dictionaries(d)


def make_bank(c, n, m):
    rng = np.random.default_rng(c["bseed"])
    k = c["bk"]
    if k == "dense":
        B = rng.uniform(0.05, 1, (n, m))
    elif k == "big":
        B = rng.uniform(1, 50, (n, m))
    elif k == "onehot":
        B = np.zeros((n, m))
        B[np.arange(n), rng.integers(0, m, n)] = rng.uniform(0.5, 2, n)
    elif k == "sparse":
        B = rng.uniform(0.1, 1, (n, m)) * (rng.uniform(size=(n, m)) < 0.15)
    elif k == "zerorow":
        B = rng.uniform(0.1, 1, (n, m))
        B[rng.integers(0, n)] = 0
    else:
        # smooth bumps, not normalised, not ordered
        x = np.arange(m)
        B = np.exp(-0.5 * ((x - rng.uniform(0, m, (n, 1))) / rng.uniform(1, m / 3 + 1, (n, 1))) ** 2) * rng.uniform(0.2, 3, (n, 1)) + 1e-3
    if c["mem"] == "int":
        B = np.rint(B * 3)
    return B


def c_any(c):
    e = c["ext"]
    fam = ext.FAM[e]
    r = ext.resolve(c, e, cap=15000)
    B = make_bank(c, r.nfilts, r.nfft // 2 + 1)
    mem = c["mem"]
    if mem == "F":
        B = np.asfortranarray(B)
    elif mem == "f4":
        B = B.astype(np.float32)
    elif mem == "int":
        B = B.astype(np.int64)
    elif mem == "strided":
        z = np.zeros((2 * B.shape[0], 3 * B.shape[1]))
        z[::2, ::3] = B
        B = z[::2, ::3]
    elif mem == "ro":
        B.setflags(write=False)
    keep = B.copy()
    Bf = B.astype(float)
    got = ext.framewise(ext.run(r, post=False, fbanks=B), e)[0]
    exact(B, keep, "%s: bank after the call" % e)
    v, tol, ok = pipe.PIPE[e](r, Bf)
    close(got, v, tol, "%s with a caller-supplied %s bank" % (e, c["bk"]), rows=ok)
    # band, scaling and approach arguments do not matter then
    r2 = ext.resolve(dict(c, low=c["low2"], high=c["high2"], scale=c["scale2"], app=c["app2"]), e, cap=15000)
    if r2.nfft == r.nfft and r2.nfilts == r.nfilts:
        over = dict(low_freq=r2.low, high_freq=r2.high, scale=r2.scale)
        if fam != "lin":
            over["conversion_approach"] = r2.app
        g2 = ext.framewise(ext.run(r, post=False, fbanks=B, **over), e)[0]
        exact(g2, got, "%s with a caller-supplied bank for other band/scale/approach arguments %r" % (e, over))
    return {"nt": bool(ok.any()), "labels": ["ext:" + e, "bank:" + c["bk"], "mem:" + mem, "cond" if ok.all() else "part" if ok.any() else "ill"]}


PROP = Property("C15", "Every extractor handed (a) the bank the matching function returns vs. building it, (b) an arbitrary non-negative matrix, compared with an independent pipeline "
                "using that matrix and with other band/scaling/approach arguments. Non-trivial: some well-conditioned frame.",
                [Sub("same", s_same, c_same, 1200), Sub("arbitrary", s_any, c_any, 3000)])
