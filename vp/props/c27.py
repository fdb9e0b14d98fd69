import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail
from spafe.utils.cepstral import deltas, lifter_ceps, normalize_ceps
from spafe.utils.preprocessing import zero_handling


def mat(c, dt=True):
    rng = np.random.default_rng(c["seed"])
    x = rng.standard_normal((c["R"], c["C"])) * c["amp"] + c["off"]
    if c.get("colramp"):
        x = x + np.arange(c["C"]) * c["amp"] * 3
    if c.get("int"):
        x = np.rint(x * 10).astype(int)
    return x


BASE = {"R": st.deferred(lambda: st.one_of(gen.I(1, 6), gen.I(1, 120))), "C": st.deferred(lambda: st.one_of(gen.I(1, 8), gen.I(1, 60, 13))), "seed": gen.SEED, "amp": st.deferred(lambda: gen.pick([1.0, 100.0, 1e-3])),
        "off": st.deferred(lambda: gen.pick([0.0, 5.0, -40.0])), "colramp": st.booleans(), "int": st.booleans()}


def s_norm():
    return st.fixed_dictionaries(dict(BASE, kind=gen.pick(["mvn", "ms", "vn", "mn", ""])))


def c_norm(c):
    x = mat(c)
    xf = x.astype(float)
    keep = x.copy()
    kind = c["kind"] or "mvn"
    if xf.std() < 1e-6 * (np.abs(xf).max() + 1e-300) or np.ptp(xf) == 0:
        return {"nt": False, "labels": ["constant"]}
    got = call(normalize_ceps, x, kind) if c["kind"] else call(normalize_ceps, x)
    w = ref.normalize(xf, kind)
    den = {"mvn": xf.std(), "ms": 1, "vn": xf.std(), "mn": np.ptp(xf)}[kind]
    close(got, w, 1e-11 * np.abs(xf).max() / den + 1e-12, "normalisation %s of a %dx%d matrix" % (kind, *x.shape))
    exact(x, keep, "matrix after normalisation")
    return {"nt": min(x.shape) >= 2, "labels": ["kind:" + kind]}


def s_lift():
    return st.fixed_dictionaries(dict(BASE, L=st.one_of(gen.I(-40, 40, 0, 1, 10, 11, -1, -2, -22), gen.I(1, 10)), dflt=gen.pick([False, False, False, True])))


def c_lift(c):
    x = mat(c)
    keep = x.copy()
    L = 3 if c["dflt"] else c["L"]
    got = call(lifter_ceps, x) if c["dflt"] else call(lifter_ceps, x, L)
    w = ref.lifter(x, L)
    wt = np.abs(ref.lifter(np.ones((1, x.shape[1])), L))
    # negative lifters: sin() near its zeros is only known to rounding of pi*n/L
    tol = 1e-11 * np.abs(w) + 1e-300 + (1e-13 * (1 + abs(L)) * np.abs(x) * (1 + x.shape[1] / abs(L)) if L < 0 else 0)
    close(got, w, tol, "lifter %d of a %dx%d matrix" % (L, *x.shape))
    exact(x, keep, "matrix after liftering")
    return {"nt": x.shape[1] >= 2 and (L < 0 or 1 <= L <= 10), "labels": ["L<0" if L < 0 else "L=0" if L == 0 else "1..10" if L <= 10 else ">10"]}


def s_delta():
    return st.fixed_dictionaries(dict(BASE, w=gen.I(1, 31, 9, 3, 5, 8), dflt=gen.pick([False, False, True])))


def c_delta(c):
    x = mat(c)
    keep = x.copy()
    h = 4 if c["dflt"] else c["w"] // 2
    got = call(deltas, x) if c["dflt"] else call(deltas, x, c["w"])
    n = x.shape[1]
    t = np.arange(n)
    w = np.zeros(x.shape)
    for j in range(-h, h + 1):
        w += j * x[:, np.clip(t + j, 0, n - 1)]
    close(got, w, 1e-11 * (np.abs(x).max() + 1e-300) * (h + 1) ** 2, "deltas (width %d) of a %dx%d matrix" % (2 * h + 1, *x.shape))
    exact(x, keep, "matrix after deltas")
    if h and n >= 2:
        # odd symmetry in time
        rev = np.asarray(call(deltas, x[:, ::-1].copy(), 2 * h + 1))[:, ::-1]
        close(rev, -w, 1e-11 * (np.abs(x).max() + 1e-300) * (h + 1) ** 2, "deltas of the time-reversed matrix")
    return {"nt": h >= 1 and n >= 2, "labels": ["wide" if 2 * h + 1 > n else "narrow"]}


def s_zero():
    return st.fixed_dictionaries(dict(BASE, frac=gen.F(0, 1, 0.0, 1.0), tiny=st.booleans(), shape=gen.pick(["2d", "1d", "scalar"]), dt=gen.pick(["f8", "f8", "i8", "f4"])))


def c_zero(c):
    x = mat(dict(c, int=False))
    rng = np.random.default_rng(c["seed"] + 1)
    if c["tiny"]:
        x = np.where(rng.uniform(size=x.shape) < 0.5, rng.choice([5e-324, 1e-300, -1e-18, 1e-17, 2e-16, -5e-324], x.shape), x)
    x = np.where(rng.uniform(size=x.shape) < c["frac"], rng.choice([0.0, -0.0], x.shape), x)
    if c["dt"] != "f8":
        x = x.astype(c["dt"])
    if c["shape"] == "1d":
        x = x.reshape(-1)
    elif c["shape"] == "scalar":
        x = x.reshape(-1)[0]
    keep = np.array(x, copy=True)
    got = np.asarray(call(zero_handling, x))
    w = np.where(keep == 0, np.finfo(float).eps, keep)
    exact(got.astype(float), w.astype(float), "zero handling")
    exact(np.asarray(x), keep, "input of zero handling")
    return {"nt": bool(np.any(keep == 0)) and bool(np.any(keep != 0)), "labels": ["dt:" + c["dt"], "shape:" + c["shape"]]}


PROP = Property("C27", "Random matrices of 1..120 rows and 1..60 columns (float and integer) through normalisation, lifter, deltas and zero handling against the stated formulas. Non-trivial: at least "
                "two rows and columns / an active lifter / a half-width of at least one / both zeros and non-zeros.",
                [Sub("normalise", s_norm, c_norm, 2000), Sub("lifter", s_lift, c_lift, 2000), Sub("deltas", s_delta, c_delta, 2000), Sub("zeros", s_zero, c_zero, 1500)])
