import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail


def strat():
    d = ext.full_cfg(sig=st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), nfilts_max=50)
    d["ext"] = gen.pick(sorted(ext.POST))
    d["omit"] = st.booleans()
    d["n2"] = st.floats(0, 1).map(lambda v: round(v, 3))
    return st.fixed_dictionaries(d)


def check(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=20000, longs=True, minframes=2)
    fn = ext.ALL[e][0]
    k = ext.kwargs(r)
    prefix = e in ext.CEPS or e == "cqcc"
    off = dict(k, lifter=None, normalize=None)
    if "use_energy" in off:
        off["use_energy"] = False
    big = dict(off)
    if prefix:
        full = r.nfilts if e in ext.CEPS else len(r.cq_freqs)
        big["num_ceps"] = max(r.num, min(full, r.num + int(round(c["n2"] * (full - r.num)))))
    base = np.asarray(call(fn, r.sig, **big))
    if prefix:
        if base.shape[1] < r.num:
            fail("%s: %d columns, asked for %d" % (e, base.shape[1], big["num_ceps"]))
        base = base[:, :r.num]
        close(call(fn, r.sig, **off), base, 1e-11 * (1 + np.abs(base)), "%s with %d coefficients vs. the leading columns of %d" % (e, r.num, big["num_ceps"]))
    want, tol = base.copy(), 1e-11 * (1 + np.abs(base))
    rows = np.ones(len(base), bool)
    if k.get("use_energy"):
        E, dE = pipe.spec(r).energy()
        lg, err, ok = ref.safe_log(E, dE)
        want[:, 0], tol[:, 0] = lg, err + 1e-11 * (1 + np.abs(lg))
        rows = ok
    # lifter is linear per column
    if r.lifter is not None:
        w = ref.lifter(np.ones((1, want.shape[1])), r.lifter)[0]
        want, tol = want * w, tol * np.abs(w) + 1e-11 * np.abs(want * w)
    norm = r.norm
    if norm is not None:
        sd = want.std()
        span = want.max() - want.min()
        mag = np.abs(want).max() + 1
        if not rows.all() or not np.isfinite(want).all() or min(sd, span) < 1e-5 * mag:
            norm = None
            k["normalize"] = None
    if norm is not None:
        t = tol.max(axis=0) * 4 + 1e-11 * mag
        den = {"mvn": sd, "ms": 1.0, "vn": sd, "mn": span}[norm]
        want = ref.normalize(want, norm)
        tol = (t + np.abs(want) * tol.max() * 4) / den + 1e-11 * np.abs(want)
        tol = np.broadcast_to(tol, want.shape)
    kk = ext.drop_defaults(k, e) if c["omit"] else k
    got = call(fn, r.sig, **kk)
    what = "%s with %d coefficients, energy %s, lifter %r, normalisation %r vs. applying them one after another" % (e, r.num, k.get("use_energy"), r.lifter, norm)
    close(got, want, tol, what, rows=rows)
    if k.get("use_energy") and r.lifter is None and norm is None:
        exact(np.asarray(got)[:, 1:], np.asarray(call(fn, r.sig, **off))[:, 1:], "%s: columns other than the first when the energy option is switched on" % e)
    n = int(bool(k.get("use_energy"))) + int(r.lifter not in (None, 0)) + int(norm is not None)
    return {"nt": n >= 1 and bool(rows.any()), "labels": ["ext:" + e, "options:%d" % n, "norm:%s" % norm, "lifter:" + ("none" if r.lifter is None else "neg" if r.lifter < 0 else "0" if r.lifter == 0 else "pos" if r.lifter <= 10 else "big")]}


PROP = Property("C14", "Every cepstral extractor with random coefficient count, energy flag, lifter and normalisation against the same extractor with everything off, then truncated, first "
                "column replaced, liftered and normalised by independent code. Non-trivial: at least one option active.",
                [Sub("compose", strat, check, 4000)], ["normalisation is not compared when the spread it divides by is below 1e-5 of the largest value"])
