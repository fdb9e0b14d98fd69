import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call
from spafe.utils.preprocessing import pre_emphasis


def s_formula():
    return st.fixed_dictionaries({"n": st.one_of(gen.I(1, 40), gen.I(1, 5000), gen.I(1, 5000), gen.I(1, 200000, 32768, 32769, 65536, 65537, 131073, p=30)), "sig": gen.sigspec(noise_floor=False, zeros=True),
                                  "coeff": gen.F(0, 1, 0.97, 0.0, 1.0, p=20), "dt": gen.pick(["f", "f", "i2", "list", "f4"]),
                                  "dflt": st.booleans()})


def c_formula(c):
    s = dict(c["sig"], q=True) if c["dt"] == "i2" else c["sig"]
    x = gen.realise(s, c["n"])
    v = {"f": x, "i2": x.astype(np.int16), "list": [float(t) for t in x], "f4": x.astype(np.float32)}[c["dt"]]
    x = np.asarray(v, float)
    a = c["coeff"]
    if c["dflt"]:
        a = 0.97
        got = call(pre_emphasis, v)
    else:
        got = call(pre_emphasis, sig=v, pre_emph_coeff=a)
    ab = np.abs(x)
    ab[1:] += np.abs(x[:-1])
    close(got, ref.pre(x, a), (1e-14 if c["dt"] != "f4" else 1e-6) * ab, "pre-emphasis with coefficient %r" % a)
    return {"nt": c["n"] >= 2 and 0 < a < 1 and bool(np.any(x)), "labels": ["dt:" + c["dt"]]}


def s_ext():
    d = ext.full_cfg()
    d["ext"] = gen.pick(sorted(ext.ALL))
    d["c2"] = gen.F(0, 1)
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def c_ext(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=20000, longs=True)
    f_off = ext.fw(r, pre_emph=False)
    y = np.asarray(call(pre_emphasis, r.sig, r.coeff))
    base, tol, ok = ext.sens(f_off, y, c["sig"]["seed"])
    k = ext.kwargs(r, pre_emph=True)
    if c["omit"]:
        k = ext.drop_defaults(k, e)
    got = ext.framewise(call(ext.ALL[e][0], r.sig, **k), e)
    for i, (g, b, t, m) in enumerate(zip(got, base, tol, ok)):
        close(g, b, t, "%s[%d] with pre-emphasis %r vs. without on the pre-emphasised signal" % (e, i, r.coeff), rows=m)
    o1 = ext.framewise(ext.run(r, pre_emph=False), e)
    o2 = ext.framewise(ext.run(r, pre_emph=False, pre_emph_coeff=c["c2"]), e)
    for i, (a, b) in enumerate(zip(o1, o2)):
        exact(a, b, "%s[%d] without pre-emphasis for coefficients %r and %r" % (e, i, r.coeff, c["c2"]))
    return {"nt": bool(ok[0].any()) and 0 < r.coeff < 1, "labels": ["ext:" + e, "cond" if ok[0].all() else "ill"]}


PROP = Property("C02", "Random signals/coefficients through the pre-emphasis function (formula oracle) and through every extractor "
                "(on vs. off-on-pre-emphasised-signal). Non-trivial: 0<coefficient<1, some non-zero sample, and at least one "
                "frame well-conditioned enough to be compared.",
                [Sub("formula", s_formula, c_formula, 2400), Sub("extractors", s_ext, c_ext, 2000)])
