import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.utils import converters as cv

SC = {"mel": (cv.hz2mel, cv.mel2hz, gen.MEL, "Oshaghnessy", ref.hz2mel, ref.mel2hz),
      "bark": (cv.hz2bark, cv.bark2hz, gen.BARK, "Wang", ref.hz2bark, ref.bark2hz),
      "erb": (cv.hz2erb, cv.erb2hz, ["Glasberg"], "Glasberg", lambda f, a: ref.hz2erb(f), lambda e, a: ref.erb2hz(e))}


def strat():
    fr = st.one_of(gen.F(0.0, 100.0, digits=4), gen.F(0.0, 8000.0, 0.0, 20.0, 100.0, 600.0, 1000.0, 8000.0, digits=3), gen.F(0.0, 48000.0, 22050.0, 24000.0, 44100.0, digits=3),
                   gen.F(0.0, 200000.0, digits=2))
    return st.fixed_dictionaries({"scale": gen.pick(["mel", "bark", "bark", "bark", "erb"]), "app": st.integers(0, 5), "f": fr, "df": st.one_of(gen.F(1e-3, 5.0, digits=4), gen.F(1e-2, 20000.0, digits=3)),
                                  "typ": gen.pick(["float", "np", "int", "arr", "arr"]), "iarr": gen.pick([None, "i8", "i4", "i8"]), "dflt": st.booleans(), "k": gen.I(1, 40)})


def check(c):
    to, back, apps, dflt, rto, rback = SC[c["scale"]]
    app = apps[c["app"] % len(apps)]
    f, g = c["f"], c["f"] + c["df"]
    if app == "Zwicker":
        f, g = max(f, 0.01), max(f, 0.01) + c["df"]         # log10(0) is documented as out of range
    kw = {"approach": app}
    if c["dflt"] and app == dflt:
        kw = {}
    typ = c["typ"]
    if typ == "int":
        f, g = int(f) + 1, int(g) + 2
    conv = {"float": float, "np": np.float64, "int": int, "arr": float}[typ]
    f, g = conv(f), conv(g)
    name = "hz->%s (%s)" % (c["scale"], app)
    a, b = call(to, f, **kw), call(to, g, **kw)
    for x, y in ((f, a), (g, b)):
        w = float(rto(x, app))
        close(float(y), w, 1e-10 * (1 + abs(w)), "%s of %r" % (name, x))
        z = call(back, y, **kw)
        tol = 1e-8 * (1 + abs(x))
        if app == "Terhardt":                                # tan() near its pole: condition number ~ f
            tol *= (1 + x / 1000)
        close(float(z), float(x), tol, "%s round trip of %r Hz" % (name, x))
        # the scale value itself, converted to Hz, against the published inverse
        close(float(z), float(rback(w, app)), tol, "%s inverse of %r" % (name, w))
        a2 = call(to, float(z), **kw)
        close(float(a2), w, 1e-7 * (1 + abs(w)), "%s of the round trip of %r" % (name, x))
    if not float(b) > float(a) and (g - f) > 1e-9 * g and abs(float(rto(g, app)) - float(rto(f, app))) > 1e-9:
        fail("%s not increasing: %r -> %r, %r -> %r" % (name, f, a, g, b))
    if c["scale"] in ("mel", "erb") or app != "Traunmueller":
        if typ == "arr":
            xs = f + np.arange(c["k"]) * (g - f) / c["k"]
            ys = np.asarray(call(to, xs, **kw))
            want = np.array([float(call(to, float(x), **kw)) for x in xs])
            close(ys, want, 1e-10 * (1 + np.abs(want)), name + " on an array vs. element by element")
            zs = np.asarray(call(back, ys, **kw))
            wz = np.array([float(call(back, float(y), **kw)) for y in ys])
            close(zs, wz, 1e-9 * (1 + np.abs(wz)), name + " inverse on an array vs. element by element")
            if c["iarr"]:                                    # whole numbers held in an integer array
                xi = np.rint(xs).astype(c["iarr"]) + 1
                want = np.array([float(call(to, float(x), **kw)) for x in xi])
                close(np.asarray(call(to, xi, **kw)), want, 1e-10 * (1 + np.abs(want)), name + " on an integer array vs. element by element")
                yi = np.rint(ys[np.isfinite(ys)]).astype(c["iarr"])
                wz = np.array([float(call(back, float(y), **kw)) for y in yi])
                close(np.asarray(call(back, yi, **kw)), wz, 1e-9 * (1 + np.abs(wz)), name + " inverse on an integer array vs. element by element")
    return {"nt": f > 0, "labels": [name, "typ:" + typ]}


def s_back():
    return st.fixed_dictionaries({"scale": gen.pick(["mel", "bark", "bark", "bark", "erb"]), "app": st.integers(0, 5), "u": gen.F(0.0, 1.0), "du": gen.F(1e-6, 1.0)})


def c_back(c):
    """Starting on the perceptual scale."""
    to, back, apps, dflt, rto, rback = SC[c["scale"]]
    app = apps[c["app"] % len(apps)]
    hi = float(rto(50000.0, app))
    lo = float(rto(0.5 if app == "Zwicker" else 0.0, app))
    p = lo + (hi - lo) * c["u"]
    q = p + (hi - p) * c["du"]
    name = "%s->hz (%s)" % (c["scale"], app)
    for v in (p, q):
        z = float(call(back, v, approach=app))
        w = float(rback(v, app))
        close(z, w, 1e-8 * (1 + abs(w)) * (60 if app == "Terhardt" else 1), "%s of %r" % (name, v))
        v2 = float(call(to, z, approach=app))
        close(v2, v, 1e-7 * (1 + abs(v)), "%s round trip of %r" % (name, v))
    zp, zq = float(call(back, p, approach=app)), float(call(back, q, approach=app))
    if q - p > 1e-6 and not zq > zp:
        fail("%s not increasing: %r -> %r, %r -> %r" % (name, p, zp, q, zq))
    return {"nt": q - p > 1e-6, "labels": [name]}


PROP = Property("C04", "Random frequency pairs (0..200 kHz, dense at low and at scale break points) per scale and approach: published formula, round trip "
                "both ways, strict increase, array = element-wise. Non-trivial: positive frequency / distinct points.",
                [Sub("from_hz", strat, check, 12000), Sub("from_scale", s_back, c_back, 8000)],
                ["arrays are only required where the conversion supports them (all but Traunmueller's inverse)"])
