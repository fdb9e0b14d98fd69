import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe, ref
from ..cmp import close
from ..core import Property, Sub, call
from spafe.utils.filters import rasta_filter


def s_rasta():
    return st.fixed_dictionaries({"R": gen.I(1, 20), "C": st.one_of(gen.I(5, 20), gen.I(5, 400)), "seed": gen.SEED, "amp": gen.pick([1.0, 30.0, 1e-3]), "off": gen.pick([0.0, 5.0, -30.0]), "row": gen.I(0, 19), "const": st.booleans()})


def c_rasta(c):
    rng = np.random.default_rng(c["seed"])
    x = rng.standard_normal((c["R"], c["C"])) * c["amp"] + c["off"]
    if c["const"]:
        x[0] = c["off"]
    keep = x.copy()
    w = ref.rasta(x)
    got = np.asarray(call(rasta_filter, x))
    tol = 1e-11 * (np.abs(x).max() + 1e-300)
    close(got, w, tol, "RASTA filter of a %dx%d matrix" % x.shape)
    close(x, keep, 0, "RASTA filter input after the call")
    i = c["row"] % c["R"]
    close(np.asarray(call(rasta_filter, x[i:i + 1])), got[i:i + 1], tol, "RASTA filter of row %d alone vs. within the matrix" % i)
    return {"nt": c["R"] >= 2 and c["C"] >= 8}


def s_pipe():
    d = ext.full_cfg(sig=st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), nfilts_max=50)
    d["order"] = st.one_of(gen.I(1, 16, 13, 12), gen.I(1, 24))
    d["ext"] = gen.pick(["plp", "rplp"])
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def c_pipe(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=15000)
    r.order = r.num = max(1, min(c["order"], r.nfilts))
    k = ext.kwargs(r, post=False)
    if c["omit"]:
        k = ext.drop_defaults(k, e)
    got = call(ext.ALL[e][0], r.sig, **k)
    B = np.asarray(ext.bank(r, "bark")[0])
    v, tol, ok = pipe.plp(r, B, rasta=(e == "rplp"))
    close(got, v, tol, "%s (order %d of %d filters, nfft %d, fs %d, %r..%r Hz, %s)" % (e, r.order, r.nfilts, r.nfft, r.fs, r.low, r.high, r.app), rows=ok)
    return {"nt": bool(ok.any()) and r.order >= 2, "labels": ["ext:" + e, "cond" if ok.all() else "part" if ok.any() else "ill", "order:%s" % ("1" if r.order == 1 else "<=13" if r.order <= 13 else ">13")]}


PROP = Property("C24", "The RASTA filter on random matrices (against the difference equation, and row by row), PLP and RASTA-PLP on random signals and parameters against an independent pipeline "
                "with measured conditioning. Non-trivial: two rows and eight columns / order at least 2 and some well-conditioned frame.",
                [Sub("rasta", s_rasta, c_rasta, 1500), Sub("pipeline", s_pipe, c_pipe, 3000)],
                ["frames whose all-pole system is conditioned worse than 1e9 are not compared", "RASTA input has at least five columns"])
