import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call
from spafe.utils.filters import scale_fbank


def s_vec():
    return st.fixed_dictionaries({"n": gen.I(1, 400), "scale": gen.pick(gen.SCALES)})


def c_vec(c):
    got = np.asarray(call(scale_fbank, scale=c["scale"], nfilts=c["n"]))
    close(got.reshape(-1), ref.ramp(c["scale"], c["n"]), 1e-14, "%s scaling vector of %d" % (c["scale"], c["n"]))
    if got.shape != (c["n"], 1):
        close(got, ref.ramp(c["scale"], c["n"])[:, None], 1e-14, "scaling vector")
    return {"nt": c["n"] >= 2 and c["scale"] != "constant"}


def s_bank():
    d = {"fs": gen.FS, "fam": gen.pick(sorted(ext.BANK))}
    d.update(gen.bankspec(60))
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 64]), gen.I(8, 500))
    return st.fixed_dictionaries(d)


def c_bank(c):
    fam = c["fam"]
    r = gen.basis(c, fam=fam)
    n = r.nfilts
    B0, c0 = ext.bank(r, fam, scale="constant")
    B, cf = ext.bank(r, fam)
    k = ext.bank_kwargs(r, fam)
    k.pop("scale")
    B1, _ = call(ext.BANK[fam], **k)
    exact(B1, B0, "%s bank with scale left out vs. constant" % fam)
    w = ref.ramp(r.scale, n)
    if fam == "imel":
        w = w[::-1]
    B0, B = np.asarray(B0), np.asarray(B)
    close(B, B0 * w[:, None], 1e-12 * np.abs(B0) + 1e-300, "%s bank, %s scaling of %d filters" % (fam, r.scale, n))
    close(np.asarray(cf), np.asarray(c0), 1e-12 * (1 + np.abs(np.asarray(c0))), "%s bank centres under scaling" % fam)
    return {"nt": n >= 2 and r.scale != "constant" and bool(np.any(B0)), "labels": ["fam:" + fam, "scale:" + r.scale]}


def s_ext():
    d = ext.full_cfg()
    d["ext"] = gen.pick(ext.WITHBANK)
    return st.fixed_dictionaries(d)


def c_ext(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=12000)
    fam = ext.FAM[e]
    B0, _ = ext.bank(r, fam, scale="constant")
    w = ref.ramp(r.scale, r.nfilts)
    if fam == "imel":
        w = w[::-1]
    base, tol, ok = ext.sens(ext.fw(r, fbanks=np.asarray(B0) * w[:, None], scale="constant"), r.sig, c["sig"]["seed"])
    got = ext.fw(r)(r.sig)
    for i, (g, b, t, m) in enumerate(zip(got, base, tol, ok)):
        close(g, b, t, "%s[%d] with %s scaling vs. the scaled bank handed in" % (e, i, r.scale), rows=m)
    return {"nt": r.scale != "constant" and r.nfilts >= 2 and bool(ok[0].any()), "labels": ["ext:" + e, "scale:" + r.scale]}


PROP = Property("C09", "Scaling vectors, every bank kind scaled vs. constant, and every extractor with the option vs. handed the scaled bank. Non-trivial: ascending or "
                "descending, at least two filters, some non-zero weight.",
                [Sub("vector", s_vec, c_vec, 600), Sub("banks", s_bank, c_bank, 1500), Sub("extractors", s_ext, c_ext, 1000)])
