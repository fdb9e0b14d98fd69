import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail


def strat():
    d = {"fs": gen.FS, "fam": gen.pick(["mel", "lin"])}
    d.update(gen.bankspec(140))
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    fam = c["fam"]
    c = dict(c, scale="constant")
    r = gen.basis(c, fam=fam)
    k = ext.bank_kwargs(r, fam)
    if c["omit"]:
        dd = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant", conversion_approach="Oshaghnessy")
        k = {a: v for a, v in k.items() if dd[a] != v}
    B, cf = call(ext.BANK[fam], **k)
    B, cf = np.asarray(B), np.asarray(cf)
    if fam == "mel":
        W, wc, edges = ref.mel_bank(r.nfilts, r.nfft, r.fs, r.low, r.hi, r.app)
    else:
        W, wc, edges = ref.lin_bank(r.nfilts, r.nfft, r.fs, r.low, r.hi)
    ax = ref.bins(r.nfft, r.fs)
    what = "%s bank (%d filters, nfft %d, %r..%r Hz%s)" % (fam, r.nfilts, r.nfft, r.low, r.hi, ", " + r.app if fam == "mel" else "")
    close(cf, wc, 1e-9 * (1 + np.abs(wc)), what + " centre frequencies")
    # position uncertainty of edges (rounding in the conversions) times the slope
    slope = 1 / np.minimum(np.diff(edges)[:-1], np.diff(edges)[1:])
    tol = (1e-10 * (1 + r.hi) * slope)[:, None]
    if tol.max() > 1e-3:
        return {"nt": False, "labels": ["degenerate"]}
    close(B, W, tol + 1e-11, what + " weights")
    if np.any(B < 0) or np.any(B > 1 + 1e-9):
        fail(what + ": weight outside [0, 1]")
    # neighbouring triangles sum to one between the first and the last centre
    if r.nfilts >= 2:
        inside = (ax >= edges[1]) & (ax <= edges[-2])
        close(B.sum(axis=0)[inside], np.ones(inside.sum()), 2 * tol.max() + 1e-10, what + " partition of unity between centres")
    return {"nt": r.nfilts >= 2 and bool(np.any(W > 0)), "labels": ["fam:" + fam, "odd" if r.nfft % 2 else "even", "app:" + r.app,
                                                                  "band" if (r.low or r.hi != r.fs / 2) else "full", "nfilts>60" if r.nfilts > 60 else "nfilts<=60"]}


PROP = Property("C05", "Random filter counts 1..140, FFT sizes 8..2048 (odd and even), rates, bands and approaches; weights and centres against the triangle definition "
                "and partition of unity. Non-trivial: at least two filters and some non-zero weight.",
                [Sub("triangles", strat, check, 5000)])
