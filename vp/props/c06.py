import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail


def strat():
    d = {"fs": gen.FS}
    d.update(gen.bankspec(100))
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    r = gen.basis(c, fam="imel")
    k = ext.bank_kwargs(r, "imel")
    if c["omit"]:
        dd = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant", conversion_approach="Oshaghnessy")
        k = {a: v for a, v in k.items() if dd[a] != v}
    B, cf = call(ext.BANK["imel"], **k)
    B, cf = np.asarray(B), np.asarray(cf)
    what = "inverse-mel bank (%d filters, nfft %d, %r..%r Hz, %s, %s)" % (r.nfilts, r.nfft, r.low, r.high, r.app, r.scale)
    # against the definition
    W, wc, edges = ref.mel_bank(r.nfilts, r.nfft, r.fs, r.low, r.hi, r.app, mirror=True)
    slope = 1 / np.minimum(np.diff(edges)[:-1], np.diff(edges)[1:])
    tol = (1e-10 * (1 + r.hi) * slope)[:, None]
    if tol.max() > 1e-3:
        return {"nt": False, "labels": ["degenerate"]}
    n = r.nfilts
    # filters are listed from high to low frequency: "ascendant" = weights growing with frequency
    w = {"constant": np.ones(n), "ascendant": np.arange(n, 0, -1) / n, "descendant": np.arange(1, n + 1) / n}[r.scale]
    close(B, W * w[:, None], tol + 1e-11, what + " weights")
    # and, where bins mirror onto bins, against the library's own mel bank
    Bm, cm = ext.bank(r, "mel", scale="constant")
    if r.nfft % 2 == 0 and r.low == 0 and r.hi == r.fs / 2:
        close(B, np.asarray(Bm)[:, ::-1] * w[:, None], tol + 1e-11, what + " vs. mirrored mel bank")
    hz = r.low + r.hi - ref.mel2hz(np.asarray(cm), r.app)
    wantc = ref.hz2mel(hz, r.app)
    close(cf, wantc, 1e-8 * (1 + np.abs(wantc)), what + " centre frequencies")
    if r.high is None:
        B2, cf2 = ext.bank(r, "imel", high_freq=r.fs / 2)
        close(B, B2, 1e-12, what + ": default upper limit vs. fs/2")
        close(cf, np.asarray(cf2), 1e-9, what + ": centres, default upper limit vs. fs/2")
    return {"nt": n >= 2 and bool(np.any(W > 0)), "labels": ["scale:" + r.scale, "app:" + r.app, "high:None" if r.high is None else "high:set", "low>0" if r.low else "low=0"]}


PROP = Property("C06", "Random filter counts, FFT sizes, rates, bands (upper limit given or omitted), approaches and scalings against the mirrored triangle definition and the "
                "library's own mel bank. Non-trivial: at least two filters and some non-zero weight.",
                [Sub("mirror", strat, check, 4000)])
