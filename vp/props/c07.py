import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.fbanks.bark_fbanks import Fm


def strat():
    d = {"fs": gen.FS}
    d.update(gen.bankspec(60))
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 64]), gen.I(8, 300), gen.I(8, 1100))
    d["nfilts"] = st.one_of(gen.pick([24, 26, 20, 13]), gen.I(2, 40), gen.I(2, 12))
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    c = dict(c, scale="constant")
    r = gen.basis(c, fam="bark")
    if r.nfilts * r.nfft > 16000:
        r.nfilts = max(2, 16000 // r.nfft)
    k = ext.bank_kwargs(r, "bark")
    if c["omit"]:
        dd = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant", conversion_approach="Wang")
        k = {a: v for a, v in k.items() if dd[a] != v}
    B, cf = call(ext.BANK["bark"], **k)
    B, cf = np.asarray(B), np.asarray(cf)
    what = "bark bank (%d filters, nfft %d, fs %d, %r..%r Hz, %s)" % (r.nfilts, r.nfft, r.fs, r.low, r.high, r.app)
    lo, hi = float(ref.hz2bark(r.low, r.app)), float(ref.hz2bark(r.hi, r.app))
    wc = np.linspace(lo, hi, r.nfilts)
    close(cf, wc, 1e-9 * (1 + np.abs(wc)), what + " centre frequencies (bark)")
    nb = r.nfft // 2 + 1
    if B.shape != (r.nfilts, nb):
        fail("%s: shape %s" % (what, B.shape))
    i0 = int(np.floor((r.nfft + 1) * r.low / r.fs)) if r.low else 0
    i1 = int(np.floor((r.nfft + 1) * r.hi / r.fs))
    f = np.arange(nb) * r.fs / (r.nfft + 1)
    D = ref.hz2bark(f, r.app)[None, :] - wc[:, None]
    W = ref.bark_curve(D)
    inb = (np.arange(nb) >= i0) & (np.arange(nb) < i1)
    W = np.where(inb[None, :], W, 0.0)
    with np.errstate(all="ignore"):
        edge = (np.abs(D + 1.3) < 1e-6) | (np.abs(D - 2.5) < 1e-6)
    close(np.where(edge, W, B), W, 1e-7, what + " weights")
    return {"nt": bool(np.any(W > 0)) and r.nfilts >= 2, "labels": ["app:" + r.app, "band" if (r.low or r.high) else "full", "odd" if r.nfft % 2 else "even"]}


def s_curve():
    return st.fixed_dictionaries({"fc": gen.F(0.0, 25.0), "d": st.one_of(gen.F(-4.0, 4.0, -1.3, -0.5, 0.5, 2.5, 0.0, p=20), gen.F(-30.0, 30.0))})


def c_curve(c):
    d = c["d"]
    fb = c["fc"] + d
    d = fb - c["fc"]
    if min(abs(d + 1.3), abs(d - 2.5)) < 1e-9:
        return {"nt": False, "labels": ["edge"]}
    close(float(call(Fm, fb, c["fc"])), float(ref.bark_curve(d)), 1e-9, "critical-band curve at distance %r" % d)
    return {"nt": -1.3 < d < 2.5, "labels": ["skirt" if 0.5 < abs(d) and -1.3 < d < 2.5 else "other"]}


PROP = Property("C07", "Random filter counts, FFT sizes, rates, bands and approaches against the critical-band curve evaluated at bin frequencies i*fs/(nfft+1), with bins "
                "outside the band zero; and the curve itself. Non-trivial: some non-zero weight and at least two filters / a distance inside the support.",
                [Sub("bank", strat, check, 1600), Sub("curve", s_curve, c_curve, 3000)],
                ["points within 1e-6 bark of the two jumps of the curve are not compared", "band edges are kept off exact bin boundaries"])
