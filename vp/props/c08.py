import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, finite
from ..core import Property, Sub, call, fail
from spafe.fbanks.gammatone_fbanks import gammatone_filter_banks, generate_center_frequencies

EARQ, MINBW = 9.26449, 24.7


def centres(low, high, n):
    """Glasberg-Moore: equal steps of log(f + EarQ*minBW) from low (included) towards high (excluded), ascending."""
    c = EARQ * MINBW
    i = np.arange(n, 0, -1)                       # n -> low ... 1 -> one step below high
    return np.exp(np.log(high + c) + i / n * (np.log(low + c) - np.log(high + c))) - c


def response(fc, nfft, fs, order):
    """|H| of Slaney's 4th-order gammatone as four cascaded second-order sections, normalised to its maximum over bins."""
    T = 1.0 / fs
    erb = ((fc / EARQ) ** order + MINBW ** order) ** (1.0 / order)
    B = 1.019 * 2 * np.pi * erb
    z = np.exp(2j * np.pi * np.arange(nfft // 2 + 1) / nfft)
    e = np.exp(-B * T)
    co, si = np.cos(2 * fc * np.pi * T), np.sin(2 * fc * np.pi * T)
    num = np.ones_like(z)
    for s in (np.sqrt(3 + 2 ** 1.5), -np.sqrt(3 + 2 ** 1.5), np.sqrt(3 - 2 ** 1.5), -np.sqrt(3 - 2 ** 1.5)):
        num = num * (z - (co + s * si) * e)
    p = np.exp(2j * np.pi * fc * T) * e
    den = ((z - p) * (z - np.conj(p))) ** 4
    h = np.abs(num) / np.abs(den)
    return h / h.max()


def strat():
    d = {"fs": gen.FS}
    d.update(gen.bankspec(100))
    d["order"] = gen.pick([4, 4, 4, 1, 2, 3, 5])
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    c = dict(c, scale="constant")
    r = gen.basis(c, fam="gamma")
    k = ext.bank_kwargs(r, "gamma")
    k["order"] = c["order"]
    if c["omit"]:
        dd = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant", conversion_approach="Glasberg", order=4)
        k = {a: v for a, v in k.items() if dd[a] != v}
    B, cf = call(gammatone_filter_banks, **k)
    B, cf = np.asarray(B), np.asarray(cf)
    what = "gammatone bank (%d filters, nfft %d, fs %d, %r..%r Hz, order %d)" % (r.nfilts, r.nfft, r.fs, r.low, r.high, c["order"])
    fc = centres(r.low, r.hi, r.nfilts)
    w = ref.hz2erb(fc)
    close(cf, w, 1e-8 * (1 + np.abs(w)), what + " centre frequencies (ERB)")
    finite(B, what)
    if np.any(B < 0) or np.any(B > 1 + 1e-9):
        fail(what + ": weight outside [0, 1]")
    W = np.array([response(f, r.nfft, r.fs, c["order"]) for f in fc])
    close(B, W, 1e-6 * W + 1e-9, what + " weights")
    close(B.max(axis=1), np.ones(r.nfilts), 1e-9, what + " peak weights")
    g = np.asarray(call(generate_center_frequencies, r.low, r.hi, r.nfilts))
    close(g, fc, 1e-8 * (1 + r.hi), what + " centre frequencies (Hz)")
    return {"nt": r.nfilts >= 2, "labels": ["order:%d" % c["order"], "odd" if r.nfft % 2 else "even", "band" if (r.low or r.high) else "full"]}


PROP = Property("C08", "Random filter counts, FFT sizes, rates, bands and ERB orders: centres on the Glasberg-Moore scale and weights against an independently evaluated "
                "cascade of gammatone sections. Non-trivial: at least two filters.",
                [Sub("bank", strat, check, 4000)])
