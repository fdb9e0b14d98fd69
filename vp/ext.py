"""The public extractors: how to call each of them for a resolved configuration."""
import numpy as np
from hypothesis import strategies as st

from . import gen, ref
from .core import call

from spafe.features import bfcc as m_bfcc, cqcc as m_cqcc, gfcc as m_gfcc, lfcc as m_lfcc, lpc as m_lpc, mfcc as m_mfcc
from spafe.features import msrcc as m_msrcc, ngcc as m_ngcc, pncc as m_pncc, psrcc as m_psrcc, rplp as m_rplp
from spafe.features import spfeats as m_spf
from spafe.fbanks import bark_fbanks, gammatone_fbanks, linear_fbanks, mel_fbanks
from spafe.frequencies import dominant_frequencies as m_dom, fundamental_frequencies as m_yin
from spafe.utils import cepstral, converters, exceptions, filters, preprocessing, spectral

BANK = {"mel": mel_fbanks.mel_filter_banks, "imel": mel_fbanks.inverse_mel_filter_banks,
        "bark": bark_fbanks.bark_filter_banks, "gamma": gammatone_fbanks.gammatone_filter_banks,
        "lin": linear_fbanks.linear_filter_banks}

# name -> (function, bank family, group)
SPECT = {"mel_spectrogram": (m_mfcc.mel_spectrogram, "mel"), "linear_spectrogram": (m_lfcc.linear_spectrogram, "lin"),
         "bark_spectrogram": (m_bfcc.bark_spectrogram, "bark"), "erb_spectrogram": (m_gfcc.erb_spectrogram, "gamma")}
CEPS = {"mfcc": (m_mfcc.mfcc, "mel"), "imfcc": (m_mfcc.imfcc, "imel"), "lfcc": (m_lfcc.lfcc, "lin"),
        "bfcc": (m_bfcc.bfcc, "bark"), "gfcc": (m_gfcc.gfcc, "gamma"), "ngcc": (m_ngcc.ngcc, "gamma"),
        "msrcc": (m_msrcc.msrcc, "mel"), "psrcc": (m_psrcc.psrcc, "mel"), "pncc": (m_pncc.pncc, "gamma")}
PLPS = {"plp": (m_rplp.plp, "bark"), "rplp": (m_rplp.rplp, "bark")}
LPCS = {"lpc": (m_lpc.lpc, None), "lpcc": (m_lpc.lpcc, None)}
CQTS = {"cqt_spectrogram": (m_cqcc.cqt_spectrogram, None), "cqcc": (m_cqcc.cqcc, None)}
ALL = {**SPECT, **CEPS, **PLPS, **LPCS, **CQTS}
FAM = {k: v[1] for k, v in ALL.items()}
ENERGY = [n for n in CEPS if n != "pncc"]
POST = list(CEPS) + ["lpcc", "plp", "rplp", "cqcc"]
WITHBANK = list(SPECT) + list(CEPS) + list(PLPS)


def bank_kwargs(r, fam, **over):
    k = dict(nfilts=r.nfilts, nfft=r.nfft, fs=r.fs, low_freq=r.low, high_freq=r.high, scale=r.scale)
    if fam != "lin":
        k["conversion_approach"] = r.app
    k.update(over)
    return k


def bank(r, fam, **over):
    return call(BANK[fam], **bank_kwargs(r, fam, **over))


def full_cfg(sig=None, nfilts_max=60):
    """Everything any extractor needs; 'ext' picks the extractor."""
    d = {"fs": gen.FS, "sig": sig if sig is not None else gen.sigspec()}
    d.update(gen.winspec())
    d.update(gen.bankspec(nfilts_max))
    d.update(gen.presub())
    d.update(gen.cepspec())
    d.update(gen.postspec())
    d["gamma"] = st.one_of(st.just(-1 / 7), gen.F(-1.0, 1.5, -0.5, 0.5, 1.0, digits=3))
    d["order"] = st.one_of(gen.I(2, 30, 13, 12, 10), gen.I(2, 30, 13, 12, 10), gen.I(2, 30), gen.I(20, 60))
    d.update(cqtspec())
    d["power"] = gen.pick([2, 2, 1, 1.5])
    return d


def cqtspec():
    return {"oct": gen.I(1, 9, 7), "bpo": gen.I(1, 48, 12, 24), "f0": gen.F(0.001, 0.3, digits=4),
            "thr": gen.pick([0.005, 0.005, 0.0054, 0.0, 0.02]), "q_rate": gen.F(0.3, 1.5, 1.0, digits=3),
            "rr": st.one_of(gen.pick([1.0, 1.0, 0.5, 2.0, 1.3]), gen.F(0.2, 3.0, 1.0, digits=5))}


def resolve(c, ext, ceps=True, cap=60000, minframes=1, longs=False):
    fam = FAM[ext]
    if ext in PLPS and "sig" in c and "nfft" in c:
        # these take time in proportion to (FFT size)^2 per frame
        c = dict(c, sig=dict(c["sig"], F=max(minframes, min(c["sig"]["F"], int(8e8 / c["nfft"] ** 2)))))
    r = gen.basis(c, fam=fam or "lin", ceps=ceps, cap=cap, minframes=minframes, longs=longs)
    r.ext, r.fam = ext, fam
    r.order = c.get("order", 13)
    r.power = c.get("power", 2)
    if ext in PLPS:
        r.nfilts = max(r.nfilts, 6)
        r.order = max(2, min(r.order, r.nfilts))
        r.num = r.order
        # the spectrum handed to the all-pole model is an nfft-point sequence
        if r.nfft < r.order + 1:
            r.nfft = 2 * r.nfilts + 2
            gen.fix_bark_edges(r)
    if ext in LPCS:
        r.order = max(2, min(r.order, max(2, r.L - 1)))
        r.num = r.order
    if ext in CQTS:
        res_cqt(c, r)
        r.num = max(1, min(r.num, len(r.cq_freqs)))
        if r.dct == 1 and len(r.cq_freqs) < 2:
            r.dct = 2
    return r


def cq_grid(r):
    f = np.array([r.f0 * 2.0 ** (k / r.bpo) for k in range(r.oct * r.bpo)])
    Q = r.q_rate / (2 ** (1.0 / r.bpo) - 1)
    inb = (f >= r.low) & (f <= r.hi)
    f = f[inb]
    N = np.ceil(Q * r.fs / f)
    # numerically ambiguous?  (an edge or a ceil within rounding)
    x = Q * r.fs / f
    amb = bool(np.any(np.abs(x - np.rint(x)) < 1e-9 * np.maximum(1, x)))
    return f, N.astype(int), amb


def res_cqt(c, r):
    r.oct, r.bpo, r.q_rate, r.thr, r.rr = c["oct"], c["bpo"], c["q_rate"], c["thr"], c["rr"]
    nyq = r.fs / 2
    if hasattr(r, "n") and int(((r.n - r.L) // r.H + 1) * r.rr) < 1:
        r.rr = 1.0
    r.f0 = round(c["f0"] * nyq, 3)
    if r.f0 <= r.low:
        r.f0 = round(r.low * 1.01 + 0.5, 3)
    if r.f0 > 0.9 * r.hi:
        if r.hi <= 1.05 * r.low + 2:
            r.low, r.high, r.hi = 0, None, nyq
        r.f0 = round(r.low + 0.5 * (r.hi - r.low), 3)
    f, N, amb = cq_grid(r)
    if len(N) == 0 or N.min() > r.nfft:
        r.nfft = int(N.min() if len(N) else 512) + 7
        f, N, amb = cq_grid(r)
    keep = N <= r.nfft
    r.cq_freqs, r.cq_lens, r.cq_amb = f[keep], N[keep], amb


def kwargs(r, ext=None, post=True, **over):
    """Keyword arguments for extractor `ext` (defaults to the one r was resolved for)."""
    ext = ext or r.ext
    k = dict(fs=r.fs, pre_emph=r.pre, pre_emph_coeff=r.coeff, window=r.window)
    if ext in WITHBANK:
        k.update(nfilts=r.nfilts, nfft=r.nfft, low_freq=r.low, high_freq=r.high, scale=r.scale)
        if FAM[ext] != "lin":
            k["conversion_approach"] = r.app
    if ext in CEPS:
        k.update(num_ceps=r.num, dct_type=r.dct)
        if ext == "pncc":
            k["power"] = r.power
        if ext in ("msrcc", "psrcc"):
            k["gamma"] = r.gamma
        if post and ext in ENERGY:
            k["use_energy"] = r.energy
    if ext in LPCS or ext in PLPS:
        k["order"] = r.order
    if ext in CQTS:
        k.update(nfft=r.nfft, low_freq=r.low, high_freq=r.high, number_of_octaves=r.oct, number_of_bins_per_octave=r.bpo,
                 spectral_threshold=r.thr, f0=r.f0, q_rate=r.q_rate)
    if ext == "cqcc":
        k.update(num_ceps=r.num, dct_type=r.dct, resampling_ratio=r.rr)
    if post and ext in POST:
        k.update(lifter=r.lifter, normalize=r.norm)
    k.update(over)
    return k


def run(r, ext=None, sig=None, post=True, **over):
    ext = ext or r.ext
    return call(ALL[ext][0], r.sig if sig is None else sig, **kwargs(r, ext, post, **over))


def outs(v):
    """Extractor result as a list of arrays."""
    return [np.asarray(x) for x in v] if isinstance(v, tuple) else [np.asarray(v)]


def framewise(v, ext):
    """Outputs with frames along axis 0 (the constant-Q spectrogram has them along axis 1)."""
    o = outs(v)
    return [x.T for x in o] if ext == "cqt_spectrogram" else o


# documented defaults (docstrings/signatures): leaving an argument out must be the same as passing its default
_D = dict(fs=16000, pre_emph=True, pre_emph_coeff=0.97, window=None, nfilts=24, nfft=512, low_freq=0, high_freq=None,
          scale="constant", num_ceps=13, dct_type=2, use_energy=False, lifter=None, normalize=None, order=13)
DEFAULTS = {e: dict(_D) for e in ALL}
for _e in ("mel_spectrogram", "mfcc", "imfcc", "msrcc", "psrcc"):
    DEFAULTS[_e]["conversion_approach"] = "Oshaghnessy"
for _e in ("bark_spectrogram", "bfcc", "plp", "rplp"):
    DEFAULTS[_e]["conversion_approach"] = "Wang"
for _e in ("erb_spectrogram", "gfcc", "ngcc", "pncc"):
    DEFAULTS[_e]["conversion_approach"] = "Glasberg"
for _e in ("bfcc", "psrcc"):
    DEFAULTS[_e]["nfilts"] = 26
DEFAULTS["bark_spectrogram"]["pre_emph"] = False
DEFAULTS["plp"]["pre_emph"] = DEFAULTS["rplp"]["pre_emph"] = False
DEFAULTS["msrcc"]["gamma"] = DEFAULTS["psrcc"]["gamma"] = -1 / 7
DEFAULTS["pncc"]["power"] = 2
for _e in CQTS:
    DEFAULTS[_e].update(number_of_octaves=7, number_of_bins_per_octave=24, spectral_threshold=0.005, f0=120, q_rate=1.0,
                        resampling_ratio=1.0)


def drop_defaults(k, ext):
    d = DEFAULTS[ext]
    return {a: v for a, v in k.items() if not (a in d and type(v) in (type(d[a]), int, float) and v == d[a])}


def sens(fn, sig, seed=0, k=2, rel=1e-11):
    """Result of fn(sig) (list of frame-major arrays) and how much tiny relative changes of the samples move it:
    per-row tolerances, and masks of the rows that are well-conditioned enough to compare."""
    base = fn(sig)
    rng = np.random.default_rng(seed + 77)
    d = [np.zeros(b.shape) for b in base]
    for _ in range(k):
        o = fn(np.asarray(sig, float) * (1 + rel * rng.standard_normal(len(sig))))
        for i, (b, v) in enumerate(zip(base, o)):
            if v.shape == b.shape:
                with np.errstate(all="ignore"):
                    d[i] = np.fmax(d[i], np.where(np.isfinite(v) & np.isfinite(b), np.abs(v - b), np.where(v == b, 0, np.inf)))
    tols, oks = [], []
    for b, dd in zip(base, d):
        ax = tuple(range(1, b.ndim))
        m = dd.max(axis=ax) if ax and dd.size else dd
        fb = np.where(np.isfinite(b), np.abs(b), 0)
        s = fb.max(axis=ax) if ax and b.size else fb
        t = 120 * m + 1e-11 * s + 1e-300
        ok = t <= 1e-4 * s + 1e-300
        tols.append(t.reshape((-1,) + (1,) * (b.ndim - 1)))
        oks.append(ok)
    return base, tols, oks


def fw(r, ext=None, post=True, **over):
    """sig -> frame-major outputs of the extractor."""
    ext = ext or r.ext
    return lambda sig: framewise(run(r, ext, sig, post, **over), ext)
