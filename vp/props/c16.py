import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call
from spafe.features.spfeats import extract_feats
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies
from spafe.frequencies.fundamental_frequencies import compute_yin

LOG = ["mfcc", "imfcc", "lfcc", "ngcc"]
GAIN = st.deferred(lambda: st.one_of(gen.I(-14, 14).map(lambda k: 2.0 ** k), gen.F(1e-3, 1e3, digits=4)))


def pow2(g):
    return g > 0 and np.frexp(g)[0] == 0.5


def audible(r):
    """frames the taper leaves something of"""
    fr = ref.frames(ref.pre(r.sig, r.coeff) if r.pre else r.sig, r.L, r.H)
    m = np.abs(fr * ref.taper(r.win, r.L))[:, :r.nfft].max(axis=1)
    return m > 1e-12 * np.abs(fr).max(axis=1)


def banded(r, fam):
    """frames with something in every band that has a weight (quantised samples can cancel exactly in a bin)"""
    fr = ref.frames(ref.pre(r.sig, r.coeff) if r.pre else r.sig, r.L, r.H) * ref.taper(r.win, r.L)
    P = np.abs(np.fft.rfft(fr, r.nfft)) ** 2
    B = np.abs(np.asarray(ext.bank(r, fam)[0], float))
    B = B[(B > 0).any(axis=1)]
    if not len(B):
        return np.ones(len(P), bool)
    return ((P @ B.T) > 1e-22 * P.max(axis=1, keepdims=True) * B.max(axis=1)).all(axis=1)


def s_ext():
    d = ext.full_cfg(nfilts_max=50)
    d["ext"] = gen.pick(sorted(ext.SPECT) + LOG + ["gfcc", "msrcc", "psrcc", "cqt_spectrogram", "cqcc", "lpc", "lpcc"])
    d["gain"] = GAIN
    return st.fixed_dictionaries(d)


def c_ext(c):
    e, g = c["ext"], c["gain"]
    r = ext.resolve(c, e, cap=15000)
    f = ext.fw(r, post=False)
    if pow2(g):
        # scaling by a power of two is exact all the way through, however ill-conditioned the frame
        base = f(r.sig)
        sc = [np.abs(b).max(axis=tuple(range(1, b.ndim)), keepdims=True) for b in base]
        tol = [1e-11 * s + 1e-300 for s in sc]
        ok = [np.ones(len(b), bool) for b in base]
    else:
        base, tol, ok = ext.sens(f, r.sig, c["sig"]["seed"])
    got = f(r.sig * g)
    want, fac = list(base), [1.0] * len(base)
    if e in ext.SPECT:
        fac = [g ** 2, g]
    elif e == "gfcc":
        fac = [g ** (2 / 3)]
    elif e == "msrcc":
        fac = [g ** (2 * r.gamma)]
        B = np.asarray(ext.bank(r, "mel")[0])
        if not (B > 0).any(axis=1).all():
            return {"nt": False, "labels": ["silent-band"]}
    elif e == "cqt_spectrogram":
        fac = [g]
    elif e == "lpc":
        fac = [1.0, g ** 2]
    want = [b * k for b, k in zip(base, fac)]
    tol = [t * k for t, k in zip(tol, fac)]
    if e in LOG or e == "cqcc":
        if e == "cqcc":
            z = np.abs(ext.framewise(ext.run(r, "cqt_spectrogram"), "cqt_spectrogram")[0])
            nz = (z > 0).any(axis=0)
            if (z[:, nz] == 0).any():
                return {"nt": False, "labels": ["zero-entry"]}
        else:
            nz = (np.asarray(ext.bank(r, ext.FAM[e])[0]) > 0).any(axis=1)
        shift = 2 * np.log(g) * nz.astype(float)
        D = ref.dct_matrix(r.dct, len(shift))[:r.num]
        want = [base[0] + D @ shift]
        tol = [tol[0] + 1e-11 * (1 + np.abs(shift).sum())]
    if e == "lpcc":
        want = [base[0].copy()]
        want[0][:, 0] += 2 * np.log(g)
        tol = [tol[0] + 1e-11 * abs(np.log(g))]
    if e in LOG or e in ("msrcc", "cqcc", "lpcc"):
        a = audible(r)
        if e in LOG + ["msrcc"]:
            a = a & banded(r, ext.FAM[e])
        if e == "cqcc":
            if not a.all():
                return {"nt": False, "labels": ["silent"]}
        else:
            ok = [o & a for o in ok]
    for i in range(len(base)):
        close(got[i], want[i], tol[i], "%s[%d] of the signal times %r" % (e, i, g), rows=ok[i])
    return {"nt": g != 1 and bool(ok[0].any()), "labels": ["ext:" + e, "pow2" if pow2(g) else "general", "cond" if ok[0].all() else "part" if ok[0].any() else "ill"]}


def s_energy():
    d = ext.full_cfg(nfilts_max=40)
    d["ext"] = gen.pick(ext.ENERGY)
    d["k"] = gen.I(-14, 14)
    return st.fixed_dictionaries(d)


def c_energy(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=10000)
    a = np.asarray(ext.run(r, post=False, use_energy=True))[:, 0]
    b = np.asarray(ext.run(r, sig=r.sig * 2.0 ** c["k"], post=False, use_energy=True))[:, 0]
    ok = audible(r)
    close(b, a + 2 * c["k"] * np.log(2), 1e-11 * (1 + np.abs(a)), "%s energy column of the signal times 2^%d" % (e, c["k"]), rows=ok)
    return {"nt": bool(ok.any()) and c["k"] != 0, "labels": ["ext:" + e]}


def s_track():
    return st.fixed_dictionaries({"fs": gen.FS, "sig": gen.sigspec(), "what": gen.pick(["yin", "yin", "dominant", "butter", "spfeats", "spfeats"]), "k": gen.I(-36, 30, p=0), "nfft": st.one_of(gen.pick([512, 256]), gen.I(8, 1200)),
                                  "wl": gen.pick([0.025, 0.03, 0.04, 0.02]), "wh": gen.pick([0.01, 0.015, 0.02]), "win": gen.WIN, "thr": gen.F(0.02, 0.9, 0.1, digits=3)})


INV = ["centroid", "skewness", "kurtosis", "entropy", "spread", "flatness", "rolloff"]
LIN = ["flux", "mean", "rms", "std"]


def c_track(c):
    fs, g, w = c["fs"], 2.0 ** c["k"], c["what"]
    L = int(0.05 * fs)
    n = L + min(c["sig"]["F"], 40) * int(0.01 * fs) + 5
    x = gen.realise(c["sig"], n)
    if w == "spfeats":
        a, b = call(extract_feats, x, fs, c["nfft"]), call(extract_feats, x * g, fs, c["nfft"])
        for k in INV:
            close(b["spectral_" + k], a["spectral_" + k], 1e-10 * abs(a["spectral_" + k]) + 1e-12, "spectral %s of the signal times %r" % (k, g))
        for k in LIN:
            close(b["spectral_" + k], g * a["spectral_" + k], 1e-11 * abs(g * a["spectral_" + k]), "spectral %s of the signal times %r" % (k, g))
        v = a["spectral_variance"]
        close(b["spectral_variance"], g * g * v, 1e-11 * g * g * abs(v), "spectral variance of the signal times %r" % g)
    elif w == "yin":
        a = call(compute_yin, x, fs, c["wl"], c["wh"], harmonic_threshold=c["thr"])
        b = call(compute_yin, x * g, fs, c["wl"], c["wh"], harmonic_threshold=c["thr"])
        for u, v, nm in zip(a, b, ("pitch", "harmonic rate", "argmin", "times")):
            close(v, u, 1e-9 * np.abs(u) + 1e-12, "YIN %s of the signal times %r" % (nm, g))
    else:
        kw = dict(nfft=c["nfft"], win_len=c["wl"], win_hop=min(c["wh"], c["wl"]), win_type=c["win"])
        if w == "butter":
            kw.update(butter_filter=True, lower_cutoff=0.02 * fs, upper_cutoff=0.3 * fs)
        close(call(get_dominant_frequencies, x * g, fs, **kw), call(get_dominant_frequencies, x, fs, **kw), 1e-9, "dominant frequencies of the signal times %r" % g)
    return {"nt": g != 1, "labels": ["track:" + w]}


PROP = Property("C16", "Every listed extractor on a random signal and on the signal times a gain (powers of two 2^-14..2^14, exact in floating point; and general gains with measured "
                "conditioning). Non-trivial: gain other than 1 and some comparable frame.",
                [Sub("extractors", s_ext, c_ext, 3000), Sub("energy", s_energy, c_energy, 800), Sub("tracks", s_track, c_track, 2500)])
