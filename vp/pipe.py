"""Reference pipelines of the bank-based extractors: (values, tolerances, rows that can be compared)."""
import numpy as np

from . import ref
from .ref import EPS


def spec(r, sig=None, power=2):
    return ref.Spec(r.sig if sig is None else sig, r.L, r.H, r.win, r.nfft, r.coeff if r.pre else None, power)


def dct(v, e, ok, r):
    n = v.shape[1]
    D = ref.dct_matrix(r.dct, n)[:r.num]
    tol = e @ np.abs(D).T + 1e-12 * np.abs(v).sum(axis=1, keepdims=True) + 1e-13
    return v @ D.T, tol, ok.all(axis=1)


def logcep(r, bank, sig=None):
    f, d = spec(r, sig).bands(bank)
    lg, err, ok = ref.safe_log(f, d)
    return dct(lg, err, ok, r)


def bfcc(r, bank, sig=None):
    f, d = spec(r, sig).bands(bank)
    y = ref.loudness(f)
    ok = (d <= 1e-5 * np.abs(f)) | ((f == 0) & (d == 0))
    z = np.where(y == 0, EPS, y)
    with np.errstate(all="ignore"):
        lg = np.log(z)
        err = np.where(f == 0, 0, 6 * d / np.where(f == 0, 1, f)) + 1e-13 * np.abs(lg) + 1e-13
    return dct(lg, err, ok & ((y > 1e-100) | (f == 0)), r)


def gfcc(r, bank, sig=None):
    f, d = spec(r, sig).bands(bank)
    v = np.cbrt(f)
    err = np.cbrt(f + d) - np.cbrt(np.maximum(f - d, 0)) + 1e-13 * v
    return dct(v, err, np.ones(f.shape, bool), r)


def powcep(r, f, d):
    ok = (d <= 1e-5 * np.abs(f)) | ((f == 0) & (d == 0))
    z = np.where(f == 0, EPS, f)
    with np.errstate(all="ignore"):
        v = z ** r.gamma
        err = np.where(f == 0, 0, 3 * abs(r.gamma) * d / np.where(f == 0, 1, f)) * v + 1e-13 * v
    return dct(np.where(ok, v, 0), np.where(ok, err, 0), ok, r)


def msrcc(r, bank, sig=None):
    f, d = spec(r, sig).bands(bank)
    return powcep(r, f, d)


def psrcc(r, bank, sig=None):
    S = spec(r, sig)
    bank = np.asarray(bank)
    ph = np.degrees(np.angle(S.X)) % 360.0
    with np.errstate(all="ignore"):
        e = np.where(S.mag > 0, 60 * S.dmag / S.mag, 360.0) + 1e-12
    e = np.where((ph < e) | (ph > 360 - e), 360.0, e)
    f = ph @ bank.T
    d = np.minimum(e, 360.0) @ bank.T + 1e-13 * f
    # a filter without any weight sees exactly zero
    none = ~(bank > 0).any(axis=1)
    d[:, none] = 0
    return powcep(r, f, d)


def pncc(r, bank, sig=None, lo_hi=False):
    S = spec(r, sig, r.power)
    P, dP = S.bands(bank)
    V, e, ok = pncc_from_power(P, dP)
    return dct(V, e, ok, r)


def medium(P, M=2):
    F = len(P)
    return np.array([P[max(0, m - M):m + M + 1].sum(axis=0) / (2 * M + 1) for m in range(F)])


def asym(q, a=0.999, b=0.5):
    o = np.zeros(q.shape)
    o[0] = 0.9 * q[0]
    for m in range(1, len(q)):
        up = q[m] >= o[m - 1]
        l = np.where(up, a, b)
        o[m] = l * o[m - 1] + (1 - l) * q[m]
    return o


def tmask(q, lam=0.85, mu=0.2):
    """values, and how far each decision is from its threshold"""
    o = np.zeros(q.shape)
    mar = np.full(q.shape, np.inf)
    o[0] = q[0]
    peak = q[0].copy()
    for m in range(1, len(q)):
        t = lam * peak
        o[m] = np.where(q[m] >= t, q[m], mu * peak)
        mar[m] = np.where((q[m] == 0) & (peak == 0), np.inf, np.abs(q[m] - t))
        peak = np.maximum(t, q[m])
    return o, mar


def smooth(R, Q, N=4):
    Q = np.where(Q == 0, EPS, Q)
    L = R.shape[1]
    q = R / Q
    return np.array([q[:, max(0, l - N):min(L - 1, l + N) + 1].mean(axis=1) for l in range(L)]).T


def meanpow(T, lam=0.999):
    mu = np.zeros(len(T))
    mu[0] = 1e-4
    for m in range(1, len(T)):
        mu[m] = lam * mu[m - 1] + (1 - lam) * T[m].mean()
    return mu


def pncc_from_power(P, dP):
    """V = U^(1/15) with interval-style error and a mask of entries not hit by a borderline decision."""
    Q = medium(P)
    dQ = medium(dP) + 1e-13 * Q
    ill = (dQ > 1e-7 * Q) & ~((Q == 0) & (dQ == 0))
    le = asym(Q)
    # errors of running filters: bounded by the largest error so far
    acc = np.maximum.accumulate(np.maximum(dQ, 1e-13 * Q), axis=0)
    Q0 = np.where(Q - le < 0, 0.0, Q - le)
    d0 = 4 * acc
    f = asym(Q0)
    tm, mar = tmask(Q0)
    gap = np.abs(Q - 2 * le)
    dec_tm = mar <= 10 * np.maximum.accumulate(d0, axis=0)
    use = Q >= 2 * le
    R = np.where(use, tm, f)
    amb = ((gap <= 10 * acc) & ~((Q == 0) & (le == 0))) | (use & dec_tm & ~((acc == 0)))
    Rhi = np.where(amb, np.maximum(np.maximum(tm, f), np.maximum.accumulate(Q0, axis=0)), R) + 4 * np.maximum.accumulate(d0, axis=0)
    Rlo = np.where(amb, 0.0, np.maximum(R - 4 * np.maximum.accumulate(d0, axis=0), 0))
    Qhi, Qlo = Q + dQ, np.maximum(Q - dQ, 0)
    Qz = np.where(Qlo == 0, np.where(Q == 0, EPS, Q / 2), Qlo)
    S = smooth(R, Q)
    Shi, Slo = smooth(Rhi, Qz), smooth(Rlo, np.where(Q == 0, EPS, Qhi))
    T, Thi, Tlo = P * S, (P + dP) * Shi, np.maximum(P - dP, 0) * Slo
    mu, muh, mul = meanpow(T), meanpow(Thi), meanpow(Tlo)
    U = T / mu[:, None]
    Uhi, Ulo = Thi / mul[:, None], Tlo / muh[:, None]
    V = U ** (1 / 15)
    e = Uhi ** (1 / 15) - Ulo ** (1 / 15) + 1e-12 * V
    return V, e, ~ill


def plp(r, bank, sig=None, rasta=False, order=None):
    S = spec(r, sig)
    f, d = S.bands(bank)
    order = order or r.order
    base = plp_tail(f, r, rasta, order)
    rng = np.random.default_rng(5)
    with np.errstate(all="ignore"):
        rel = np.where(f == 0, 0, d / np.where(f == 0, 1, f))
    ok = ((rel < 1e-6) & ((f > 0) | (d == 0))).all(axis=1)
    dev = np.zeros(len(f))
    for k in range(3):
        g = f * (1 + (np.minimum(rel, 1e-3) + 1e-11) * rng.choice([-1.0, 1.0], f.shape))
        with np.errstate(all="ignore"):
            dv = np.abs(plp_tail(g, r, rasta, order)[0] - base[0]).max(axis=1)
        dev = np.fmax(dev, np.where(np.isfinite(dv), dv, np.inf))
    v, cond = base
    sc = np.abs(v).max(axis=1)
    tol = 60 * dev + 1e-13 * cond * (1 + sc) + 1e-10 * (1 + sc)
    ok &= (cond < 1e9) & (tol < 1e-3 * (1 + sc))
    return v, tol[:, None], ok


def plp_tail(f, r, rasta, order):
    if rasta:
        f = np.exp(ref.rasta(np.log(np.where(f == 0, EPS, f))))
    L = ref.loudness(f)
    x = np.abs(np.fft.ifft(L, r.nfft))
    out = np.zeros((len(f), order))
    cond = np.ones(len(f))
    for i, row in enumerate(x):
        a, e, cond[i] = ref.lpc(row, order - 1)
        out[i, 0] = np.log(e if e > 0 else (EPS if e == 0 else np.abs(e)))
        out[i, 1:] = ref.lpc_cepstrum(a, order)
    return out, cond


def spectrogram(r, bank, sig=None):
    f, d = spec(r, sig).bands(bank)
    return f, d + 1e-300, np.ones(len(f), bool)


PIPE = {"mel_spectrogram": spectrogram, "linear_spectrogram": spectrogram, "bark_spectrogram": spectrogram, "erb_spectrogram": spectrogram,
        "mfcc": logcep, "imfcc": logcep, "lfcc": logcep, "ngcc": logcep, "bfcc": bfcc, "gfcc": gfcc, "msrcc": msrcc, "psrcc": psrcc, "pncc": pncc,
        "plp": lambda r, b, s=None: plp(r, b, s, False), "rplp": lambda r, b, s=None: plp(r, b, s, True)}
