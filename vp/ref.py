"""Independent reference computations (written from the definitions, not from spafe's code)."""
import numpy as np

EPS = float(np.finfo(float).eps)
U = 2e-13              # relative size granted to rounding in an FFT of the lengths used here (true error is ~1e-15)


def frames(sig, L, H):
    sig = np.asarray(sig)
    return np.array([sig[s:s + L] for s in range(0, len(sig) - L + 1, H)])


def taper(kind, L):
    if L == 1:
        return np.ones(1)
    n = np.arange(L)
    t = 2 * np.pi * n / (L - 1)
    if kind == "hanning":
        return 0.5 - 0.5 * np.cos(t)
    if kind == "hamming":
        return 0.54 - 0.46 * np.cos(t)
    if kind == "blackman":
        return 0.42 - 0.5 * np.cos(t) + 0.08 * np.cos(2 * t)
    if kind == "bartlet":
        return 1 - np.abs(2 * n / (L - 1) - 1)
    if kind == "kaiser":
        from scipy.special import i0
        return i0(14 * np.sqrt(np.maximum(0, 1 - (2 * n / (L - 1) - 1) ** 2))) / i0(14.0)
    raise KeyError(kind)


def pre(sig, a):
    x = np.asarray(sig, dtype=float)
    y = x.copy()
    y[1:] -= a * x[:-1]
    return y


def dct_matrix(kind, n):
    """Orthonormal DCT matrix D with y = D @ x (types 1-4)."""
    k = np.arange(n)[:, None]
    j = np.arange(n)[None, :]
    if kind == 2 or kind == 3:
        D = np.cos(np.pi * k * (2 * j + 1) / (2 * n)) * np.sqrt(2.0 / n)
        D[0] *= np.sqrt(0.5)
        return D if kind == 2 else D.T
    if kind == 4:
        return np.cos(np.pi * (2 * k + 1) * (2 * j + 1) / (4 * n)) * np.sqrt(2.0 / n)
    if kind == 1:
        D = np.cos(np.pi * k * j / (n - 1)) * np.sqrt(2.0 / (n - 1))
        D[0] *= np.sqrt(0.5)
        D[-1] *= np.sqrt(0.5)
        D[:, 0] *= np.sqrt(0.5)
        D[:, -1] *= np.sqrt(0.5)
        return D
    raise KeyError(kind)


class Spec:
    """Windowed frames' spectra with element-wise bounds on what rounding may do to them."""

    def __init__(self, sig, L, H, win, nfft, pre_coeff=None, power=2):
        x = np.asarray(sig, dtype=float)
        if pre_coeff is not None:
            y = pre(x, pre_coeff)
            ab = np.abs(x)
            ab[1:] += abs(pre_coeff) * np.abs(x[:-1])
        else:
            y, ab = x, np.abs(x)
        t = taper(win, L)
        self.windows = frames(y, L, H) * t
        # magnitudes that rounding acts on; the taper itself is known to a few 1e-16 absolute (that matters at its ends)
        mag_in = frames(ab, L, H) * (np.abs(t) + 5e-3)
        w = self.windows[:, :nfft]
        self.X = np.fft.rfft(w, nfft)
        self.mag = np.abs(self.X)
        # |dX_k| <= U * sum |inputs|
        self.dmag = U * mag_in[:, :nfft].sum(axis=1, keepdims=True) * np.ones_like(self.mag)
        zero = (mag_in[:, :nfft] == 0).all(axis=1)
        self.dmag[zero] = 0
        self.nfft = nfft
        self.P = self.mag ** power / nfft
        self.dP = (power * np.maximum(self.mag, self.dmag) ** (power - 1) * self.dmag + self.dmag ** power) / nfft
        self.dP += U * self.P

    def bands(self, bank):
        bank = np.asarray(bank)
        f = self.P @ bank.T
        d = self.dP @ np.abs(bank).T + U * (self.P @ np.abs(bank).T)
        return f, d

    def energy(self):
        return self.P.sum(axis=1), self.dP.sum(axis=1)


def safe_log(f, d):
    """log of f with zeros replaced by eps, its error bound, and where it is trustworthy."""
    f = np.asarray(f)
    ok = (d <= 1e-4 * np.abs(f)) | ((f == 0) & (d == 0))
    z = np.where(f == 0, EPS, f)
    with np.errstate(all="ignore"):
        lg = np.log(z)
        err = np.where(f == 0, 0, 2 * d / np.where(f == 0, 1, np.abs(f))) + 4e-15 * np.abs(lg)
    return lg, err, ok


def cep(logf, err, ok, dct_type, num):
    """DCT over columns; returns values, per-row tolerance and row mask."""
    n = logf.shape[1]
    D = dct_matrix(dct_type, n)[:num]
    v = logf @ D.T
    mag = np.abs(logf).sum(axis=1, keepdims=True)
    tol = err @ np.abs(D).T + 1e-13 * mag + 1e-13
    return v, tol, ok.all(axis=1)


# ------------------------------------------------------------------------------------------------ scales
def hz2mel(f, app):
    f = np.asarray(f, float)
    if app == "Oshaghnessy":
        return 2595.0 * np.log1p(f / 700.0) / np.log(10)
    return 2410.0 * np.log1p(f / 625.0) / np.log(10)


def mel2hz(m, app):
    m = np.asarray(m, float)
    if app == "Oshaghnessy":
        return 700.0 * np.expm1(m * np.log(10) / 2595.0)
    return 625.0 * np.expm1(m * np.log(10) / 2410.0)


def hz2bark(f, app):
    f = np.asarray(f, float)
    if app == "Wang":
        return 6 * np.arcsinh(f / 600)
    if app == "Tjomov":
        return 6.7 * np.arcsinh((f + 20) / 600)
    if app == "Schroeder":
        return 7 * np.arcsinh(f / 650)
    if app == "Terhardt":
        return 13.3 * np.arctan(0.75 * f / 1000)
    if app == "Zwicker":
        with np.errstate(all="ignore"):
            return 8.7 + 14.2 * np.log10(f / 1000)
    if app == "Traunmueller":
        z = 26.81 * f / (1960 + f) - 0.53
        return np.where(z < 2, z + 0.15 * (2 - z), np.where(z > 20.1, z + 0.22 * (z - 20.1), z))
    raise KeyError(app)


def bark2hz(b, app):
    b = np.asarray(b, float)
    if app == "Wang":
        return 600 * np.sinh(b / 6)
    if app == "Tjomov":
        return 600 * np.sinh(b / 6.7) - 20
    if app == "Schroeder":
        return 650 * np.sinh(b / 7)
    if app == "Terhardt":
        return 1000 / 0.75 * np.tan(b / 13.3)
    if app == "Zwicker":
        return 1000 * 10 ** ((b - 8.7) / 14.2)
    if app == "Traunmueller":
        z = np.where(b < 2, (b - 0.3) / 0.85, np.where(b > 20.1, (b + 4.422) / 1.22, b))
        return 1960 * (z + 0.53) / (26.28 - z)
    raise KeyError(app)


ERB_A = 1000 * np.log(10) / (24.7 * 4.37)


def hz2erb(f):
    return ERB_A * np.log10(1 + np.asarray(f, float) * 0.00437)


def erb2hz(e):
    return (10 ** (np.asarray(e, float) / ERB_A) - 1) / 0.00437


# ------------------------------------------------------------------------------------------------ banks
def ramp(scale, n):
    if scale == "ascendant":
        return np.arange(1, n + 1) / n
    if scale == "descendant":
        return np.arange(n, 0, -1) / n
    return np.ones(n)


def tri(axis, lo, c, hi):
    return np.maximum(0, np.minimum((axis - lo) / (c - lo), (hi - axis) / (hi - c)))


def bins(nfft, fs):
    return np.arange(nfft // 2 + 1) * (fs / nfft)


def mel_bank(nfilts, nfft, fs, low, high, app, mirror=False):
    e = np.linspace(hz2mel(low, app), hz2mel(high, app), nfilts + 2)
    ehz = mel2hz(e, app)
    ax = bins(nfft, fs)
    if mirror:
        ax = low + high - ax
    return np.array([tri(ax, ehz[j], ehz[j + 1], ehz[j + 2]) for j in range(nfilts)]), e[1:-1], ehz


def lin_bank(nfilts, nfft, fs, low, high):
    e = np.linspace(low, high, nfilts + 2)
    ax = bins(nfft, fs)
    return np.array([tri(ax, e[j], e[j + 1], e[j + 2]) for j in range(nfilts)]), e[1:-1], e


def bark_curve(d):
    d = np.asarray(d, float)
    with np.errstate(all="ignore"):
        return np.where((d < -1.3) | (d > 2.5), 0.0,
                        np.where(d <= -0.5, 10.0 ** (2.5 * (d + 0.5)), np.where(d < 0.5, 1.0, 10.0 ** (-(d - 0.5)))))


# ------------------------------------------------------------------------------------------------ others
def loudness(w):
    w = np.asarray(w, float)
    return np.cbrt((w ** 2 + 56.8e6) * w ** 4 / ((w ** 2 + 6.3e6) * (w ** 2 + 0.38e9) * (w ** 6 + 9.58e26)))


def autocorr(x, p):
    x = np.asarray(x, float)
    n = len(x)
    return np.array([np.dot(x[:n - k], x[k:]) if k < n else 0.0 for k in range(p + 1)])


def lpc(x, p):
    """(a, err, condition number) of the order-p autocorrelation-method predictor."""
    r = autocorr(x, p)
    if r[0] == 0:
        return np.concatenate(([1.0], np.zeros(p))), 0.0, 1.0
    if p == 0:
        return np.ones(1), r[0], 1.0
    R = r[np.abs(np.subtract.outer(np.arange(p), np.arange(p)))] / r[0]
    phi = np.linalg.solve(R, -r[1:] / r[0])
    return np.concatenate(([1.0], phi)), r[0] + np.dot(phi, r[1:]), np.linalg.cond(R)


def lpc_cepstrum(a, n):
    """c[1..n-1] of log 1/A(z) from n*c_n = -n*a_n - sum k c_k a_{n-k}."""
    a = np.asarray(a, float)
    a = np.concatenate((a, np.zeros(max(0, n - len(a)))))
    c = np.zeros(n)
    for m in range(1, n):
        c[m] = -a[m] - sum(k * c[k] * a[m - k] for k in range(1, m)) / m
    return c[1:]


def rasta(x):
    x = np.asarray(x, float)
    y = np.zeros_like(x)
    for n in range(4, x.shape[1]):
        y[:, n] = 0.94 * y[:, n - 1] + (2 * x[:, n] + x[:, n - 1] - x[:, n - 3] - 2 * x[:, n - 4]) / 10
    return y


def lifter(c, L):
    c = np.asarray(c, float)
    n = c.shape[1]
    if L == 0 or L > 10:
        return c
    if L > 0:
        i = np.arange(n, dtype=float)
        w = i ** L
        w[0] = 1
        return c * w
    L = -L
    return c * (1 + (L / 2.0) * np.sin(np.pi * np.arange(1, n + 1) / L))


def normalize(c, kind):
    c = np.asarray(c, float)
    m = c.mean(axis=0)
    sd = np.sqrt(((c - c.mean()) ** 2).mean())
    with np.errstate(all="ignore"):
        return {"mvn": (c - m) / sd, "ms": c - m, "vn": c / sd, "mn": (c - c.mean()) / (c.max() - c.min())}[kind]
