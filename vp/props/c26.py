import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail


def fourier_resample(x, m):
    """rows -> m rows: keep (or zero-pad) the discrete Fourier coefficients, splitting/merging the Nyquist term."""
    n = len(x)
    if m == n:
        return x.copy()
    X = np.fft.fft(x, axis=0)
    N = min(n, m)
    Y = np.zeros((m,) + x.shape[1:], complex)
    h = (N + 1) // 2
    Y[:h] = X[:h]
    if N - h > 0:
        Y[m - (N - h):] = X[n - (N - h):]
    if N % 2 == 0:
        if m < n:
            Y[N // 2] = X[N // 2] + X[n - N // 2]
        else:
            Y[N // 2] = X[N // 2] / 2
            Y[m - N // 2] = X[N // 2] / 2
    return np.real(np.fft.ifft(Y, axis=0)) * (m / n)


def strat():
    d = ext.full_cfg(sig=st.one_of(gen.sigspec(), gen.sigspec(), gen.sigspec(zeros=True)), nfilts_max=20)
    d["omit"] = st.booleans()
    d["rr"] = st.one_of(gen.pick([1.0, 1.0, 0.5, 2.0]), gen.F(0.1, 3.0, digits=2), gen.F(0.05, 4.0, digits=6))
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 1024]), gen.I(16, 700), gen.I(200, 1500))
    d["q_rate"] = gen.F(0.2, 1.5, 1.0, 0.5, digits=3)
    return st.fixed_dictionaries(d)


def check(c):
    r = ext.resolve(c, "cqcc", cap=12000)
    k = ext.kwargs(r, "cqcc", post=False)
    if c["omit"]:
        k = ext.drop_defaults(k, "cqcc")
    C = np.asarray(ext.run(r, "cqt_spectrogram")).T
    P = np.abs(C) ** 2
    fr = ref.frames(np.abs(r.sig), r.L, r.H)
    # rounding of the transform (at most 2e-14 of the frame's absolute sum) relative to its size bounds the error of the log
    with np.errstate(all="ignore"):
        err = np.where(C == 0, 0, 4e-14 * fr.sum(axis=1)[:, None] / np.abs(C))
    good = (err < 1e-4).all(axis=1)
    lg = np.log(np.where(P == 0, ref.EPS, P))
    m = int(len(lg) * r.rr)
    x = fourier_resample(lg, m)
    rows = np.ones(m, bool)
    if m != len(lg):
        if not good.all():
            return {"nt": False, "labels": ["ill"]}
    else:
        rows = good
    D = ref.dct_matrix(r.dct, x.shape[1])[:r.num]
    want = x @ D.T
    got = call(ext.ALL["cqcc"][0], r.sig, **k)
    e = np.abs(D) @ (err.T if m == len(lg) else np.full((x.shape[1], m), 8 * err.max()))
    tol = e.T + 1e-10 * np.abs(lg).sum(axis=1).max() + 1e-9
    close(got, want, tol, "CQCC (%d of %d rows, DCT-%d, %d -> %d frames)" % (r.num, x.shape[1], r.dct, len(lg), m), rows=rows)
    return {"nt": bool(rows.any()) and x.shape[1] >= 2, "labels": ["same" if m == len(lg) else "down" if m < len(lg) else "up", "dct:%d" % r.dct, "n odd" if len(lg) % 2 else "n even", "m odd" if m % 2 else "m even"]}


PROP = Property("C26", "Random signals and parameters: CQCC against DCT of the (independently Fourier-resampled) log power of the library's constant-Q spectrogram, which C25 decides. Non-trivial: "
                "at least two analysis frequencies and some comparable frame.", [Sub("values", strat, check, 3000)], ["frames with constant-Q values near rounding level are not compared"])
