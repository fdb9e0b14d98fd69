import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.utils.spectral import compute_constant_qtransform


def ambiguous(r):
    """Does rounding decide which frequencies belong to the band?  (f0 and its octaves are exact and may lie on a limit.)"""
    f = r.f0 * 2.0 ** (np.arange(r.oct * r.bpo) / r.bpo)
    whole = np.arange(r.oct * r.bpo) % r.bpo == 0
    near = lambda lim: np.any((np.abs(f - lim) < 1e-9 * (1 + lim)) & ~(whole & (f == lim)))
    return r.cq_amb or bool(near(r.hi) or near(r.low))


def on_limit(c, r):
    """Moves the band limits exactly onto analysis frequencies."""
    if "lo" in c["edge"]:
        r.low = r.f0
    top = [r.f0 * 2.0 ** m for m in range(0, r.oct) if r.f0 * 2.0 ** m <= r.fs / 2]
    if "hi" in c["edge"] and top:
        r.high = r.hi = top[c["rows"] % len(top)]
    f, N, amb = ext.cq_grid(r)
    if len(N) == 0 or N.min() > r.nfft:
        r.nfft = int(N.min() if len(N) else 512) + 7
    keep = N <= r.nfft
    r.cq_freqs, r.cq_lens, r.cq_amb = f[keep], N[keep], amb


def atoms(r):
    A = np.zeros((len(r.cq_freqs), r.nfft), complex)
    for k, (f, N) in enumerate(zip(r.cq_freqs, r.cq_lens)):
        s = (r.nfft - N) // 2
        A[k, s:s + N] = ref.taper(r.win, N) * np.exp(2j * np.pi * f / r.fs * np.arange(N)) / N
    return A


def expected(frames, r):
    """values and tolerances, rows = analysis frequencies"""
    A = atoms(r)
    n = r.nfft
    X = np.zeros((len(frames), n))
    for i, f in enumerate(frames):
        m = min(n, len(f))
        X[i, :m] = f[:m]
    l1 = np.abs(X).sum(axis=1)
    if r.thr == 0:
        v = (X @ np.conj(A).T).T
        return v, 1e-11 * np.ones(len(A))[:, None] * l1[None, :]
    K = np.fft.fft(A, axis=1)
    mag = np.abs(K)
    keep = np.where(mag > r.thr, K, 0)
    amb = np.abs(mag - r.thr) <= 1e-9 * (r.thr + 1e-6)
    FX = np.fft.fft(X, axis=1)
    v = (FX @ np.conj(keep).T / n).T
    tol = (np.abs(FX) @ (mag * amb).T / n).T * 1.01 + 1e-11 * l1[None, :]
    return v, tol


def s_direct():
    d = ext.full_cfg(nfilts_max=20)
    d["thr"] = gen.pick([0.0, 0.0, 0.005, 0.0054, 0.02])
    d["cont"] = gen.pick(["arr", "list", "i2"])
    d["omit"] = st.booleans()
    d["edge"] = gen.pick(["", "", "", "lo", "hi", "lohi"])
    d["rows"] = gen.I(1, 12)
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 1024, 2048]), gen.I(16, 700), gen.I(200, 1500))
    return st.fixed_dictionaries(d)


def c_direct(c):
    c = dict(c, wm="obj")
    r = ext.resolve(c, "cqt_spectrogram", cap=4000)
    on_limit(c, r)
    if not len(r.cq_freqs) or ambiguous(r):
        return {"nt": False, "labels": ["ambiguous"]}
    rng = np.random.default_rng(c["sig"]["seed"])
    L = r.L
    fr = gen.realise(c["sig"], L * c["rows"]).reshape(c["rows"], L)
    v = fr
    if c["cont"] == "list":
        v = [row.copy() for row in fr]
    elif c["cont"] == "i2":
        fr = np.clip(np.rint(fr * (1 if np.abs(fr).max() > 5 else 2000)), -32768, 32767)
        v = fr.astype(np.int16)
    k = dict(fs=r.fs, low_freq=r.low, high_freq=r.high, nfft=r.nfft, number_of_octaves=r.oct, number_of_bins_per_octave=r.bpo, win_type=r.win, spectral_threshold=r.thr, f0=r.f0, q_rate=r.q_rate)
    if c["omit"]:
        dd = dict(fs=16000, low_freq=0, high_freq=None, nfft=512, number_of_octaves=7, number_of_bins_per_octave=12, win_type="hamming", spectral_threshold=0.0054, f0=120, q_rate=1.0)
        k = {a: b for a, b in k.items() if dd[a] != b}
    got = np.asarray(call(compute_constant_qtransform, v, **k))
    if got.shape != (len(r.cq_freqs), len(fr)):
        fail("constant-Q transform: shape %s, expected %d frequencies x %d frames" % (got.shape, len(r.cq_freqs), len(fr)))
    w, tol = expected(fr, r)
    close(got, w, tol, "constant-Q transform (f0 %r, %d octaves x %d bins, nfft %d, fs %d, Q rate %r, threshold %r)" % (r.f0, r.oct, r.bpo, r.nfft, r.fs, r.q_rate, r.thr))
    return {"nt": len(r.cq_freqs) >= 2, "labels": ["thr:%r" % r.thr, "win:" + r.win, "nfft<L" if r.nfft < L else "nfft>=L", "odd" if r.nfft % 2 else "even", "edge:" + c["edge"]]}


def s_spec():
    d = ext.full_cfg(sig=gen.sigspec(noise_floor=False, zeros=True), nfilts_max=20)
    d["omit"] = st.booleans()
    d["edge"] = gen.pick(["", "", "", "lo", "hi", "lohi"])
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 1024, 2048]), gen.I(16, 700), gen.I(200, 1500))
    d["rows"] = gen.I(1, 12)
    return st.fixed_dictionaries(d)


def c_spec(c):
    r = ext.resolve(c, "cqt_spectrogram", cap=12000)
    on_limit(c, r)
    if not len(r.cq_freqs) or ambiguous(r):
        return {"nt": False, "labels": ["ambiguous"]}
    k = ext.kwargs(r, "cqt_spectrogram")
    if c["omit"]:
        k = ext.drop_defaults(k, "cqt_spectrogram")
    got = np.asarray(call(ext.ALL["cqt_spectrogram"][0], r.sig, **k))
    W = ref.frames(ref.pre(r.sig, r.coeff) if r.pre else r.sig, r.L, r.H) * ref.taper(r.win, r.L)
    if got.shape != (len(r.cq_freqs), len(W)):
        fail("constant-Q spectrogram: shape %s, expected %d frequencies x %d frames" % (got.shape, len(r.cq_freqs), len(W)))
    w, tol = expected(W, r)
    tol = tol + 1e-12 * ref.frames(np.abs(r.sig), r.L, r.H).sum(axis=1)[None, :]
    close(got, w, tol, "constant-Q spectrogram (f0 %r, %d octaves x %d bins, nfft %d, fs %d, Q rate %r, threshold %r)" % (r.f0, r.oct, r.bpo, r.nfft, r.fs, r.q_rate, r.thr))
    return {"nt": len(r.cq_freqs) >= 2 and bool(np.any(w)), "labels": ["pre" if r.pre else "nopre", "wm:" + r.wm]}


PROP = Property("C25", "Random frames, rates, FFT sizes, octaves, bins, bands, base frequencies, Q rates, tapers; zero threshold against time-domain inner products, positive thresholds against the "
                "thresholded kernel. Non-trivial: at least two analysis frequencies and a non-zero result.",
                [Sub("transform", s_direct, c_direct, 2500), Sub("spectrogram", s_spec, c_spec, 2000)], ["configurations in which rounding decides a window length or band membership are skipped (limits exactly on f0 times a power of two are included)"])
