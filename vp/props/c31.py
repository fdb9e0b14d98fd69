import numpy as np
from hypothesis import strategies as st
from .. import ext, gen
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.features.spfeats import extract_feats
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies
from spafe.frequencies.fundamental_frequencies import compute_yin
from spafe.utils.preprocessing import SlidingWindow

FREQ = ("low_freq", "high_freq", "f0")


def s_ext():
    d = ext.full_cfg(nfilts_max=50)
    d["ext"] = gen.pick(["lfcc", "linear_spectrogram", "lpc", "lpcc", "cqt_spectrogram", "cqcc"])
    d["c"] = gen.pick([2, 4, 8, 16])
    return st.fixed_dictionaries(d)


def c_ext(c):
    e, k = c["ext"], c["c"]
    r = ext.resolve(c, e, cap=15000)
    w = SlidingWindow(r.win_len, r.win_hop, r.win)
    kw = ext.kwargs(r, window=w)
    kw2 = dict(kw, fs=r.fs * k, window=SlidingWindow(r.win_len / k, r.win_hop / k, r.win))
    for a in FREQ:
        if kw2.get(a) is not None:
            kw2[a] = kw2[a] * k
    fn = ext.ALL[e][0]
    base, tol, ok = ext.sens(lambda s: ext.framewise(call(fn, s, **kw), e), r.sig, c["sig"]["seed"])
    got = ext.framewise(call(fn, r.sig, **kw2), e)
    what = "%s at %d Hz vs. the same samples at %d Hz" % (e, r.fs * k, r.fs)
    if len(got) != len(base):
        fail("%s: %d outputs vs. %d" % (what, len(got), len(base)))
    n = 0
    for i, (b, g, t, m) in enumerate(zip(base, got, tol, ok)):
        close(g, b, t + (1e-10 * (1 + np.abs(b)) if e == "cqcc" else 0), "%s, output %d" % (what, i), rows=m)
        n += int(np.sum(m))
    return {"nt": n > 0, "labels": ["ext:" + e, "c:%d" % k]}


def s_trk():
    d = {"fs": gen.FS, "sig": gen.sigspec(noise_floor=False), "kind": gen.pick(["dominant", "yin", "feats"]), "nfft": st.one_of(gen.pick([512, 256]), gen.I(8, 700)), "butter": st.booleans(),
         "lo": gen.F(0.03, 0.2, digits=3), "bw": gen.F(0.1, 0.27, digits=3), "hi": gen.F(2.0, 20.0, digits=2), "thr": gen.F(0.02, 0.95, 0.1), "c": gen.pick([2, 4, 8, 16])}
    d.update(gen.winspec())
    return st.fixed_dictionaries(d)


def c_trk(c):
    kind, k = c["kind"], c["c"]
    c = dict(c, L=max(c["L"], 24), wm="obj" if c["wm"] == "none" else c["wm"])
    r = gen.basis({a: v for a, v in c.items() if a != "nfft"}, cap=8000)
    fs, x = r.fs, r.sig
    if kind == "feats":
        if not np.any(np.abs(np.fft.rfft(x, c["nfft"])) > 0):
            return {"nt": False, "labels": ["silent"]}
        a, b = call(extract_feats, x, fs, nfft=c["nfft"]), call(extract_feats, x, fs * k, nfft=c["nfft"])
        for f, p in (("centroid", 1), ("spread", 1), ("entropy", 0), ("flatness", 0), ("rolloff", 0), ("flux", 0), ("mean", 0), ("rms", 0), ("std", 0), ("variance", 0)):
            u, v = np.asarray(a["spectral_" + f]), np.asarray(b["spectral_" + f])
            s = abs(float(u)) + (fs if p else 0)
            close(v, u * k ** p, 1e-9 * s * k ** p, "spectral %s at %d times the sampling rate %d" % (f, k, fs))
        return {"nt": True, "labels": ["feats"]}
    if kind == "dominant":
        f = lambda q: np.asarray(call(get_dominant_frequencies, x, fs * q, nfft=c["nfft"], butter_filter=c["butter"], lower_cutoff=c["lo"] * fs * q, upper_cutoff=(c["lo"] + c["bw"]) * fs * q,
                                      win_len=r.win_len / q, win_hop=r.win_hop / q, win_type=r.win))
        a, b = f(1), f(k)
        # ties between bins (silence, symmetric spectra) come out the same way: the arithmetic is identical
        close(b, a * k, 0.0006 * (k + 1), "dominant frequencies at %d times the sampling rate %d" % (k, fs))
        return {"nt": bool(np.any(a > 0)), "labels": ["dominant"]}
    hi = fs / c["hi"]
    lo = fs / (max(int(c["hi"]) + 2, r.L - 1) + 0.5)
    if int(fs / lo) > r.L:
        return {"nt": False, "labels": ["no range"]}
    f = lambda q: [np.asarray(v) for v in call(compute_yin, x, fs * q, win_len=r.win_len / q, win_hop=r.win_hop / q, low_freq=lo * q, high_freq=hi * q, harmonic_threshold=c["thr"])]
    a, b = f(1), f(k)
    for i, (u, v, s) in enumerate(zip(a, b, (k, 1, k, 1 / k))):
        close(v, u * s, 1e-9 * (1 + np.abs(u * s)), "YIN output %d at %d times the sampling rate %d" % (i, k, fs))
    return {"nt": bool(np.any(a[0] > 0)), "labels": ["yin", "voiced" if np.any(a[0] > 0) else "unvoiced"]}


PROP = Property("C31", "Every listed extractor and tracker on the same random samples declared at fs and at c*fs (c = 2..16) with durations divided and frequencies multiplied by c. "
                "Non-trivial: at least one comparable row / a voiced or non-zero track.",
                [Sub("extractors", s_ext, c_ext, 2600), Sub("trackers", s_trk, c_trk, 2600)],
                ["rows whose value moves by more than 1e-4 under 1e-11 relative perturbation of the samples are not compared"])
