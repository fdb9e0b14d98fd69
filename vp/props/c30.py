import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.features import spfeats as S


def stats(m, fs, k=0.85, p=2):
    f = np.arange(len(m)) * (fs / 2) / (len(m) - 1)
    w = m / m.sum()
    mu = (w * f).sum()
    m2 = (w * f ** 2).sum()
    cum = np.cumsum(m)
    o = {"centroid": mu, "spread": np.sqrt((w * (f - mu) ** 2).sum()), "skewness": (w * (f - mu) ** 3).sum() / m2 ** 3, "kurtosis": (w * (f - mu) ** 4).sum() / m2 ** 4,
         "entropy": -sum(x * np.log(x) for x in w if x > 0) / np.log(len(m)), "rolloff": float(np.argmax(cum >= k * cum[-1])),
         "flux": (np.abs(np.diff(m)) ** p).sum() ** (1 / p), "mean": m.mean(), "rms": np.sqrt((m ** 2).mean()), "variance": ((m - m.mean()) ** 2).mean()}
    o["std"] = np.sqrt(o["variance"])
    with np.errstate(all="ignore"):
        o["flatness"] = np.exp(np.log(m).mean()) / m.mean() if (m > 0).all() else 0.0
    roll_amb = bool(np.any(np.abs(cum - k * cum[-1]) < 1e-9 * cum[-1]))
    # abs() error of weighted moments: bounded by the largest term
    sc = {"centroid": fs, "spread": fs, "skewness": fs ** 3 / m2 ** 3, "kurtosis": fs ** 4 / m2 ** 4, "entropy": 1, "flux": m.max(), "mean": m.max(), "rms": m.max(), "std": m.max(), "variance": m.max() ** 2,
          "flatness": 1, "rolloff": 0}
    return o, sc, roll_amb


NEED = ["centroid", "skewness", "kurtosis", "entropy", "spread", "flatness", "rolloff", "flux", "mean", "rms", "std", "variance"]


def real_number(v, what):
    a = np.asarray(v)
    if a.ndim != 0 or a.dtype.kind not in "fiu":
        fail("%s is not a real number: %s" % (what, (a.dtype, a.shape)))
    return float(a)


def s_sig():
    return st.fixed_dictionaries({"fs": gen.FS, "sig": st.one_of(gen.sigspec(), gen.sigspec(zeros=True)), "nfft": st.one_of(gen.pick([512, 256, 1024, 128]), gen.I(3, 900)), "n": st.one_of(gen.I(4, 600), gen.I(4, 5000)), "dflt": st.booleans(),
                                  "dt": gen.pick(["f", "f", "i2", "list"])})


def c_sig(c):
    nfft = 512 if c["dflt"] else c["nfft"]
    x = gen.realise(c["sig"], c["n"])
    if c["dt"] == "i2":
        x = np.clip(np.rint(x * (1 if np.abs(x).max() > 50 else 3000)), -32768, 32767).astype(np.int16)
    m = np.abs(np.fft.rfft(np.asarray(x, float), nfft))
    if m.sum() == 0:
        return {"nt": False, "labels": ["silent"]}
    v = [float(t) for t in x] if c["dt"] == "list" else x
    got = call(S.extract_feats, v, c["fs"]) if c["dflt"] else call(S.extract_feats, sig=v, fs=c["fs"], nfft=nfft)
    o, sc, amb = stats(m, c["fs"])
    rel = 1e-14 * np.abs(x).sum() / m.max() + 1e-11            # rounding of the spectrum relative to its peak
    for k in NEED:
        g = real_number(got["spectral_" + k], "spectral " + k)
        if k == "rolloff":
            if not amb:
                close(g, o[k], 0, "spectral rolloff (nfft %d)" % nfft)
            continue
        if k == "flatness":
            if m.min() > 1e-6 * m.max():
                close(g, o[k], 1e-8, "spectral flatness (nfft %d)" % nfft)
        else:
            close(g, o[k], sc[k] * rel * 100, "spectral %s (fs %d, nfft %d, %d samples)" % (k, c["fs"], nfft, c["n"]))
    cen, ent, fl = (float(got["spectral_" + k]) for k in ("centroid", "entropy", "flatness"))
    if not -1e-9 <= cen <= c["fs"] / 2 * (1 + 1e-12):
        fail("spectral centroid %r outside [0, fs/2] at fs %d" % (cen, c["fs"]))
    if not (-1e-12 <= ent <= 1 + 1e-9 and -1e-12 <= fl <= 1 + 1e-9):
        fail("entropy %r or flatness %r outside [0, 1]" % (ent, fl))
    return {"nt": nfft >= 8, "labels": ["odd" if nfft % 2 else "even", "dt:" + c["dt"], "truncated" if c["n"] > nfft else "padded"]}


def s_fun():
    return st.fixed_dictionaries({"fs": gen.FS, "n": st.one_of(gen.I(2, 30), gen.I(2, 600)), "seed": gen.SEED, "kind": gen.pick(["rand", "peak", "flat", "zeros", "ramp"]), "cplx": st.booleans(), "k": gen.F(0.05, 0.99, 0.85, 0.5), "p": gen.pick([2, 2, 1, 3]), "i": gen.I(1, 4)})


def c_fun(c):
    rng = np.random.default_rng(c["seed"])
    n, fs = c["n"], c["fs"]
    m = rng.uniform(0.01, 1, n)
    if c["kind"] == "peak":
        m *= 1e-3
        m[rng.integers(0, n)] = 50
    elif c["kind"] == "flat":
        m[:] = 0.7
    elif c["kind"] == "zeros":
        m *= rng.uniform(size=n) < 0.6
        m[rng.integers(0, n)] = 1
    elif c["kind"] == "ramp":
        m = np.arange(1.0, n + 1)
    z = m * np.exp(1j * rng.uniform(0, 6.28, n)) if c["cplx"] else m * rng.choice([-1.0, 1.0], n)
    keep = z.copy()
    o, sc, amb = stats(m, fs, c["k"], c["p"])
    x = rng.standard_normal(10)
    f = np.arange(n) * (fs / 2) / (n - 1)
    got = {"skewness": call(S.spectral_skewness, x, fs, z), "kurtosis": call(S.spectral_kurtosis, x, fs, z), "spread": call(S.spectral_spread, x, fs, z), "centroid": call(S.spectral_centroid, fs, z),
           "entropy": call(S.spectral_entropy, z), "flatness": call(S.spectral_flatness, z), "rolloff": call(S.spectral_rolloff, z, c["k"]), "flux": call(S.spectral_flux, z, c["p"])}
    for k, g in got.items():
        g = real_number(g, "spectral " + k)
        if k == "rolloff":
            if not amb:
                close(g, o[k], 0, "spectral rolloff at %r of %d bins" % (c["k"], n))
        else:
            close(g, o[k], 1e-10 * max(sc[k] if k != "flux" else m.max() * n, abs(o[k])), "spectral %s of %d bins" % (k, n))
    want = (m * f ** c["i"]).sum() / m.sum()
    close(call(S.spectral_centroid, fs, z, c["i"]), want, 1e-11 * float(fs) ** c["i"], "spectral moment %d" % c["i"])
    close(z, keep, 0, "spectrum after the call")
    return {"nt": n >= 3, "labels": ["kind:" + c["kind"], "complex" if c["cplx"] else "real"]}


def s_tie():
    return st.fixed_dictionaries({"seed": gen.SEED, "a": gen.I(1, 40), "b": gen.I(1, 20), "gap": gen.I(0, 6), "m": gen.I(1, 50), "z": gen.I(0, 5), "fs": gen.FS})


def c_tie(c):
    """Whole-number spectra whose cumulated magnitude meets 85 % (or one half) exactly at some bin."""
    rng = np.random.default_rng(c["seed"])
    n = 0
    for num, den, k in ((17, 20, 0.85), (1, 2, 0.5), (3, 4, 0.75)):
        T = den * c["m"]
        if k * T != num * c["m"]:
            continue
        split = lambda s, q: np.bincount(rng.integers(0, q, s), minlength=q).astype(float)
        head = split(num * c["m"], c["a"])
        spec = np.concatenate([np.zeros(c["z"]), head, np.zeros(c["gap"]), split((den - num) * c["m"], c["b"])])
        want = int(np.flatnonzero(np.cumsum(spec) >= num * c["m"])[0])
        if k == 0.85:
            close(real_number(call(S.spectral_rolloff, spec), "roll-off"), want, 0, "spectral rolloff of %d whole-number bins" % len(spec))
        close(real_number(call(S.spectral_rolloff, spec, k), "roll-off"), want, 0, "spectral rolloff at %r of %d whole-number bins" % (k, len(spec)))
        n += 1
    return {"nt": n > 0}


PROP = Property("C30", "Random signals, rates and FFT sizes through the feature extractor, and random (complex, real, sparse, peaked, flat) spectra through each function, against directly evaluated "
                "statistics. Non-trivial: a non-silent signal and at least 8 FFT points / 3 bins.",
                [Sub("extract", s_sig, c_sig, 4000), Sub("functions", s_fun, c_fun, 3000), Sub("rolloff-tie", s_tie, c_tie, 600)], ["except for whole-number spectra, roll-off is not compared when the cumulated magnitude is within rounding of the limit at some bin"])
