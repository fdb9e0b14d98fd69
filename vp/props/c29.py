import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail
from spafe.frequencies.fundamental_frequencies import compute_cmnd, compute_difference, compute_yin, get_pitch


def diff(x, T):
    x = np.asarray(x, float)
    return np.array([np.sum((x[:len(x) - t] - x[t:]) ** 2) for t in range(T)])


def cmnd(d):
    with np.errstate(all="ignore"):
        c = d[1:] * np.arange(1, len(d)) / np.cumsum(d[1:])
    return np.concatenate(([1.0], c))


def pick_lag(c, t0, t1, thr):
    for t in range(t0, t1):
        if c[t] < thr:
            while t + 1 < t1 and c[t + 1] < c[t]:
                t += 1
            return t
    return 0


def s_stage():
    return st.fixed_dictionaries({"n": st.one_of(gen.I(3, 400), gen.I(3, 400), gen.I(3, 400), gen.I(400, 6000)), "T": gen.F(0, 1), "sig": gen.sigspec(noise_floor=False), "dt": gen.pick(["f", "i2", "list"]), "t0": gen.F(0, 0.9), "thr": gen.F(0.01, 1.2, 0.1), "lv": gen.I(0, 1)})


def c_stage(c):
    x = gen.realise(c["sig"], c["n"])
    if c["dt"] == "i2":
        x = np.clip(np.rint(x), -32768, 32767).astype(np.int16)
    n = len(x)
    T = max(2, min(n, 2 + int(c["T"] * (n - 2)), max(400, 400000 // n)))
    xf = np.asarray(x, float)
    v = [float(t) for t in x] if c["dt"] == "list" else x
    d = diff(xf, T)
    E = np.sum(xf ** 2)
    close(call(compute_difference, v, T), d, 1e-12 * E * 20 + 1e-300, "difference function of %d samples, %d lags" % (n, T))
    dd = np.random.default_rng(c["sig"]["seed"]).uniform(0.01, 1, T) if c["lv"] else d + 1e-3 * (d.max() + 1)
    w = cmnd(dd)
    got = np.asarray(call(compute_cmnd, dd, T))
    close(got, w, 1e-10 * (1 + np.abs(w)), "cumulative mean normalised difference of %d lags" % T)
    t0 = min(T - 1, int(c["t0"] * T))
    p = call(get_pitch, w, t0, T, c["thr"])
    if p != pick_lag(w, t0, T, c["thr"]):
        fail("lag %r instead of %r (range %d..%d, threshold %r)" % (p, pick_lag(w, t0, T, c["thr"]), t0, T, c["thr"]))
    return {"nt": T >= 4 and E > 0, "labels": ["voiced" if p else "unvoiced", "dt:" + c["dt"]]}


def s_yin():
    d = {"fs": gen.FS, "sig": gen.sigspec(zeros=True), "L": st.one_of(gen.I(24, 300), gen.I(24, 300), gen.I(24, 900), gen.I(24, 900), gen.I(900, 5000)), "hopf": gen.F(0.05, 1.5, 0.5, 1.0), "hi": gen.F(1.0, 40.0, 1.0, 2.0, digits=2), "span": gen.F(0.1, 1.0, 1.0), "thr": gen.F(0.02, 0.95, 0.1, 0.3),
         "mode": gen.pick(["noise", "tone", "tone", "periodic", "default"]), "per": gen.F(0.05, 0.6), "lv": gen.pick([0.0, 0.01, 0.1, 0.4]), "F": gen.I(1, 14), "ex": gen.F(0, 1, 0.0), "i2": st.booleans()}
    return st.fixed_dictionaries(d)


def c_yin(c):
    fs = c["fs"]
    L, H = c["L"], max(1, int(c["L"] * c["hopf"]))
    kw = {}
    if c["mode"] == "default" and fs <= 32000 and int(fs / 50) <= int(0.03 * fs):
        lo, hi, wl, wh, thr = 50, 3000, 0.03, 0.015, 0.1
    else:
        hi = fs / c["hi"]
        tmax = max(int(c["hi"]) + 2, int((L - 1) * c["span"]))
        lo = fs / (tmax + 0.5)
        wl, wh, thr = (L + 0.25) / fs, (H + 0.25) / fs, c["thr"]
        kw = dict(win_len=wl, win_hop=wh, low_freq=lo, high_freq=hi, harmonic_threshold=thr)
    t0, t1 = int(fs / hi), int(fs / lo)
    L, H = int(wl * fs), int(wh * fs)
    if t1 > L or t0 < 1 or t0 >= t1 or H < 1:
        return {"nt": False, "labels": ["no range"]}
    F = min(c["F"], 1 + 12000 // L)
    n = L + (F - 1) * H + int(c["ex"] * H)
    rng = np.random.default_rng(c["sig"]["seed"])
    if c["mode"] in ("noise", "default"):
        x = gen.realise(c["sig"], n)
    else:
        T = max(2.5, c["per"] * L)
        t = np.arange(n)
        x = np.sin(2 * np.pi * t / T + 1)
        if c["mode"] == "periodic":
            T = int(T)
            x = np.tile(rng.standard_normal(T), n // T + 1)[:n]
        x = (x + c["lv"] * rng.standard_normal(n)) * c["sig"]["amp"]
    if c["i2"]:
        x = np.clip(np.rint(x * (1 if np.abs(x).max() > 50 else 3000)), -32768, 32767).astype(np.int16)
    P, R, A, Ti = [np.asarray(v) for v in call(compute_yin, x, fs, **kw)]
    starts = list(range(0, len(x) - L, H))
    close(Ti, np.array(starts, float) / fs, 1e-12, "YIN times")
    if not len(P) == len(R) == len(A) == len(starts):
        fail("YIN: %d pitches for %d frames" % (len(P), len(starts)))
    nv = ncmp = 0
    for i, s in enumerate(starts):
        w = np.asarray(x[s:s + L], float)
        if P[i] != 0:
            lag = fs / P[i]
            if abs(lag - round(lag)) > 1e-6 * lag or not t0 <= round(lag) < t1:
                fail("frame %d: pitch %r Hz is lag %r, outside %d..%d" % (i, P[i], lag, t0, t1 - 1))
        E = np.sum(w ** 2)
        if E == 0:
            if P[i] != 0:
                fail("pitch %r for silent frame %d" % (P[i], i))
            continue
        d = diff(w, t1)
        cs = np.cumsum(d[1:])
        if cs[0] <= 1e-7 * E:
            continue                      # first difference near rounding level: normalisation is not trustworthy
        cm = cmnd(d)
        err = np.concatenate(([0], 1e-12 * E * np.arange(1, t1) / cs * (1 + cm[1:]))) * 20 + 1e-10 * cm
        # can rounding change the answer?
        p = pick_lag(cm, t0, t1, thr)
        seen = range(t0, (p if p else t1 - 1) + 1)
        if any(abs(cm[t] - thr) <= err[t] for t in seen):
            continue
        if p and any(abs(cm[t + 1] - cm[t]) <= err[t] + err[t + 1] for t in range(next(t for t in seen if cm[t] < thr), min(p + 1, t1 - 1))):
            continue
        ncmp += 1
        nv += p > 0
        what = "YIN frame %d (window %d, lags %d..%d, threshold %r)" % (i, L, t0, t1 - 1, thr)
        close(P[i], fs / p if p else 0.0, 1e-9 * fs, what + " pitch")
        close(R[i], cm[p] if p else cm.min(), err.max() + 1e-9, what + " harmonic rate")
        m = int(cm.argmin())
        others = np.delete(cm, m)
        if len(others) and others.min() - cm[m] > 2 * err.max():
            close(A[i], fs / m if m > t0 else 0.0, 1e-9 * fs, what + " best lag")
    return {"nt": ncmp > 0, "labels": ["mode:" + c["mode"], "voiced" if nv else "unvoiced", "compared" if ncmp else "ambiguous"]}


def s_tone():
    return st.fixed_dictionaries({"fs": gen.FS, "T": gen.F(12.0, 150.0, digits=3), "cyc": gen.F(2.5, 8.0), "ph": gen.F(0, 6.28), "thr": gen.F(0.08, 0.3, 0.1, digits=3), "harm": gen.F(0, 0.5, 0.0), "amp": gen.pick([1.0, 1e-3, 1e4]), "a": gen.F(0.2, 0.8), "b": gen.F(1.15, 2.4),
                                  "i2": st.booleans()})


def c_tone(c):
    fs, T = c["fs"], c["T"]
    L = int(T * max(c["cyc"], c["b"] + 0.2))
    t = np.arange(L * 3 + 5)
    x = np.sin(2 * np.pi * t / T + c["ph"]) + c["harm"] * np.sin(4 * np.pi * t / T + 2 * c["ph"])
    x = np.rint(x * 10000).astype(np.int16) if c["i2"] else x * c["amp"]
    hi, lo = fs / max(1.0, c["a"] * T), fs / (c["b"] * T)
    P = np.asarray(call(compute_yin, x, fs, win_len=(L + 0.25) / fs, win_hop=(L // 2 + 0.25) / fs, low_freq=lo, high_freq=hi, harmonic_threshold=c["thr"])[0])
    for i, p in enumerate(P):
        if p == 0:
            if c["thr"] >= 0.1:
                fail("steady tone of period %r samples reported as unvoiced (window %d, threshold %r)" % (T, L, c["thr"]))
            continue
        lag = fs / p
        k = max(1, round(lag / T))
        if abs(lag - k * T) > 1.0 + 1e-6:
            fail("steady tone of period %r samples reported with lag %r (window %d, threshold %r)" % (T, lag, L, c["thr"]))
    return {"nt": bool(np.any(P)), "labels": ["harm" if c["harm"] else "sine"]}


PROP = Property("C29", "Difference, normalised difference and lag choice on random frames against brute force; the whole tracker on noise, tones and periodic signals against brute force wherever rounding "
                "cannot change the choice; steady tones against their period. Non-trivial: at least four lags / a comparable frame / a voiced tone.",
                [Sub("stages", s_stage, c_stage, 3000), Sub("tracker", s_yin, c_yin, 2500), Sub("tone", s_tone, c_tone, 1200)],
                ["frames in which rounding could change the chosen lag are not compared", "the longest lag does not exceed the window"])
