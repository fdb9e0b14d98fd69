import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail
from spafe.utils.preprocessing import SlidingWindow, windowing
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies


def s_taper():
    return st.fixed_dictionaries({"L": st.one_of(gen.I(1, 40), gen.I(1, 2500, 400, 512, 256)), "rows": gen.I(1, 30), "win": gen.WIN, "seed": gen.SEED,
                                  "dt": gen.pick(["f", "i2", "c", "f4"]), "dflt": st.booleans(), "oned": st.booleans()})


def c_taper(c):
    rng = np.random.default_rng(c["seed"])
    L = c["L"]
    rows = min(c["rows"], max(1, 60000 // L))
    x = rng.uniform(-1, 1, (rows, L)) + (0 if c["seed"] % 3 else 5)
    if c["oned"]:
        x = x[0]
    if c["dt"] == "i2":
        x = np.rint(x * 5000).astype(np.int16)
    elif c["dt"] == "c":
        x = x + 1j * rng.uniform(-1, 1, x.shape)
    elif c["dt"] == "f4":
        x = x.astype(np.float32)
    keep = x.copy()
    w = c["win"]
    if c["dflt"]:
        w = "hamming"
        got = call(windowing, x, L)
    else:
        got = call(windowing, frames=x, frame_len=L, win_type=w)
    close(got, x.astype(complex if c["dt"] == "c" else float) * ref.taper(w, L), 2e-13 * (1 + np.abs(x.astype(complex))), "%s window of %d samples" % (w, L))
    exact(x, keep, "frames after windowing")
    return {"nt": L >= 3, "labels": ["win:" + w, "dt:" + c["dt"]]}


def s_ext():
    d = ext.full_cfg()
    d["ext"] = gen.pick(sorted(set(ext.ALL) - set(ext.CQTS)) + ["dominant"])
    d["win2"] = gen.WIN
    return st.fixed_dictionaries(d)


def c_ext(c):
    """Non-overlapping frames: tapering with T equals hamming-tapering the signal multiplied by T/hamming."""
    e = c["ext"]
    c = dict(c, wm="obj", hopf=1.0, pre=False, L=max(3, c["L"]))
    r = ext.resolve(c, "mfcc" if e == "dominant" else e, cap=20000)
    T, T2 = ref.taper(r.win, r.L), ref.taper("hamming", r.L)
    n = (r.n // r.L) * r.L
    x = r.sig[:n]
    y = x * np.tile(T / T2, n // r.L)
    ham = SlidingWindow(r.win_len, r.win_hop, "hamming")
    own = SlidingWindow(r.win_len, r.win_hop, r.win)
    if e == "dominant":
        f = lambda s, w: [np.asarray(call(get_dominant_frequencies, s, r.fs, nfft=r.nfft, win_len=r.win_len, win_hop=r.win_hop, win_type=w.win_type))]
        base, tol, ok = ext.sens(lambda s: f(s, ham), y, c["sig"]["seed"])
        got = f(x, own)
        if np.any(ok[0]) and not np.all(ok[0]):
            return {"nt": False, "labels": ["tie"]}
        # the strongest bin may be ambiguous by rounding only if the perturbed runs moved
        mag = np.sort(ref.Spec(x, r.L, r.L, r.win, r.nfft).mag, axis=1)
        ok = [(mag[:, -1] - mag[:, -2] > 1e-9 * mag[:, -1]) if mag.shape[1] > 1 else np.ones(len(mag), bool)]
    else:
        base, tol, ok = ext.sens(ext.fw(r, pre_emph=False, window=ham), y, c["sig"]["seed"], k=3, rel=1e-10)
        got = ext.fw(r, pre_emph=False, window=own)(x)
    for i, (g, b, t, m) in enumerate(zip(got, base, tol, ok)):
        close(g, b, t, "%s[%d] with %s window vs. hamming window on the re-weighted signal" % (e, i, r.win), rows=m)
    return {"nt": bool(ok[0].any()) and r.win != "hamming", "labels": ["ext:" + e, "win:" + r.win, "cond" if ok[0].all() else "ill"]}


def s_default():
    d = ext.full_cfg()
    d["ext"] = gen.pick(sorted(ext.ALL) + ["dominant"])
    return st.fixed_dictionaries(d)


def c_default(c):
    """No window given == 25 ms hamming, 10 ms hop; number of rows follows length and hop."""
    e = c["ext"]
    c = dict(c, wm="none")
    r = ext.resolve(c, "mfcc" if e == "dominant" else e, cap=20000)
    if r.window is not None:
        return {"nt": False}
    w = SlidingWindow(0.025, 0.01, "hamming")
    if e == "dominant":
        a = [np.asarray(call(get_dominant_frequencies, r.sig, r.fs, nfft=r.nfft))]
        b = [np.asarray(call(get_dominant_frequencies, r.sig, r.fs, nfft=r.nfft, win_len=0.025, win_hop=0.01, win_type="hamming"))]
    else:
        k = ext.kwargs(r)
        k2 = dict(k)
        k2.pop("window")
        fn = ext.ALL[e][0]
        b = ext.framewise(call(fn, r.sig, **dict(k, window=w)), e)
        a = ext.framewise(call(fn, r.sig, **k), e)
        a2 = ext.framewise(call(fn, r.sig, **k2), e)
        for i, (x, y) in enumerate(zip(a, a2)):
            exact(x, y, "%s[%d] with window left out vs. None" % (e, i))
        d = call(SlidingWindow)
        if (d.win_len, d.win_hop, d.win_type) != (0.025, 0.01, "hamming"):
            fail("default window is %r" % (d,))
    for i, (x, y) in enumerate(zip(a, b)):
        exact(x, y, "%s[%d] without window vs. 25 ms/10 ms hamming" % (e, i))
    want = (len(r.sig) - int(0.025 * r.fs)) // int(0.01 * r.fs) + 1
    if e == "cqcc":
        want = int(want * r.rr)
    if len(b[0]) != want:
        fail("%s: %d rows, expected %d" % (e, len(b[0]), want))
    return {"nt": len(b[0]) >= 2, "labels": ["ext:" + e]}


def s_rows():
    d = ext.full_cfg(nfilts_max=30)
    d["ext"] = gen.pick(sorted(set(ext.ALL) - {"pncc", "cqcc"}) + ["dominant"])
    d["row"] = st.floats(0, 1).map(lambda v: round(v, 4))
    return st.fixed_dictionaries(d)


def c_rows(c):
    """Overlapping frames: row i is what a one-window signal holding samples i*hop .. i*hop+length gives."""
    e = c["ext"]
    c = dict(c, pre=False, norm=None)
    r = ext.resolve(c, "mfcc" if e == "dominant" else e, cap=20000, minframes=2)
    F = (r.n - r.L) // r.H + 1
    i = min(F - 1, int(c["row"] * F))
    part = r.sig[i * r.H:i * r.H + r.L]
    if e == "dominant":
        wl, wh = r.win_len, r.win_hop
        f = lambda s: [np.asarray(call(get_dominant_frequencies, s, r.fs, nfft=r.nfft, win_len=wl, win_hop=wh, win_type=r.win))]
        mag = np.sort(ref.Spec(part, r.L, r.L, r.win, r.nfft).mag, axis=1)
        whole, one = f(r.sig), f(part)
        ok = [(mag[:, -1] - mag[:, -2] > 1e-9 * mag[:, -1]) if mag.shape[1] > 1 else np.ones(1, bool)]
        tol = [1e-9]
    else:
        f = ext.fw(r, pre_emph=False)
        one, tol, ok = ext.sens(f, part, c["sig"]["seed"])
        whole = f(r.sig)
    for k, (wv, ov) in enumerate(zip(whole, one)):
        if len(wv) != F:
            fail("%s[%d]: %d rows for %d samples with window %d and hop %d, expected %d" % (e, k, len(wv), r.n, r.L, r.H, F))
        close(wv[i:i + 1], ov, tol[k], "%s[%d] row %d vs. that window alone (window %d, hop %d)" % (e, k, i, r.L, r.H), rows=ok[k])
    return {"nt": bool(ok[0].any()) and r.H < r.L and i > 0, "labels": ["ext:" + e, "wm:" + r.wm]}


PROP = Property("C03", "Frame matrices through the windowing function (formula oracle); every extractor with taper T vs. the hamming taper on the "
                "re-weighted signal (hop=length), default window vs. explicit one, and row i vs. that window alone. "
                "Non-trivial: at least 3 samples per window; taper other than hamming / several rows / overlapping later row, and well-conditioned.",
                [Sub("taper", s_taper, c_taper, 2000), Sub("extractor_taper", s_ext, c_ext, 1200),
                 Sub("default_window", s_default, c_default, 800), Sub("length_and_hop", s_rows, c_rows, 1200)],
                ["constant-Q kernels use the taper too; their taper is decided by C25"])
