import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..cmp import close
from ..core import Property, Sub, call, fail
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies
from spafe.frequencies.fundamental_frequencies import compute_yin


def tracker(c, r):
    if c["ext"] == "dominant":
        return lambda s: [np.asarray(call(get_dominant_frequencies, s, r.fs, nfft=r.nfft, win_len=r.win_len, win_hop=r.win_hop, win_type=r.win))]
    lo = max(30.0, r.fs / max(3, r.L - 1) * 1.01)
    hi = min(r.fs / 2.0, lo * 20)
    return lambda s: [np.asarray(v) for v in call(compute_yin, s, r.fs, win_len=r.win_len, win_hop=r.win_hop, low_freq=lo, high_freq=hi, harmonic_threshold=c["thr"])]


def strat():
    d = ext.full_cfg(nfilts_max=40)
    d["ext"] = gen.pick(sorted(ext.ALL) + ["dominant", "yin"])
    d["mode"] = gen.pick(["front", "back", "garble", "garble"])
    d["cut"] = st.floats(0, 1).map(lambda v: round(v, 4))
    d["extra"] = st.floats(0, 1).map(lambda v: round(v, 4))
    d["gseed"] = gen.SEED
    d["gamp"] = gen.pick([0.0, 1.0, 100.0, 1e4, 1e6, 1e-4])
    d["thr"] = gen.F(0.05, 0.8, 0.1, digits=3)
    return st.fixed_dictionaries(d)


def check(c):
    e, mode = c["ext"], c["mode"]
    c = dict(c, pre=False, norm=None, rr=1.0)
    if e == "yin":
        c["L"] = max(c["L"], 24)
        if c["wm"] == "none":
            c["wm"] = "obj"
    r = ext.resolve(c, e if e in ext.ALL else "mfcc", cap=20000, minframes=3)
    f = tracker(c, r) if e in ("dominant", "yin") else ext.fw(r, pre_emph=False)
    # the cumulated effect of rounding inside a frame, measured on the code itself
    base, tol, ok = ext.sens(f, r.sig, c["sig"]["seed"])
    F = len(base[0])
    nf = (r.n - r.L) // r.H + 1
    if e == "yin":
        want_rows = len(range(0, r.n - r.L, r.H))
    else:
        want_rows = nf
    if F != want_rows:
        fail("%s: %d rows for %d samples (window %d, hop %d), expected %d" % (e, F, r.n, r.L, r.H, want_rows))
    i = min(nf - 1, int(c["cut"] * nf))
    x = r.sig
    if mode == "front":
        if e == "pncc":
            mode = "back"                          # its recursions start at the first frame
    if mode == "front":
        got, off = f(x[i * r.H:]), i
        pairs = [(b[off:off + len(g)], g, t[off:off + len(g)], m[off:off + len(g)]) for b, g, t, m in zip(base, got, tol, ok)]
        if e == "yin":
            pairs = pairs[:3]
        if any(len(g) != F - off for g in got) and not (e == "yin"):
            fail("%s: %d rows after dropping %d hops from the front, expected %d" % (e, len(got[0]), i, F - off))
    elif mode == "back":
        m2 = min(r.n, r.L + i * r.H + int(c["extra"] * r.H))
        got = f(x[:m2])
        keep = len(got[0])
        if e == "pncc":
            keep = max(0, keep - 2)
        pairs = [(b[:keep], g[:keep], t[:keep], m[:keep]) for b, g, t, m in zip(base, got, tol, ok)]
    else:
        y = np.random.default_rng(c["gseed"]).standard_normal(r.n) * c["gamp"] * max(float(np.max(np.abs(x[i * r.H:i * r.H + r.L]))), 1e-9)
        s0, s1 = i * r.H, i * r.H + r.L
        if e == "pncc":
            s0, s1 = 0, min(r.n, s1 + 2 * r.H)
        y[s0:s1] = x[s0:s1]
        got = f(y)
        if i >= F:
            return {"nt": False}
        pairs = [(b[i:i + 1], g[i:i + 1], t[i:i + 1], m[i:i + 1]) for b, g, t, m in zip(base, got, tol, ok)]
    n = 0
    for k, (b, g, t, m) in enumerate(pairs):
        if len(b) != len(g):
            b, t, m = b[:len(g)], t[:len(g)], m[:len(g)]
            g = g[:len(b)]
        n += int(m.sum())
        slack = 1e-10 * (1 + np.abs(b)) if e in ("cqcc", "yin", "dominant") else 0
        close(g, b, t + slack, "%s[%d], %s at frame %d of %d (window %d, hop %d)" % (e, k, {"front": "hops dropped from the front", "back": "signal cut", "garble": "samples outside the frame replaced"}[mode], i, nf, r.L, r.H), rows=m)
    return {"nt": n > 0 and (i > 0 or mode != "front"), "labels": ["ext:" + e, "mode:" + mode]}


PROP = Property("C17", "Every extractor and both trackers on a random signal, and on that signal with hops dropped from the front, cut at an arbitrary sample, or with everything outside "
                "one frame replaced (silence to loud noise); rows must agree. Non-trivial: at least one comparable row and a real change.",
                [Sub("local", strat, check, 4000)], ["rows whose value moves by more than 1e-4 under 1e-11 relative perturbation of the samples are not compared"])
