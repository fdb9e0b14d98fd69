import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close, exact
from ..core import Property, Sub, call, fail

CONV = {"mel": lambda x: ref.hz2mel(x, "Oshaghnessy"), "bark": lambda x: ref.hz2bark(x, "Wang"), "gamma": ref.hz2erb}
TEXT = st.text("abcXYZ 019()/", min_size=1, max_size=12).map(lambda s: s.strip() or "t")


def figures(fn, *a, **k):
    """Calls a plot function; returns the figures it left (nothing is drawn on a screen)."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    plt.close("all")
    old = plt.show
    plt.show = lambda *x, **y: None
    try:
        call(fn, *a, **k)
    finally:
        plt.show = old
    return [plt.figure(n) for n in plt.get_fignums()]


def main_axes(figs, what):
    if len(figs) != 1:
        fail("%s: %d figures instead of one" % (what, len(figs)))
    return figs[0].axes


def image(axs, what):
    hits = [(ax, im) for ax in axs for im in ax.images]
    if len(hits) != 1:
        fail("%s: %d images instead of one" % (what, len(hits)))
    ax, im = hits[0]
    d = np.asarray(im.get_array())
    # row 0 at the bottom, whatever way the image is stored
    x0, x1, y0, y1 = im.get_extent()
    bottom_first = (im.origin == "lower")
    lim = ax.get_ylim()
    if lim[0] > lim[1]:
        fail("%s: the vertical axis is upside down" % what)
    return ax, im, d if bottom_first else d[::-1], (x0, x1, y0, y1)


def labels(ax, want, what):
    got = (ax.get_title(), ax.get_xlabel(), ax.get_ylabel())
    if got != want:
        fail("%s: title and labels %r instead of %r" % (what, got, want))


def s_spec():
    return st.fixed_dictionaries({"seed": gen.SEED, "r": st.one_of(gen.I(1, 40), gen.I(1, 300)), "k": st.one_of(gen.I(1, 40), gen.I(1, 700)), "rng": st.one_of(gen.F(0, 9.0, digits=2), gen.F(0, 24.0, digits=2)), "kind": gen.pick(["pos", "neg", "cplx", "zeros"]), "x0": gen.F(0, 5.0, 0.0), "dx": gen.F(0.1, 20.0), "y0": gen.F(0, 5000.0, 0.0), "dy": gen.F(1.0, 40000.0),
                                  "dbf": st.one_of(st.none(), gen.F(1.0, 95.0, 80.0), gen.F(1.0, 200.0, 120.0, 100.0)), "t": TEXT, "xl": TEXT, "yl": TEXT, "cb": gen.pick([True, False, None]), "dfl": st.booleans(), "mx": st.one_of(gen.F(1.0, 1e6), gen.F(4.0, 15.0, digits=2).map(lambda v: 10.0 ** v))})


def c_spec(c):
    from spafe.utils.vis import show_spectrogram
    rng = np.random.default_rng(c["seed"])
    S = 10 ** (-rng.uniform(0, c["rng"], (c["r"], c["k"])))
    S = S / S.max() * c["mx"]
    if c["kind"] == "neg":
        S = S * rng.choice([-1, 1], S.shape)
    elif c["kind"] == "cplx":
        S = S * np.exp(1j * rng.uniform(0, 6, S.shape))
    elif c["kind"] == "zeros" and S.size > 1:
        i = S.argmax()
        S = np.where((rng.random(S.shape) < 0.4) & (np.arange(S.size).reshape(S.shape) != i), 0.0, S)
    keep = S.copy()
    k = {}
    dbf = c["dbf"]
    if dbf is not None:
        dbf = min(dbf, 10 * np.log10(c["mx"]) + 95.0)      # the absolute floor of 1e-10 plays no part
        k["dbf"] = dbf
    if c["cb"] is not None:
        k["colorbar"] = c["cb"]
    want = ("Mel spectrogram (dB)", "Time (s)", "Frequency (Hz)")
    if not c["dfl"]:
        k.update(title=c["t"], xlabel=c["xl"], ylabel=c["yl"])
        want = (c["t"], c["xl"], c["yl"])
    e = (c["x0"], c["x0"] + c["dx"], c["y0"], c["y0"] + c["dy"])
    what = "spectrogram plot %dx%d" % S.shape
    axs = main_axes(figures(show_spectrogram, S, 16000, *e, **k), what)
    exact(S, keep, what + ": input changed")
    ax, im, d, ex = image(axs, what)
    m = np.abs(S)
    with np.errstate(divide="ignore"):
        w = np.maximum(10 * np.log10(np.maximum(m, 1e-300) / m.max()), -(dbf if dbf is not None else 80.0))
    close(d, w, 1e-6, what + " (dB values, first row at the bottom)")
    close(np.array(ex, float), np.array(e), 1e-9 * (1 + max(map(abs, e))), what + " extent")
    labels(ax, want, what)
    bars = len(axs) - 1
    if bars != (0 if c["cb"] is False else 1):
        fail("%s: %d colour bars" % (what, bars))
    return {"nt": S.size > 3, "labels": ["spec:" + c["kind"], "clipped" if np.any(w == w.min()) and c["rng"] > 1 else "unclipped"]}


def s_feat():
    return st.fixed_dictionaries({"seed": gen.SEED, "r": st.one_of(gen.I(1, 60), gen.I(1, 1500)), "k": st.one_of(gen.I(1, 30), gen.I(1, 130)), "sc": gen.pick([1.0, 1e-6, 1e5]), "t": TEXT, "xl": TEXT, "yl": TEXT, "int": st.booleans(), "F": st.booleans()})


def c_feat(c):
    from spafe.utils.vis import show_features
    X = np.random.default_rng(c["seed"]).standard_normal((c["r"], c["k"])) * c["sc"]
    if c["int"]:
        X = np.rint(X * 100 / c["sc"]).astype(int)
    if c["F"]:
        X = np.asfortranarray(X)
    keep = X.copy()
    what = "feature plot %dx%d" % X.shape
    axs = main_axes(figures(show_features, X, c["t"], c["yl"], c["xl"]), what)
    exact(X, keep, what + ": input changed")
    ax, im, d, ex = image(axs, what)
    close(d, X.T, 1e-9 * np.abs(X).max(), what + " (one column per frame, first coefficient at the bottom)")
    labels(ax, (c["t"], c["xl"], c["yl"]), what)
    return {"nt": min(X.shape) > 1, "labels": ["feat"]}


def s_bank():
    return st.fixed_dictionaries({"seed": gen.SEED, "n": st.one_of(gen.I(1, 20), gen.I(1, 20), gen.I(20, 140)), "k": gen.I(5, 80), "fs": gen.FS, "low": gen.F(0, 0.5, 0.0), "type": gen.pick(["mel", "bark", "gamma", "lin", None]), "cen": gen.pick([True, False, None]), "t": TEXT, "xl": TEXT, "x2": TEXT, "yl": TEXT, "dfl": st.booleans(), "list": st.booleans()})


def c_bank(c):
    from spafe.utils.vis import show_fbanks
    rng = np.random.default_rng(c["seed"])
    B = rng.uniform(0, 1, (c["n"], c["k"]))
    nyq = c["fs"] / 2
    x = np.linspace(c["low"] * nyq, nyq, c["k"])
    cf = np.sort(rng.uniform(x[0], x[-1], c["n"]))
    keep = (B.copy(), x.copy(), cf.copy())
    k = {}
    if c["type"]:
        k["fb_type"] = c["type"]
    if c["cen"] is not None:
        k["show_center_freqs"] = c["cen"]
    want = ("Mel filter banks", "Frequency / Hz", "Weight")
    x2 = "Frequency / mel"
    if not c["dfl"]:
        k.update(title=c["t"], ylabel=c["yl"], x1label=c["xl"], x2label=c["x2"])
        want, x2 = (c["t"], c["xl"], c["yl"]), c["x2"]
    what = "filter-bank plot of %d filters (%s)" % (c["n"], c["type"] or "mel")
    axs = main_axes(figures(show_fbanks, B, list(cf) if c["list"] else cf, x, **k), what)
    for a, b in zip((B, x, cf), keep):
        exact(a, b, what + ": input changed")
    if len(axs) != 2:
        fail("%s: %d axes instead of two" % (what, len(axs)))
    curves, marks = [], []
    owner = None
    for ax in axs:
        for ln in ax.get_lines():
            u, v = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
            if len(u) == c["k"]:
                curves.append((u, v))
                owner = ax
            elif len(u) == 2 and u[0] == u[1]:
                marks.append(u[0])
        for col in ax.collections:
            if hasattr(col, "get_segments"):
                for s in col.get_segments():
                    s = np.asarray(s)
                    if len(s) and np.ptp(s[:, 0]) == 0 and np.ptp(s[:, 1]) > 0.5:
                        marks.append(s[0, 0])
    if len(curves) != c["n"]:
        fail("%s: %d curves" % (what, len(curves)))
    for j, (u, v) in enumerate(curves):
        close(u, x, 1e-9 * nyq, "%s: frequencies of curve %d" % (what, j))
        close(v, B[j], 1e-9, "%s: weights of curve %d" % (what, j))
    if c["cen"] is False:
        if marks:
            fail("%s: centres marked although not asked for" % what)
    else:
        close(np.sort(np.array(marks)), cf, 1e-9 * nyq, what + ": marked centres")
    other = [ax for ax in axs if ax is not owner][0]
    labels(owner, want, what)
    if other.get_xlabel() != x2:
        fail("%s: second axis labelled %r instead of %r" % (what, other.get_xlabel(), x2))
    close(np.array(other.get_xlim()), np.array(owner.get_xlim()), 1e-9 * nyq, what + ": limits of the two axes")
    pos = np.asarray(other.get_xticks(), float)
    txt = [t.get_text() for t in other.get_xticklabels()]
    if len(txt) != len(pos) or not len(pos):
        fail("%s: %d tick labels for %d ticks" % (what, len(txt), len(pos)))
    # both axes must carry the same positions where they are visible
    lo, hi = owner.get_xlim()
    vis = lambda a: np.array([v for v in a if lo <= v <= hi])
    close(vis(pos), vis(np.asarray(owner.get_xticks(), float)), 1e-9 * nyq, what + ": tick positions of the second axis")
    tick_check(pos, txt, c["type"] or "mel", what)
    return {"nt": c["n"] > 1, "labels": ["bank:%s" % c["type"], "centres" if c["cen"] is not False else "no centres"]}


def tick_check(pos, txt, kind, what):
    f = CONV.get(kind, lambda v: v)
    for p, t in zip(pos, txt):
        with np.errstate(all="ignore"):
            w = float(f(p))
        if not np.isfinite(w):
            continue
        try:
            g = float(t.replace("\u2212", "-"))
        except ValueError:
            fail("%s: tick label %r" % (what, t))
        close(g, w, 0.0501 + 1e-9 * abs(w), "%s: label of the tick at %r Hz" % (what, p))


def s_tick():
    return st.fixed_dictionaries({"x": st.lists(gen.F(0.0, 48000.0, 0.0, 100.0, 1000.0, 8000.0, digits=3), min_size=1, max_size=12), "kind": gen.pick(["mel", "bark", "gamma", "lin"]), "arr": st.booleans()})


def c_tick(c):
    from spafe.utils.vis import tick_function
    X = np.array(c["x"]) if c["arr"] else list(c["x"])
    t = list(call(tick_function, X, c["kind"]))
    if len(t) != len(c["x"]):
        fail("%d tick labels for %d ticks" % (len(t), len(c["x"])))
    tick_check(c["x"], t, c["kind"], "tick labels (%s)" % c["kind"])
    exact(np.array(X), np.array(c["x"]), "ticks changed")
    return {"nt": any(v > 0 for v in c["x"]), "labels": ["tick:" + c["kind"]]}


PROP = Property("C33", "Random matrices, axis limits, ranges, banks, options and texts; the objects on the resulting figure (Agg back end, never shown) against the data. "
                "Non-trivial: more than a few cells, more than one filter, a positive tick.",
                [Sub("spectrogram", s_spec, c_spec, 500), Sub("features", s_feat, c_feat, 500), Sub("fbanks", s_bank, c_bank, 500), Sub("ticks", s_tick, c_tick, 1500)],
                ["the dynamic range reaches at most 5 dB above the absolute floor of 1e-10, so that the floor plays no part"])
