import numpy as np
from hypothesis import strategies as st
from .. import ext, gen
from ..cmp import finite
from ..core import Property, Sub, call, fail


def strat():
    d = ext.full_cfg(sig=gen.sigspec(kinds=("noise", "noise", "tones", "chirp", "am", "steps")), nfilts_max=90)
    d["ext"] = gen.pick(sorted(ext.ALL))
    d["omit"] = st.booleans()
    d["pos"] = st.booleans()
    d["dt"] = gen.pick(["f", "f", "i2", "f4"])
    return st.fixed_dictionaries(d)


def check(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=40000, longs=True)
    x = r.sig
    if c["dt"] == "i2":
        x = np.clip(np.rint(x * (1 if np.abs(x).max() > 50 else 3000)), -32768, 32767).astype(np.int16)
    elif c["dt"] == "f4":
        x = x.astype(np.float32)
    k = ext.kwargs(r)
    rows = (r.n - r.L) // r.H + 1
    if e in ext.POST and r.norm is not None and min(rows, int(rows * r.rr) if e == "cqcc" else rows) < 2:
        k["normalize"] = None                       # normalising a single row divides zero by zero
    if c["omit"]:
        k = ext.drop_defaults(k, e)
    v = call(ext.ALL[e][0], x, **k)
    F = (r.n - r.L) // r.H + 1
    what = "%s (%d samples, window %d, hop %d, nfft %d, %d filters)" % (e, r.n, r.L, r.H, r.nfft, r.nfilts)
    if e in ext.SPECT:
        want = [(F, r.nfilts), (F, r.nfft // 2 + 1)]
    elif e == "lpc":
        want = [(F, r.order), (F,)]
    elif e == "lpcc":
        want = [(F, r.order)]
    elif e in ext.PLPS:
        want = [(F, r.order)]
    elif e == "cqt_spectrogram":
        want = [(len(r.cq_freqs), F)]
    elif e == "cqcc":
        want = [(int(F * r.rr), r.num)]
    else:
        want = [(F, r.num)]
    if isinstance(v, tuple) != (len(want) > 1) or (isinstance(v, tuple) and len(v) != len(want)):
        fail("%s: returned %s" % (what, type(v)))
    got = [np.asarray(a) for a in v] if isinstance(v, tuple) else [np.asarray(v)]
    for i, (g, w) in enumerate(zip(got, want)):
        if e == "lpc" and i == 1:
            g = g.reshape(-1) if g.size == F else g
        if e.startswith("cq") and r.cq_amb:
            continue
        if g.shape != w:
            fail("%s: output %d has shape %s, expected %s" % (what, i, g.shape, w))
        if g.dtype.kind not in ("fiu" if e != "cqt_spectrogram" else "fciu"):
            fail("%s: output %d has type %s" % (what, i, g.dtype))
    # energy in every band?
    quiet = np.abs(np.diff(np.asarray(x, float))).max() == 0 if len(x) > 1 else True
    if e in ext.WITHBANK:
        B = np.asarray(ext.bank(r, ext.FAM[e])[0])
        quiet = quiet or not (B > 0).any(axis=1).all()
    if c["sig"]["floor"] >= 0.01 and c["sig"]["amp"] >= 0.1 and not quiet and r.L >= 8:
        if k.get("normalize") and not all(np.all(np.isfinite(g)) for g in got):
            # normalising is only defined for results that vary at all
            raw = np.asarray(call(ext.ALL[e][0], x, **dict(k, normalize=None)))
            finite(raw, what + " without normalisation")
            if min(raw.std(), np.ptp(raw)) <= 1e-9 * np.abs(raw).max():
                return {"nt": False, "labels": ["constant result"]}
        for i, g in enumerate(got):
            finite(g, "%s, output %d" % (what, i))
    return {"nt": F >= 2, "labels": ["ext:" + e, "omit" if c["omit"] else "full", "dt:" + c["dt"]]}


PROP = Property("C34", "Every extractor with random parameters (given explicitly or left to their defaults) and signal lengths; shape, type and finiteness. Non-trivial: at least two frames.",
                [Sub("shapes", strat, check, 6000)],
                ["normalisation of a single-row result is not judged", "constant-Q shapes are not judged when a band edge or window length lies within rounding of its limit"])
