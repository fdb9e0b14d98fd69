import warnings

import numpy as np
from hypothesis import strategies as st
from .. import ext, gen
from ..core import Property, Sub, Violated, call, fail
from spafe.utils.exceptions import ParameterError, SpafeError
from spafe.utils.preprocessing import SlidingWindow, framing
from spafe.frequencies.dominant_frequencies import get_dominant_frequencies


def must_reject(fn, what, *a, **k):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = fn(*a, **k)
    except ParameterError as e:
        if not isinstance(e, SpafeError):
            fail("the parameter error is not one of the library's error classes")
        return
    except Exception as e:
        fail("%s: raised %s (%s) instead of the parameter error" % (what, type(e).__name__, e))
    fail("%s: accepted, returned %s" % (what, type(v).__name__))


def above(v, how):
    return {0: np.nextafter(v, np.inf), 1: v * (1 + 1e-9), 2: v + 1, 3: v * 1.5, 4: v + 0.5, 5: 2 * v, 6: int(v) + 1}[how]


def below0(how):
    return {0: -5e-324, 1: -1e-9, 2: -1, 3: -0.5, 4: -300.0, 5: -1e6, 6: -1e-3}[how]


def s_bad():
    d = ext.full_cfg(nfilts_max=40)
    d["ext"] = gen.pick(sorted(ext.ALL) + sorted(ext.BANK) + ["framing", "dominant"])
    d["bad"] = st.lists(gen.pick(["num", "low", "high", "win"]), min_size=1, max_size=3, unique=True)
    d["how"] = st.integers(0, 6)
    d["more"] = st.one_of(st.just(1), gen.I(1, 60))
    return st.fixed_dictionaries(d)


def c_bad(c):
    e, how = c["ext"], c["how"]
    bad = set(c["bad"])
    if e in ext.BANK:
        r = gen.basis(c, fam=e, sig=False)
        k = ext.bank_kwargs(r, e)
        bad &= {"low", "high"}
        fn, args = ext.BANK[e], []
    elif e in ("framing", "dominant"):
        r = ext.resolve(c, "mfcc", cap=3000)
        bad &= {"win"}
        k = dict(fs=r.fs, win_len=r.win_len, win_hop=r.win_hop)
        fn, args = (framing if e == "framing" else get_dominant_frequencies), [r.sig]
    else:
        r = ext.resolve(c, e, cap=3000)
        k = ext.kwargs(r)
        fn, args = ext.ALL[e][0], [r.sig]
        if e not in ext.WITHBANK:
            bad &= ({"high", "win"} if e in ext.CQTS else {"win"})
        elif e in ext.SPECT:
            bad &= {"low", "high", "win"}
    if not bad:
        return {"nt": False}
    if "num" in bad:
        k["order" if e in ext.PLPS else "num_ceps"] = r.nfilts + c["more"]
    if "low" in bad:
        k["low_freq"] = below0(how)
    if "high" in bad:
        k["high_freq"] = above(r.fs / 2, how)
    if "win" in bad:
        wl = r.win_len
        wh = {0: np.nextafter(wl, 9e9), 1: wl * 1.0001, 2: wl * 2, 3: wl + 1e-9, 4: wl * 1.3, 5: wl * 10, 6: wl + 1.0 / r.fs}[how]
        if "window" in k:
            k["window"] = SlidingWindow(wl, wh, r.win)
        else:
            k["win_hop"] = wh
    desc = {a: k[a] for a in ("num_ceps", "order", "nfilts", "low_freq", "high_freq", "fs", "window", "win_len", "win_hop") if a in k}
    must_reject(fn, "%s with bad %s %r" % (e, sorted(bad), desc), *args, **k)
    return {"nt": True, "labels": ["ext:" + e] + ["bad:" + b for b in sorted(bad)]}


def s_good():
    d = ext.full_cfg(nfilts_max=40)
    d["ext"] = gen.pick(sorted(ext.ALL) + sorted(ext.BANK) + ["framing", "dominant"])
    d["edge"] = st.lists(gen.pick(["num", "low", "high", "win", "zero", "one"]), min_size=0, max_size=4, unique=True)
    d["fl"] = st.booleans()
    return st.fixed_dictionaries(d)


def c_good(c):
    """Limits exactly met (and anything inside them) never raise the parameter error - nor anything else."""
    e, edge = c["ext"], set(c["edge"])
    c = dict(c)
    if "low" in edge:
        c["low"] = 0
    if "high" in edge:
        c["high"] = 1.0
    if "num" in edge:
        c["cepsf"], c["order"] = 1.0, 10 ** 6
    if "one" in edge:
        c["cepsf"], c["order"] = 0.0, 2
    if "win" in edge:
        c["hopf"] = 1.0
        if c["wm"] != "none":
            c["wm"] = "obj"
    if e in ext.BANK:
        r = gen.basis(c, fam=e, sig=False)
        k = ext.bank_kwargs(r, e)
        fn, args = ext.BANK[e], []
    elif e in ("framing", "dominant"):
        r = ext.resolve(c, "mfcc", cap=3000)
        wh = r.win_len if "win" in edge else r.win_hop
        k = dict(fs=r.fs, win_len=r.win_len, win_hop=wh)
        fn, args = (framing if e == "framing" else get_dominant_frequencies), [r.sig]
    else:
        r = ext.resolve(c, e, cap=3000)
        k = ext.kwargs(r)
        if "win" in edge and r.window is not None:
            k["window"] = SlidingWindow(r.win_len, r.win_len, r.win)
        fn, args = ext.ALL[e][0], [r.sig]
    if c["fl"] and "low_freq" in k and k["low_freq"] == 0:
        k["low_freq"] = 0.0
    if c["fl"] and k.get("high_freq") == r.fs / 2 and r.fs % 2 == 0:
        k["high_freq"] = r.fs // 2
    call(fn, *args, **k)
    return {"nt": bool(edge), "labels": ["ext:" + e] + ["edge:" + x for x in sorted(edge)]}


PROP = Property("C10", "Every extractor, bank, framing and the dominant-frequency tracker with one to three limits overstepped (by one ulp up to factors), and with limits exactly "
                "met. Non-trivial: some limit overstepped / some limit exactly met.",
                [Sub("reject", s_bad, c_bad, 4000), Sub("accept", s_good, c_good, 3000)])
