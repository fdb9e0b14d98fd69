import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, pipe, ref
from ..cmp import close
from ..core import Property, Sub, call


def strat():
    d = ext.full_cfg(sig=gen.sigspec(noise_floor=False, zeros=True), nfilts_max=80)
    d["ext"] = gen.pick(sorted(ext.SPECT))
    d["omit"] = st.booleans()
    return st.fixed_dictionaries(d)


def check(c):
    e = c["ext"]
    r = ext.resolve(c, e, cap=40000, longs=True)
    k = ext.kwargs(r)
    if c["omit"]:
        k = ext.drop_defaults(k, e)
    got = call(ext.ALL[e][0], r.sig, **k)
    B = np.asarray(ext.bank(r, ext.FAM[e])[0])
    S = pipe.spec(r)
    f, d = S.bands(B)
    what = "%s (window %d, hop %d, nfft %d, fs %d)" % (e, r.L, r.H, r.nfft, r.fs)
    close(got[0], f, d + 1e-300, what + " band energies")
    close(got[1], S.mag, S.dmag + 1e-12 * S.mag, what + " magnitudes")
    return {"nt": bool(np.any(f > 10 * d)), "labels": ["ext:" + e, "odd" if r.nfft % 2 else "even", "nfft<L" if r.nfft < r.L else "nfft>=L", "pre" if r.pre else "nopre", "wm:" + r.wm]}


PROP = Property("C11", "Random signals (tones, noise, impulses, steps, silent stretches), windows, FFT sizes around the frame length, bands: both results against an independent "
                "FFT and the bank for the same arguments, with propagated rounding bounds. Non-trivial: some band energy well above its rounding bound.",
                [Sub("values", strat, check, 4000)], ["the bank itself is decided by C05-C09"])
