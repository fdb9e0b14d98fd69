import numpy as np
from hypothesis import strategies as st
from .. import gen, ref
from ..cmp import close
from ..core import Property, Sub, call
from .c12 import check, strat
from spafe.features.bfcc import intensity_power_law


def s_loud():
    return st.fixed_dictionaries({"lo": gen.F(-12.0, 6.0, digits=2), "hi": gen.F(-12.0, 14.0, digits=2), "n": gen.I(1, 40), "seed": gen.SEED, "z": st.booleans()})


def c_loud(c):
    w = 10.0 ** np.random.default_rng(c["seed"]).uniform(c["lo"], max(c["hi"], c["lo"] + 0.1), (c["n"], 7))
    if c["z"]:
        w[:, 0] = 0
    want = ref.loudness(w)
    close(call(intensity_power_law, w), want, 1e-12 * want, "equal-loudness cube root")
    return {"nt": True}


PROP = Property("C13", "As C12 for BFCC, GFCC, MSRCC and PSRCC (random gamma), plus the loudness law itself over 26 decades. Non-trivial: at least two coefficients and some "
                "well-conditioned frame (for PSRCC: no phase within rounding of the 0/360 degree jump).",
                [Sub("values", lambda: strat(["bfcc", "gfcc", "msrcc", "psrcc"]), check, 4000), Sub("loudness", s_loud, c_loud, 500)],
                ["frames in which rounding could move the result noticeably are not compared", "the bank itself is decided by C05-C09"])
