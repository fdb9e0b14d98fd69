import numpy as np
from hypothesis import strategies as st
from .. import ext, gen, ref
from ..core import Property, Sub, call, fail
from spafe.utils.preprocessing import SlidingWindow


def centres_hz(cf, fam, app):
    cf = np.asarray(cf, float)
    if fam in ("mel", "imel"):
        return ref.mel2hz(cf, app)
    if fam == "bark":
        return ref.bark2hz(cf, app)
    return ref.erb2hz(cf) if fam == "gamma" else cf


def s_bank():
    d = {"fs": gen.FS, "fam": gen.pick(["mel", "imel", "lin", "bark", "gamma"]), "via": gen.pick(["kw", "kw", "pos"])}
    d.update(gen.bankspec(60))
    d["nfft"] = st.one_of(gen.pick([512, 256, 128, 1024]), gen.I(16, 700), gen.I(16, 1200))
    return st.fixed_dictionaries(d)


def c_bank(c):
    fam = c["fam"]
    r = gen.basis(c, fam=fam)
    if fam == "bark":
        r.nfilts = max(2, min(r.nfilts, 20000 // r.nfft))
    k = ext.bank_kwargs(r, fam)
    if c["via"] == "pos":
        B, cf = call(ext.BANK[fam], r.nfilts, r.nfft, r.fs, r.low, r.high, r.scale)
        r.app = {"mel": "Oshaghnessy", "imel": "Oshaghnessy", "bark": "Wang"}.get(fam, r.app)
        if fam == "gamma":
            r.app = "Glasberg"
    else:
        B, cf = call(ext.BANK[fam], **k)
    B = np.asarray(B)
    what = "%s bank (%d filters, nfft %d, fs %d, %r..%r Hz, %s)" % (fam, r.nfilts, r.nfft, r.fs, r.low, r.high, r.app)
    f = centres_hz(cf, fam, r.app)
    bw = r.fs / r.nfft
    x = np.arange(r.nfft // 2 + 1) * bw
    if B.shape != (r.nfilts, len(x)) or len(f) != r.nfilts:
        fail("%s: shape %s with %d centres" % (what, B.shape, len(f)))
    if fam != "gamma":
        out = (x < r.low - 1.5 * bw) | (x > r.hi + 1.5 * bw)
        w = np.abs(B[:, out])
        if w.size and w.max() > 1e-9:
            j = int(np.argwhere(w.max(axis=1) > 1e-9)[0][0])
            k = int(np.argwhere(out & (np.abs(B[j]) > 1e-9))[0][0])
            fail("%s: filter %d gives weight %r to bin %d at %.6g Hz" % (what, j, B[j, k], k, x[k]))
    n = 0
    for j in range(r.nfilts):
        m = B[j].max()
        if m <= 0:
            if fam in ("bark", "gamma"):
                if fam == "gamma" or r.hi - r.low > 6 * bw and r.low + 3 * bw < f[j] < r.hi - 3 * bw:
                    fail("%s: filter %d at %.6g Hz has no weight at all" % (what, j, f[j]))
                continue
            e = np.concatenate(([r.low], np.sort(f), [r.hi]))
            i = int(np.argsort(np.argsort(f))[j]) + 1
            if min(e[i] - e[i - 1], e[i + 1] - e[i]) > 1.01 * bw:
                fail("%s: filter %d at %.6g Hz has no weight at all" % (what, j, f[j]))
            continue
        top = np.flatnonzero(B[j] >= m * (1 - 1e-9)) * bw
        d = max(0.0, top.min() - f[j], f[j] - top.max())
        lim = {"bark": 2.6 * bw, "gamma": 1.01 * bw + 0.25 * 24.7 * (4.37e-3 * f[j] + 1)}.get(fam, 1.51 * bw)
        if d > lim + 1e-6 * r.fs:
            fail("%s: filter %d is centred at %.6g Hz but its largest weight is at %.6g Hz (bins are %.6g Hz wide)" % (what, j, f[j], top[0], bw))
        n += 1
    return {"nt": n >= 2, "labels": ["fam:" + fam, "band" if (r.low or r.hi != r.fs / 2) else "full", "odd" if r.nfft % 2 else "even"]}


SP = {"mel": "mel_spectrogram", "lin": "linear_spectrogram", "bark": "bark_spectrogram", "gamma": "erb_spectrogram"}


def s_tone():
    return st.fixed_dictionaries({"fs": gen.FS, "fam": gen.pick(sorted(SP)), "nfft": st.one_of(gen.pick([512, 1024, 2048]), gen.I(256, 1500)), "nfilts": gen.I(2, 26), "low": st.one_of(st.just(0), gen.F(0.01, 0.6)),
                                  "high": st.one_of(st.none(), gen.F(0.2, 1.0)), "app": st.integers(0, 5), "scale": st.just("constant"), "z": gen.F(0.5, 1.0, 1.0), "j": gen.F(0, 1), "ph": gen.F(0, 6.28), "amp": gen.pick([1.0, 1e-2, 1e4]),
                                  "win": gen.pick(["hamming", "hanning", "blackman"])})


def c_tone(c):
    fam = c["fam"]
    r = gen.basis(c, fam=fam)
    if fam == "bark":
        r.nfilts = max(2, min(r.nfilts, 20000 // r.nfft))
    cf = np.asarray(ext.bank(r, fam)[1])
    f = centres_hz(cf, fam, r.app)
    L = max(64, int(r.nfft * c["z"]))
    bw = r.fs / L
    nb = np.concatenate(([r.low - (1e9 if fam in ("bark", "gamma") else 0)], f, [r.hi + (1e9 if fam in ("bark", "gamma") else 0)]))
    gap = np.minimum(nb[1:-1] - nb[:-2], nb[2:] - nb[1:-1])
    ok = (gap > 8 * bw) & (f > 8 * bw) & (f < r.fs / 2 - 8 * bw)
    if fam == "gamma":
        ok &= gap > 0.7 * 24.7 * (4.37e-3 * f + 1)
    if fam == "bark":
        nbb = np.concatenate(([-1e9], cf, [1e9]))
        ok &= (np.minimum(nbb[1:-1] - nbb[:-2], nbb[2:] - nbb[1:-1]) > 1.2) & (f > r.low + 4 * bw) & (f < r.hi - 4 * bw)
    cand = np.flatnonzero(ok)
    if len(cand) == 0:
        return {"nt": False, "labels": ["no room"]}
    j = int(cand[min(len(cand) - 1, int(c["j"] * len(cand)))])
    n = L + 3 * (L // 2) + 5
    x = c["amp"] * np.sin(2 * np.pi * f[j] / r.fs * np.arange(n) + c["ph"])
    r.pre, r.coeff = False, 0.97
    r.window = SlidingWindow((L + 0.25) / r.fs, (L // 2 + 0.25) / r.fs, c["win"])
    S = np.asarray(ext.run(r, SP[fam], sig=x)[0])
    for i, row in enumerate(S):
        if row.argmax() != j and row.max() > row[j] * (1 + 1e-6):
            fail("%s: a tone of %.6g Hz, the centre of filter %d, excites filter %d (%.6g Hz) most in frame %d (fs %d, nfft %d, %r..%r Hz, %d filters, %s)"
                 % (SP[fam], f[j], j, int(row.argmax()), f[int(row.argmax())], i, r.fs, r.nfft, r.low, r.high, r.nfilts, r.app))
    return {"nt": r.nfilts >= 2, "labels": ["fam:" + fam, "band" if (r.low or r.hi != r.fs / 2) else "full"]}


PROP = Property("C32", "Random banks of all five kinds (full and restricted bands, even and odd FFT sizes): position of the largest weight against the returned centre, zero weight outside the band, no empty filter that is wide enough; "
                "and pure tones at a filter's centre through the spectrogram functions. Non-trivial: at least two non-empty filters / a filter far enough from its neighbours.",
                [Sub("alignment", s_bank, c_bank, 3500), Sub("tone", s_tone, c_tone, 2500)],
                ["tone: neighbouring centres at least 8 bins (bark: also 1.2 bark, gammatone: 0.7 ERB) apart; gammatone peaks may sit a quarter ERB plus one bin from the centre (discretisation of the filter near 0 and fs/2)"])
