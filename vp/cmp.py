"""Comparisons that say where and by how much two results differ."""
import numpy as np

from .core import Violated


def close(got, want, tol, what, rows=None):
    """|got-want| <= tol element-wise (tol broadcasts); rows: boolean mask of the rows that count."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violated("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    if got.dtype == object:
        raise Violated("%s: result holds Python objects instead of numbers" % what)
    with np.errstate(all="ignore"):
        bad = ~(np.abs(got - want) <= tol)
        same = (got == want) | (np.isnan(got) & np.isnan(want))
    bad &= ~same
    if rows is not None:
        m = np.asarray(rows)
        bad = bad & (m if bad.ndim == 1 else m.reshape((-1,) + (1,) * (bad.ndim - 1)))
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        t = np.broadcast_to(np.asarray(tol, float), got.shape)[i] if got.ndim else float(np.max(tol))
        raise Violated("%s: at %s got %r, expected %r (tolerance %.3g); %d of %d entries differ"
                       % (what, i, got[i] if got.ndim else got, want[i] if want.ndim else want, t, int(bad.sum()), bad.size))


def exact(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violated("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    same = (got == want) | ((got != got) & (want != want))
    if not np.all(same):
        i = tuple(int(v) for v in np.argwhere(~same)[0])
        raise Violated("%s: at %s got %r, expected %r" % (what, i, got[i], want[i]))


def finite(got, what):
    g = np.asarray(got)
    if g.dtype == object or not np.issubdtype(g.dtype, np.number):
        raise Violated("%s: not numeric (%s)" % (what, g.dtype))
    if not np.all(np.isfinite(g)):
        i = tuple(int(v) for v in np.argwhere(~np.isfinite(g))[0])
        raise Violated("%s: %r at %s" % (what, g[i], i))
