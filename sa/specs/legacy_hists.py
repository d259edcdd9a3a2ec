"""C01, C03, C04: legacy histograms."""
import numpy as np
import sa
from common import hist1
from templatefitter import histogram_legacy as lg


def _h2(ex, ey, x, y, w=None):
    c, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=w)
    if w is None:
        return c, c
    v, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=w * w)
    return c, v


def C01_legacy_one_dim():
    n, m, m2 = sa.size("n", 3), sa.size("m", 2), sa.size("m2", 3)
    e, x, w = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m)
    y = sa.arr("y", m2)
    h = lg.Hist1d(bins=e)
    sa.check("new histogram has zero counts", h.bin_counts, np.zeros(n))
    h.fill(x, w)
    c1, s1 = hist1(e, x, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    h.fill(y)
    c2, s2 = hist1(e, y)
    sa.check("counts after a second fill", h.bin_counts, c1 + c2)
    sa.check("squared errors after a second fill", h.bin_errors_sq, s1 + s2)


def C01_legacy_histogram():
    n, m, m2 = sa.size("n", 3), sa.size("m", 2), sa.size("m2", 3)
    lo = sa.real("lo")
    hi = lo + sa.real("width", lo=0)
    x, w = sa.arr("x", m), sa.arr("w", m)
    y = sa.arr("y", m2)
    h = lg.Histogram(n, (lo, hi))
    e = h.bin_edges
    sa.check("edges", e, np.linspace(lo, hi, n + 1))
    h.fill(x, w)
    c1, s1 = hist1(e, x, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    h.fill(y)
    c2, s2 = hist1(e, y)
    sa.check("counts after a second fill", h.bin_counts, c1 + c2)
    sa.check("squared errors after a second fill", h.bin_errors_sq, s1 + s2)
    n1, _ = np.histogram(x, bins=e)
    sa.check("entries", h.bin_entries, n1 + c2)


def C01_legacy_large_samples():
    n, k = sa.size("n", 3), 130000
    e = sa.edges("e", n)
    x, y, w, v = sa.arr("x", 2), sa.arr("y", 3), sa.arr("w", 2), sa.arr("v", 3)
    h = lg.Hist1d(bins=e)
    h.fill(np.concatenate((x, np.zeros(k), y)), np.concatenate((w, np.zeros(k), v)))
    c1, s1 = hist1(e, np.concatenate((x, y)), np.concatenate((w, v)))
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)


def C03_legacy():
    n = sa.size("n", 3)
    e, c, s = sa.edges("e", n), sa.arr("c", n, lo=0, zg=True), sa.arr("s", n, lo=0, zg=True)
    h = lg.Hist1d.from_binned_data(e, c, s)
    sa.check("counts", h.bin_counts, c)
    sa.check("errors", h.bin_errors, s)
    sa.check("edges", h.bin_edges, e)
    g = lg.Hist1d.from_binned_data(e, c)
    sa.check("counts without errors", g.bin_counts, c)
    sa.check("squared default errors", g.bin_errors_sq, c)
    x, w = sa.arr("x", 2), sa.arr("w", 2)
    d, v = hist1(e, x, w)
    g.fill(x, w)
    sa.check("counts after filling on top", g.bin_counts, c + d)
    sa.check("squared errors after filling on top", g.bin_errors_sq, c + v)
    ci, si = sa.iarr("ci", n, lo=0), sa.iarr("si", n, lo=0)
    k = lg.Hist1d.from_binned_data(e, ci, si)
    k.fill(x, w)
    sa.check("counts after filling on top of integers", k.bin_counts, ci + d)
    sa.check("squared errors after filling on top of integers", k.bin_errors_sq, si * si + v)


def _legacy_projections(nx, ny):
    m = sa.size("m", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    d, w = sa.arr("d", m, 2), sa.arr("w", m)
    d2, w2 = sa.arr("d2", m, 2), sa.arr("w2", m)
    h = lg.Hist2d(bins=[ex, ey], data=d, weights=w)
    c, s = _h2(ex, ey, d[:, 0], d[:, 1], w)
    sa.check("counts", h.bin_counts, c)
    v, u = h.x_projection()
    sa.check("x projection", v, np.sum(c, axis=1))
    sa.check("x projection errors", u, np.sqrt(np.sum(s, axis=1)))
    v, u = h.y_projection()
    sa.check("y projection", v, np.sum(c, axis=0))
    sa.check("y projection errors", u, np.sqrt(np.sum(s, axis=0)))
    h.fill(d2, w2)
    c2, s2 = _h2(ex, ey, d2[:, 0], d2[:, 1], w2)
    v, u = h.x_projection()
    sa.check("x projection after filling", v, np.sum(c + c2, axis=1))
    sa.check("x projection errors after filling", u, np.sqrt(np.sum(s + s2, axis=1)))
    v, u = h.y_projection()
    sa.check("y projection after filling", v, np.sum(c + c2, axis=0))


def C04_legacy():
    _legacy_projections(sa.size("nx", 2), sa.size("ny", 3))


def C04_legacy_square():
    """[conc]"""
    _legacy_projections(2, 2)

