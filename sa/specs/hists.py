"""C01-C05: histograms."""
import numpy as np
import pandas as pd
import sa
from common import attempt, hist1
from templatefitter.histograms import Hist1d, Hist2d


def C01_one_dim():
    n, m, m2 = sa.size("n", 3), sa.size("m", 2), sa.size("m2", 3)
    e, x, w = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m)
    y, v = sa.arr("y", m2), sa.arr("v", m2)
    h = Hist1d(bins=e)
    sa.check("new histogram is empty", h.is_empty, True)
    sa.check("new histogram has zero counts", h.bin_counts, np.zeros(n))
    sa.check("new histogram has zero errors", h.bin_errors_sq, np.zeros(n))
    h.fill(x, w)
    c1, s1 = hist1(e, x, w)
    sa.check("counts after a weighted fill", h.bin_counts, c1)
    sa.check("squared errors after a weighted fill", h.bin_errors_sq, s1)
    sa.check("filled histogram is not empty", h.is_empty, False)
    h.fill(y, v)
    c2, s2 = hist1(e, y, v)
    sa.check("counts after a second fill", h.bin_counts, c1 + c2)
    sa.check("squared errors after a second fill", h.bin_errors_sq, s1 + s2)
    sa.check("errors after a second fill", h.bin_errors, np.sqrt(s1 + s2))
    h.fill(x)
    c3, s3 = hist1(e, x)
    sa.check("counts after an unweighted fill", h.bin_counts, c1 + c2 + c3)
    sa.check("squared errors after an unweighted fill", h.bin_errors_sq, s1 + s2 + s3)


def C01_one_dim_constructor():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, x, w = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m)
    h = Hist1d(bins=e, data=x, weights=w)
    c1, s1 = hist1(e, x, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    sa.check("not empty", h.is_empty, False)
    g = Hist1d(bins=e, data=x)
    c2, s2 = hist1(e, x)
    sa.check("counts without weights", g.bin_counts, c2)
    sa.check("squared errors without weights", g.bin_errors_sq, s2)


def _large(name, k=130000):
    """A sample with a stretch of entries in its middle whose weights vanish: (all values, those with a weight)."""
    x, y = sa.arr(name, 2), sa.arr(name + "_last", 3)
    return np.concatenate((x, np.zeros(k), y)), np.concatenate((x, y))


def C01_large_samples():
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    x, x0 = _large("x")
    w, w0 = _large("w")
    c1, s1 = hist1(e, x0, w0)
    h = Hist1d(bins=e)
    h.fill(x, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    h = Hist1d(bins=e, data=x, weights=w)
    sa.check("counts at construction", h.bin_counts, c1)
    sa.check("squared errors at construction", h.bin_errors_sq, s1)


def C01_large_two_dim_samples():
    nx, ny = sa.size("nx", 2), sa.size("ny", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, x0 = _large("x")
    y, y0 = _large("y")
    w, w0 = _large("w")
    g = Hist2d(bins=(ex, ey), data=(x0, y0), weights=w0)
    h = Hist2d(bins=(ex, ey))
    h.fill((x, y), w)
    sa.check("counts", h.bin_counts, g.bin_counts)
    sa.check("squared errors", h.bin_errors_sq, g.bin_errors_sq)
    h = Hist2d(bins=(ex, ey), data=(x, y), weights=w)
    sa.check("counts at construction", h.bin_counts, g.bin_counts)
    sa.check("squared errors at construction", h.bin_errors_sq, g.bin_errors_sq)


def C01_one_dim_lists():
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    x = [sa.real("x0"), sa.real("x1")]
    w = [sa.real("w0"), sa.real("w1")]
    h = Hist1d(bins=e)
    h.fill(x, w)
    c1, s1 = hist1(e, np.array(x), np.array(w))
    sa.check("counts with lists", h.bin_counts, c1)
    sa.check("squared errors with lists", h.bin_errors_sq, s1)
    g = Hist1d(bins=e, data=x, weights=w)
    sa.check("counts with lists at construction", g.bin_counts, c1)
    sa.check("squared errors with lists at construction", g.bin_errors_sq, s1)


def C01_one_dim_range():
    n, m = sa.size("n", 3), sa.size("m", 2)
    lo = sa.real("lo")
    hi = lo + sa.real("width", lo=0)
    x, w = sa.arr("x", m), sa.arr("w", m)
    h = Hist1d(bins=n, range=(lo, hi))
    sa.check("new histogram has zero counts", h.bin_counts, np.zeros(n))
    h.fill(x, w)
    c1, s1 = hist1(h.bin_edges, x, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    g = Hist1d(bins=n, range=(lo, hi), data=x, weights=w)
    sa.check("counts at construction", g.bin_counts, c1)
    sa.check("squared errors at construction", g.bin_errors_sq, s1)


def _h2(ex, ey, x, y, w=None):
    c, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=w)
    if w is None:
        return c, c
    v, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=w * w)
    return c, v


def C01_two_dim():
    nx, ny, m, m2 = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2), sa.size("m2", 1)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    x2, y2, w2 = sa.arr("x2", m2), sa.arr("y2", m2), sa.arr("w2", m2)
    h = Hist2d(bins=(ex, ey))
    sa.check("new histogram is empty", h.is_empty, True)
    sa.check("new histogram has zero counts", h.bin_counts, np.zeros((nx, ny)))
    sa.check("new histogram has zero errors", h.bin_errors_sq, np.zeros((nx, ny)))
    h.fill((x, y), w)
    c1, s1 = _h2(ex, ey, x, y, w)
    sa.check("counts after a weighted fill", h.bin_counts, c1)
    sa.check("squared errors after a weighted fill", h.bin_errors_sq, s1)
    sa.check("filled histogram is not empty", h.is_empty, False)
    h.fill((x2, y2), w2)
    c2, s2 = _h2(ex, ey, x2, y2, w2)
    sa.check("counts after a second fill", h.bin_counts, c1 + c2)
    sa.check("squared errors after a second fill", h.bin_errors_sq, s1 + s2)
    sa.check("errors after a second fill", h.bin_errors, np.sqrt(s1 + s2))
    h.fill((x, y), None)
    c3, s3 = _h2(ex, ey, x, y)
    sa.check("counts after an unweighted fill", h.bin_counts, c1 + c2 + c3)
    sa.check("squared errors after an unweighted fill", h.bin_errors_sq, s1 + s2 + s3)


def C01_two_dim_constructor():
    nx, ny, m = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    h = Hist2d(bins=(ex, ey), data=(x, y), weights=w)
    c1, s1 = _h2(ex, ey, x, y, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    sa.check("not empty", h.is_empty, False)
    g = Hist2d(bins=(ex, ey), data=(x, y))
    c2, s2 = _h2(ex, ey, x, y)
    sa.check("counts without weights", g.bin_counts, c2)
    sa.check("squared errors without weights", g.bin_errors_sq, s2)


def C01_two_dim_lists():
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x = [sa.real("x0"), sa.real("x1")]
    y = [sa.real("y0"), sa.real("y1")]
    w = [sa.real("w0"), sa.real("w1")]
    h = Hist2d(bins=(ex, ey), data=(x, y), weights=w)
    c1, s1 = _h2(ex, ey, np.array(x), np.array(y), np.array(w))
    sa.check("counts with lists", h.bin_counts, c1)
    sa.check("squared errors with lists", h.bin_errors_sq, s1)


def C01_two_dim_range():
    nx, ny, m = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2)
    a, b = sa.real("a"), sa.real("b")
    rx = (a, a + sa.real("wa", lo=0))
    ry = (b, b + sa.real("wb", lo=0))
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    h = Hist2d(bins=(nx, ny), range=(rx, ry))
    sa.check("new histogram has zero counts", h.bin_counts, np.zeros((nx, ny)))
    h.fill((x, y), w)
    c1, s1 = _h2(h.bin_edges[0], h.bin_edges[1], x, y, w)
    sa.check("counts", h.bin_counts, c1)
    sa.check("squared errors", h.bin_errors_sq, s1)
    g = Hist2d(bins=(nx, ny), range=(rx, ry), data=(x, y), weights=w)
    sa.check("counts at construction", g.bin_counts, c1)
    sa.check("squared errors at construction", g.bin_errors_sq, s1)


def C01_columns_of_a_data_set():
    """Series whose labels do not start at zero."""
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, x, w = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m)
    c1, s1 = hist1(e, x, w)
    h = Hist1d(bins=e)
    h.fill(pd.Series(x), pd.Series(w))
    sa.check("counts of two columns", h.bin_counts, c1)
    sa.check("squared errors of two columns", h.bin_errors_sq, s1)
    g = Hist1d(bins=e, data=pd.Series(x), weights=w)
    sa.check("counts of a column with an array of weights", g.bin_counts, c1)
    sa.check("squared errors of a column with an array of weights", g.bin_errors_sq, s1)
    g = Hist1d(bins=e, data=x, weights=pd.Series(w))
    sa.check("counts of an array with a column of weights", g.bin_counts, c1)
    sa.check("squared errors of an array with a column of weights", g.bin_errors_sq, s1)
    c2, s2 = hist1(e, x)
    g = Hist1d(bins=e, data=pd.Series(x))
    sa.check("counts of a column without weights", g.bin_counts, c2)
    sa.check("squared errors of a column without weights", g.bin_errors_sq, s2)


def C01_columns_of_a_data_set_2d():
    nx, ny, m = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    h = Hist2d(bins=(ex, ey))
    h.fill((pd.Series(x), pd.Series(y)), pd.Series(w))
    c1, s1 = _h2(ex, ey, x, y, w)
    sa.check("counts of three columns", h.bin_counts, c1)
    sa.check("squared errors of three columns", h.bin_errors_sq, s1)
    h = Hist2d(bins=(ex, ey), data=(x, pd.Series(y)))
    c2, s2 = _h2(ex, ey, x, y)
    sa.check("counts of columns without weights", h.bin_counts, c2)
    sa.check("squared errors of columns without weights", h.bin_errors_sq, s2)
    h = Hist2d(bins=(ex, ey), data=np.stack([x, y]), weights=w)
    sa.check("counts of one array", h.bin_counts, c1)
    sa.check("squared errors of one array", h.bin_errors_sq, s1)
    h = Hist2d(bins=(ex, ey), data=[x, y], weights=w)
    sa.check("counts of a list of arrays", h.bin_counts, c1)
    sa.check("squared errors of a list of arrays", h.bin_errors_sq, s1)


def C01_integers():
    """Integer data, weights and edges."""
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, x, w = sa.edges("e", n), sa.iarr("ix", m), sa.iarr("iw", m)
    f = sa.arr("fw", m)
    c1, s1 = hist1(e, x, w)
    h = Hist1d(bins=e)
    h.fill(x, w)
    sa.check("counts of integers", h.bin_counts, c1)
    sa.check("squared errors of integers", h.bin_errors_sq, s1)
    h.fill(x, f)
    c2, s2 = hist1(e, x, f)
    sa.check("counts of integers with other weights", h.bin_counts, c1 + c2)
    sa.check("squared errors of integers with other weights", h.bin_errors_sq, s1 + s2)
    h.fill(x)
    c3, s3 = hist1(e, x)
    sa.check("counts of integers without weights", h.bin_counts, c1 + c2 + c3)
    sa.check("squared errors of integers without weights", h.bin_errors_sq, s1 + s2 + s3)
    g = Hist1d(bins=e, data=[1, 2], weights=[3, -2])
    c4, s4 = hist1(e, np.array([1, 2]), np.array([3, -2]))
    sa.check("counts of lists of integers", g.bin_counts, c4)
    sa.check("squared errors of lists of integers", g.bin_errors_sq, s4)


def C01_whole_numbers_with_fractional_weights():
    """[conc] Whole numbers as data, fractions as weights."""
    for data, edges in (([0, 1, 1, 2], [0, 1, 2, 3]), ([3, 3, 5, 4], [3, 4, 5])):
        w = [0.5, 1.5, 2.5, 3.25]
        c, s = hist1(np.array(edges), np.array(data), np.array(w))
        for x in (data, np.array(data)):
            for v in (w, np.array(w)):
                for b in (edges, np.array(edges)):
                    h = Hist1d(b)
                    h.fill(x, v)
                    sa.check("counts", h.bin_counts, c)
                    sa.check("squared errors", h.bin_errors_sq, s)
        two = Hist2d([edges, edges])
        two.fill([data, data], w)
        sa.check("counts of two axes", two.bin_counts, np.diag(c))
        sa.check("squared errors of two axes", two.bin_errors_sq, np.diag(s))
        two.fill(np.array([data, data]), w)
        two.fill(np.array([data, data]), np.array(w))
        sa.check("counts of two axes, three times", two.bin_counts, 3 * np.diag(c))
        sa.check("squared errors of two axes, three times", two.bin_errors_sq, 3 * np.diag(s))


def C02_edges_1d():
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    h = Hist1d(bins=e)
    sa.check("edges", h.bin_edges, e)
    sa.check("number of bins", h.num_bins, n)
    sa.check("shape", h.shape, (n,))
    sa.check("range", tuple(h.range), (e[0], e[-1]))
    sa.check("mid points", h.bin_mids, (e[1:] + e[:-1]) / 2)
    sa.check("widths", h.bin_widths, e[1:] - e[:-1])
    sa.check("number of counts", h.bin_counts.shape, (n,))


def C02_range_1d():
    n = sa.size("n", 3)
    lo = sa.real("lo")
    w = sa.real("width", lo=0)
    hi = lo + w
    h = Hist1d(bins=n, range=(lo, hi))
    e = np.linspace(lo, hi, n + 1)
    sa.check("edges", h.bin_edges, e)
    sa.check("number of bins", h.num_bins, n)
    sa.check("shape", h.shape, (n,))
    sa.check("range", tuple(h.range), (lo, hi))
    sa.check("mid points", h.bin_mids, lo + (np.arange(n) + 0.5) * w / n)
    sa.check("widths", h.bin_widths, np.ones(n) * w / n)


def C02_tuple_1d():
    n = sa.size("n", 3)
    lo = sa.real("lo")
    w = sa.real("width", lo=0)
    h = Hist1d(bins=(n,), range=(lo, lo + w))
    sa.check("edges", h.bin_edges, np.linspace(lo, lo + w, n + 1))
    sa.check("number of bins", h.num_bins, n)
    sa.check("shape", h.shape, (n,))
    sa.check("range", tuple(h.range), (lo, lo + w))


def C02_list_1d():
    a = sa.real("a")
    b = a + sa.real("w1", lo=0)
    c = b + sa.real("w2", lo=0)
    h = Hist1d(bins=[a, b, c])
    sa.check("edges", h.bin_edges, np.array([a, b, c]))
    sa.check("number of bins", h.num_bins, 2)
    sa.check("shape", h.shape, (2,))
    sa.check("range", tuple(h.range), (a, c))
    sa.check("mid points", h.bin_mids, np.array([(a + b) / 2, (b + c) / 2]))
    sa.check("widths", h.bin_widths, np.array([b - a, c - b]))


def C02_edges_2d():
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    for h in (Hist2d(bins=(ex, ey)), Hist2d(bins=[ex, ey])):
        sa.check("x edges", h.bin_edges[0], ex)
        sa.check("y edges", h.bin_edges[1], ey)
        sa.check("number of axes", len(h.bin_edges), 2)
        sa.check("x_edges", h.x_edges, ex)
        sa.check("y_edges", h.y_edges, ey)
        sa.check("number of bins", tuple(h.num_bins), (nx, ny))
        sa.check("shape", h.shape, (nx, ny))
        sa.check("x range", tuple(h.range[0]), (ex[0], ex[-1]))
        sa.check("y range", tuple(h.range[1]), (ey[0], ey[-1]))
        sa.check("xrange", tuple(h.xrange), (ex[0], ex[-1]))
        sa.check("yrange", tuple(h.yrange), (ey[0], ey[-1]))
        sa.check("x mid points", h.bin_mids[0], (ex[1:] + ex[:-1]) / 2)
        sa.check("y mid points", h.bin_mids[1], (ey[1:] + ey[:-1]) / 2)
        sa.check("x widths", h.bin_widths[0], ex[1:] - ex[:-1])
        sa.check("y widths", h.bin_widths[1], ey[1:] - ey[:-1])


def C02_range_2d():
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    a, b = sa.real("a"), sa.real("b")
    wa, wb = sa.real("wa", lo=0), sa.real("wb", lo=0)
    h = Hist2d(bins=(nx, ny), range=((a, a + wa), (b, b + wb)))
    ex, ey = np.linspace(a, a + wa, nx + 1), np.linspace(b, b + wb, ny + 1)
    sa.check("x edges", h.bin_edges[0], ex)
    sa.check("y edges", h.bin_edges[1], ey)
    sa.check("number of bins", tuple(h.num_bins), (nx, ny))
    sa.check("shape", h.shape, (nx, ny))
    sa.check("x range", tuple(h.range[0]), (a, a + wa))
    sa.check("y range", tuple(h.range[1]), (b, b + wb))
    sa.check("x mid points", h.bin_mids[0], (ex[1:] + ex[:-1]) / 2)
    sa.check("y mid points", h.bin_mids[1], (ey[1:] + ey[:-1]) / 2)
    sa.check("x widths", h.bin_widths[0], ex[1:] - ex[:-1])
    sa.check("y widths", h.bin_widths[1], ey[1:] - ey[:-1])


def C02_lists_2d():
    a = sa.real("a")
    b = a + sa.real("w1", lo=0)
    c = b + sa.real("w2", lo=0)
    d = c + sa.real("w3", lo=0)
    h = Hist2d(bins=[[a, b, c, d], [a, c]])
    sa.check("x edges", h.bin_edges[0], np.array([a, b, c, d]))
    sa.check("y edges", h.bin_edges[1], np.array([a, c]))
    sa.check("number of bins", tuple(h.num_bins), (3, 1))
    sa.check("shape", h.shape, (3, 1))
    sa.check("x range", tuple(h.range[0]), (a, d))
    sa.check("y range", tuple(h.range[1]), (a, c))
    sa.check("x widths", h.bin_widths[0], np.array([b - a, c - b, d - c]))


def C02_edges_and_another_range():
    """Explicit edges are taken as they are, whatever range is given with them."""
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    r = (sa.real("rlo"), sa.real("rhi"))
    for h in (Hist1d(e, r), Hist1d(bins=e, range=r), Hist1d(e, r, sa.arr("x", m), sa.arr("w", m))):
        sa.check("edges", h.bin_edges, e)
        sa.check("number of bins", h.num_bins, n)
        sa.check("shape", h.shape, (n,))
        sa.check("range", tuple(h.range), (e[0], e[-1]))
        sa.check("mid points", h.bin_mids, (e[1:] + e[:-1]) / 2)
        sa.check("widths", h.bin_widths, e[1:] - e[:-1])
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    q = (sa.real("qlo"), sa.real("qhi"))
    for h in (Hist2d((ex, ey), (r, q)), Hist2d(bins=[ex, ey], range=[r, q])):
        sa.check("x edges", h.bin_edges[0], ex)
        sa.check("y edges", h.bin_edges[1], ey)
        sa.check("number of bins", tuple(h.num_bins), (nx, ny))
        sa.check("shape", h.shape, (nx, ny))
        sa.check("x range", tuple(h.range[0]), (ex[0], ex[-1]))
        sa.check("y range", tuple(h.range[1]), (ey[0], ey[-1]))


def C02_filled_and_binned():
    """Filling and building from binned data report the same binning."""
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    f = Hist1d(e)
    f.fill(sa.arr("x", m), sa.arr("w", m))
    f.fill(sa.arr("x", m))
    b = Hist1d.from_binned_data(sa.arr("c", n), e, sa.arr("s", n, lo=0))
    b.fill(sa.arr("x", m))
    for h in (f, b, Hist1d.from_binned_data(sa.arr("c", n, lo=0), e)):
        sa.check("edges", h.bin_edges, e)
        sa.check("number of bins", h.num_bins, n)
        sa.check("shape", h.shape, (n,))
        sa.check("range", tuple(h.range), (e[0], e[-1]))
        sa.check("mid points", h.bin_mids, (e[1:] + e[:-1]) / 2)
        sa.check("widths", h.bin_widths, e[1:] - e[:-1])
        sa.check("number of counts", h.bin_counts.shape, (n,))
        sa.check("number of errors", h.bin_errors.shape, (n,))
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    b = Hist2d.from_binned_data(sa.arr("c2", nx, ny), (ex, ey), sa.arr("s2", nx, ny, lo=0))
    b.fill((sa.arr("x", m), sa.arr("y", m)), sa.arr("w", m))
    for h in (b, Hist2d.from_binned_data(sa.arr("c2p", nx, ny, lo=0), [ex, ey])):
        sa.check("x edges", h.bin_edges[0], ex)
        sa.check("y edges", h.bin_edges[1], ey)
        sa.check("number of bins", tuple(h.num_bins), (nx, ny))
        sa.check("shape", h.shape, (nx, ny))
        sa.check("x range", tuple(h.range[0]), (ex[0], ex[-1]))
        sa.check("y range", tuple(h.range[1]), (ey[0], ey[-1]))
        sa.check("number of counts", h.bin_counts.shape, (nx, ny))
        px, py = h.x_projection(), h.y_projection()
        sa.check("edges of the x projection", px.bin_edges, ex)
        sa.check("edges of the y projection", py.bin_edges, ey)
        sa.check("range of the x projection", tuple(px.range), (ex[0], ex[-1]))
        sa.check("range of the y projection", tuple(py.range), (ey[0], ey[-1]))


def C02_integer_edges():
    """[conc] Edges given as integers keep their values and fractional mid points."""
    a = sa.integer("a")
    b = a + sa.integer("w1", lo=1)
    c = b + sa.integer("w2", lo=1)
    for edges in ([a, b, c], np.array([a, b, c])):
        h = Hist1d(edges)
        sa.check("edges", h.bin_edges, np.array([a, b, c]))
        sa.check("mid points", h.bin_mids, np.array([(a + b) / 2, (b + c) / 2]))
        sa.check("widths", h.bin_widths, np.array([b - a, c - b]))
        sa.check("range", tuple(h.range), (a, c))
        h = Hist2d([edges, edges])
        sa.check("x mid points", h.bin_mids[0], np.array([(a + b) / 2, (b + c) / 2]))
        sa.check("y widths", h.bin_widths[1], np.array([b - a, c - b]))


def C03_one_dim():
    n = sa.size("n", 3)
    e, c, s = sa.edges("e", n), sa.arr("c", n, lo=0, zg=True), sa.arr("s", n, lo=0, zg=True)
    k = sa.arr("k", n)
    h = Hist1d.from_binned_data(k, e, s)
    sa.check("counts of any sign", h.bin_counts, k)
    sa.check("errors of counts of any sign", h.bin_errors, s)
    h = Hist1d.from_binned_data(c, e, s)
    sa.check("counts", h.bin_counts, c)
    sa.check("errors", h.bin_errors, s)
    sa.check("squared errors", h.bin_errors_sq, s * s)
    sa.check("edges", h.bin_edges, e)
    sa.check("number of bins", h.num_bins, n)
    sa.check("range", tuple(h.range), (e[0], e[-1]))
    sa.check("counts as filled", h.is_empty, False)
    g = Hist1d.from_binned_data(c, e)
    sa.check("counts without errors", g.bin_counts, c)
    sa.check("squared default errors", g.bin_errors_sq, c)
    sa.check("default errors", g.bin_errors, np.sqrt(c))
    sa.check("counts as filled without errors", g.is_empty, False)
    g.fill(sa.arr("x", 2), sa.arr("w", 2))
    d, v = hist1(e, sa.arr("x", 2), sa.arr("w", 2))
    sa.check("counts after filling on top", g.bin_counts, c + d)
    sa.check("squared errors after filling on top", g.bin_errors_sq, c + v)


def C03_one_dim_integers():
    n = sa.size("n", 3)
    e, c = sa.edges("e", n), sa.iarr("c", n, lo=0, zg=True)
    h = Hist1d.from_binned_data(c, e)
    sa.check("counts", h.bin_counts, c)
    sa.check("squared default errors", h.bin_errors_sq, c)
    h.fill(sa.arr("x", 2), sa.arr("w", 2))
    d, v = hist1(e, sa.arr("x", 2), sa.arr("w", 2))
    sa.check("counts after filling on top", h.bin_counts, c + d)
    sa.check("squared errors after filling on top", h.bin_errors_sq, c + v)
    s = sa.iarr("s", n, lo=0, zg=True)
    g = Hist1d.from_binned_data(c, e, s)
    sa.check("squared integer errors", g.bin_errors_sq, s * s)
    g.fill(sa.arr("x", 2), sa.arr("w", 2))
    sa.check("counts after filling on top of integer errors", g.bin_counts, c + d)
    sa.check("squared errors after filling on top of integer errors", g.bin_errors_sq, s * s + v)


def C03_one_dim_lists():
    e = sa.edges("e", 3)
    c = sa.arr("c", 3, lo=0, zg=True)
    g = Hist1d.from_binned_data([c[0], c[1], c[2]], e)
    sa.check("counts without errors", g.bin_counts, c)
    sa.check("squared default errors", g.bin_errors_sq, c)


def C03_two_dim_integers():
    e = sa.edges("ex", 2), sa.edges("ey", 3)
    c, s = sa.iarr("c", 2, 3, lo=0, zg=True), sa.iarr("s", 2, 3, lo=0, zg=True)
    x, y, w = sa.arr("x", 2), sa.arr("y", 2), sa.arr("w", 2)
    d, v = _h2(e[0], e[1], x, y, w)
    h = Hist2d.from_binned_data(c, e, s)
    sa.check("counts", h.bin_counts, c)
    sa.check("squared errors", h.bin_errors_sq, s * s)
    h.fill((x, y), w)
    sa.check("counts after filling on top", h.bin_counts, c + d)
    sa.check("squared errors after filling on top", h.bin_errors_sq, s * s + v)
    g = Hist2d.from_binned_data(c, e)
    sa.check("squared default errors", g.bin_errors_sq, c)
    g.fill((x, y), w)
    sa.check("squared default errors after filling on top", g.bin_errors_sq, c + v)


def C03_two_dim():
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    c, s = sa.arr("c", nx, ny, lo=0, zg=True), sa.arr("s", nx, ny, lo=0, zg=True)
    k = sa.arr("k", nx, ny)
    h = Hist2d.from_binned_data(k, (ex, ey), s)
    sa.check("counts of any sign", h.bin_counts, k)
    sa.check("errors of counts of any sign", h.bin_errors, s)
    h = Hist2d.from_binned_data(c, (ex, ey), s)
    sa.check("counts", h.bin_counts, c)
    sa.check("errors", h.bin_errors, s)
    sa.check("squared errors", h.bin_errors_sq, s * s)
    sa.check("x edges", h.bin_edges[0], ex)
    sa.check("y edges", h.bin_edges[1], ey)
    sa.check("number of bins", tuple(h.num_bins), (nx, ny))
    sa.check("counts as filled", h.is_empty, False)
    g = Hist2d.from_binned_data(c, (ex, ey))
    sa.check("counts without errors", g.bin_counts, c)
    sa.check("squared default errors", g.bin_errors_sq, c)
    sa.check("default errors", g.bin_errors, np.sqrt(c))
    sa.check("counts as filled without errors", g.is_empty, False)


def _projections(nx, ny):
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    c, s = sa.arr("c", nx, ny, lo=0, zg=True), sa.arr("s", nx, ny, lo=0, zg=True)
    h = Hist2d.from_binned_data(c, (ex, ey), s)
    px = h.x_projection()
    py = h.y_projection()
    sa.check("x projection counts", px.bin_counts, np.sum(c, axis=1))
    sa.check("x projection squared errors", px.bin_errors_sq, np.sum(s ** 2, axis=1))
    sa.check("x projection edges", px.bin_edges, ex)
    sa.check("x projection bins", px.num_bins, nx)
    sa.check("y projection counts", py.bin_counts, np.sum(c, axis=0))
    sa.check("y projection squared errors", py.bin_errors_sq, np.sum(s ** 2, axis=0))
    sa.check("y projection edges", py.bin_edges, ey)
    sa.check("y projection bins", py.num_bins, ny)
    sa.check("projections are one dimensional histograms", isinstance(px, Hist1d) and isinstance(py, Hist1d), True)


def C04_projections():
    _projections(sa.size("nx", 2), sa.size("ny", 3))


def C04_projections_of_a_square():
    """[conc]"""
    _projections(3, 3)


def C04_current_contents():
    nx, ny, m = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    x2, y2, w2 = sa.arr("x2", m), sa.arr("y2", m), sa.arr("w2", m)
    h = Hist2d(bins=(ex, ey), data=(x, y), weights=w)
    c1, s1 = _h2(ex, ey, x, y, w)
    p1 = h.x_projection()
    q1 = h.y_projection()
    sa.check("x projection", p1.bin_counts, np.sum(c1, axis=1))
    h.fill((x2, y2), w2)
    c2, s2 = _h2(ex, ey, x2, y2, w2)
    c, s = c1 + c2, s1 + s2
    p2 = h.x_projection()
    q2 = h.y_projection()
    sa.check("x projection after filling", p2.bin_counts, np.sum(c, axis=1))
    sa.check("x projection squared errors after filling", p2.bin_errors_sq, np.sum(s, axis=1))
    sa.check("y projection after filling", q2.bin_counts, np.sum(c, axis=0))
    sa.check("y projection squared errors after filling", q2.bin_errors_sq, np.sum(s, axis=0))
    sa.check("earlier x projection", p1.bin_counts, np.sum(c1, axis=1))
    sa.check("earlier y projection", q1.bin_counts, np.sum(c1, axis=0))
    p2.fill(x, w)
    sa.check("filling a projection leaves the histogram", h.bin_counts, c)
    sa.check("filling a projection leaves the errors", h.bin_errors_sq, s)


def C05_histogram_1d():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, x, w, y, v = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m), sa.arr("y", m), sa.arr("v", m)
    keep = sa.snapshot([e, x, w, y, v])
    h = Hist1d(bins=e, data=x, weights=w)
    h.fill(y, v)
    h.fill(x)
    for k, a in enumerate([e, x, w, y, v]):
        sa.check("argument after filling", a, keep[k])
    sa.check("edges of the histogram", h.bin_edges, keep[0])
    c, s = sa.arr("c", n, lo=0), sa.arr("s", n, lo=0)
    keep2 = sa.snapshot([c, e, s])
    g = Hist1d.from_binned_data(c, e, s)
    g.fill(x, w)
    g.fill(y, v)
    sa.check("counts passed in", c, keep2[0])
    sa.check("edges passed in", e, keep2[1])
    sa.check("errors passed in", s, keep2[2])
    f = Hist1d.from_binned_data(c, e)
    f.fill(x, w)
    sa.check("counts passed in without errors", c, keep2[0])


def C05_histogram_2d():
    nx, ny, m = sa.size("nx", 2), sa.size("ny", 3), sa.size("m", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    x, y, w = sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)
    bins = [ex, ey]
    keep = sa.snapshot([ex, ey, x, y, w])
    h = Hist2d(bins=bins, data=(x, y), weights=w)
    h.fill((y, x), w)
    h.fill((x, y))
    for k, a in enumerate([ex, ey, x, y, w]):
        sa.check("argument after filling", a, keep[k])
    sa.check("list of edges", len(bins), 2)
    c, s = sa.arr("c", nx, ny, lo=0), sa.arr("s", nx, ny, lo=0)
    keep2 = sa.snapshot([c, s])
    g = Hist2d.from_binned_data(c, (ex, ey), s)
    g.fill((x, y), w)
    sa.check("counts passed in", c, keep2[0])
    sa.check("errors passed in", s, keep2[1])
    f = Hist2d.from_binned_data(c, (ex, ey))
    f.fill((x, y), w)
    sa.check("counts passed in without errors", c, keep2[0])


def C05_changes_of_the_caller():
    """Changing an array after handing it over does not reach the histogram."""
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, c, s = sa.edges("e", n), sa.arr("c", n, lo=0), sa.arr("s", n, lo=0)
    keep = sa.snapshot([e, c, s])
    h = Hist1d.from_binned_data(c, e, s)
    g = Hist1d(bins=e)
    k = Hist2d(bins=[e, e])
    e[0] = e[0] - 1
    c[0] = c[0] + 5
    s[0] = s[0] + 7
    sa.check("edges", h.bin_edges, keep[0])
    sa.check("counts", h.bin_counts, keep[1])
    sa.check("errors", h.bin_errors, keep[2])
    sa.check("edges of an empty histogram", g.bin_edges, keep[0])
    sa.check("edges of a two dimensional histogram", k.bin_edges[0], keep[0])


def C05_lists():
    a = sa.real("a")
    b = a + sa.real("w1", lo=0)
    e = [a, b]
    x, w = [sa.real("x0"), sa.real("x1")], [sa.real("v0"), sa.real("v1")]
    keep = sa.snapshot([e, x, w])
    h = Hist1d(bins=e, data=x, weights=w)
    h.fill(x, w)
    sa.check("edges passed in", e, keep[0])
    sa.check("data passed in", x, keep[1])
    sa.check("weights passed in", w, keep[2])


def C05_columns_of_a_data_set():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e, x, w = sa.edges("e", n), sa.arr("x", m), sa.arr("w", m)
    y = sa.arr("y", m)
    xs, ys, ws = pd.Series(x), pd.Series(y), pd.Series(w)
    h = Hist1d(bins=e, data=xs, weights=ws)
    h.fill(xs, ws)
    h.fill(xs)
    g = Hist2d(bins=(e, e), data=(xs, ys), weights=ws)
    g.fill((xs, ys), ws)
    g.fill((xs, ys))
    sa.check("data", xs.values, x)
    sa.check("data of the other axis", ys.values, y)
    sa.check("weights", ws.values, w)
    sa.check("arrays behind them", np.stack([x, y, w]), np.stack([sa.arr("x", m), sa.arr("y", m), sa.arr("w", m)]))
