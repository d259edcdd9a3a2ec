"""C05-C10: templates."""
import numpy as np
import pandas as pd
import sa
from common import attempt, hist1
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d


def _contents(name, *shape, plain=False):
    """Contents and errors: any sign, zeros and errors of empty bins for arrays of
    any length, positive for arrays of a given length (and for the variations, where
    the combination of all cases is not affordable)."""
    if sa.is_symbolic() and not plain:
        return sa.arr(name + "_c", *shape, zg=True), sa.arr(name + "_s", *shape, lo=0, zg=True)
    return sa.arr(name + "_pc", *shape, lo=0), sa.arr(name + "_ps", *shape, lo=0)


def _hist1d(name, n, e, plain=False):
    c, s = _contents(name, n, plain=plain)
    return Hist1d.from_binned_data(c, e, s), c, s


def _t1(name="t", plain=False):
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    h, c, s = _hist1d(name, n, e, plain)
    return Template1d(name, "x", h), n, c, s, e


def _t2(name="t", plain=False, square=False):
    nx, ny = sa.size("nx", 2), (2 if square else sa.size("ny", 3))
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    c, s = _contents(name, nx, ny, plain=plain)
    h = Hist2d.from_binned_data(c, (ex, ey), s)
    return Template2d(name, ("x", "y"), h), nx, ny, c, s, ex, ey


def _var(s):
    """Variances with the documented value for vanishing errors."""
    v = s ** 2
    return np.where(v == 0, 1e-14, v)


def _eps(var, c):
    safe = np.where(c == 0, 1.0, c)
    return np.where(c == 0, 1e-7, np.sqrt(var) / safe)


def _fractions(theta, c, eps):
    raw = c * (1 + theta * eps)
    tot = np.sum(raw)
    safe = np.where(tot == 0, 1.0, tot)
    return np.where(tot == 0, 0.0, raw / safe)


def C06_fractions_1d():
    t, n, c, s, e = _t1()
    theta = sa.arr("theta", n)
    eps = _eps(_var(s), c)
    sa.check("fractions", t.fractions(theta), _fractions(theta, c, eps))
    sa.check("fractions at zero nuisance parameters", t.fractions(np.zeros(n)), _fractions(np.zeros(n), c, eps))
    sa.check("initial yield", t.yield_param, np.sum(c))
    sa.check("initial nuisance parameters", t.nui_params, np.zeros(n))
    sa.check("initial values", t.values, np.sum(c) * _fractions(np.zeros(n), c, eps))
    y = sa.real("y")
    t.yield_param = y
    t.nui_params = theta
    f = _fractions(theta, c, eps)
    sa.check("values", t.values, y * f)
    sa.check("errors", t.errors, eps * (y * f))
    sa.check("shape", t.shape, (n,))
    sa.check("number of bins", t.num_bins, n)
    sa.check("edges", t.bin_edges, e)
    sa.check("range", tuple(t.range), (e[0], e[-1]))
    sa.check("bins", tuple(t.bins), (n,))


def C06_new_template_reproduces_histogram():
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    c = sa.arr("c", n, lo=0)
    h = Hist1d.from_binned_data(c, e)
    t = Template1d("t", "x", h)
    sa.check("values", t.values, c)
    sa.check("errors", t.errors, np.sqrt(c))
    nx, ny = sa.size("nx", 2), sa.size("ny", 3)
    d = sa.arr("d", nx, ny, lo=0)
    g = Hist2d.from_binned_data(d, (sa.edges("ex", nx), sa.edges("ey", ny)))
    t = Template2d("t", ("x", "y"), g)
    sa.check("two dimensional values", t.values, d)
    sa.check("two dimensional errors", t.errors, np.sqrt(d))


def C06_empty_template():
    n = sa.size("n", 3)
    h = Hist1d(bins=sa.edges("e", n))
    t = Template1d("t", "x", h)
    theta = sa.arr("theta", n)
    sa.check("fractions", t.fractions(theta), np.zeros(n))
    t.yield_param = sa.real("y")
    sa.check("values", t.values, np.zeros(n))
    sa.check("errors", t.errors, np.zeros(n))


def _C06_fractions_2d(square):
    t, nx, ny, c, s, ex, ey = _t2(square=square)
    theta = sa.arr("theta", nx * ny)
    eps = _eps(_var(s), c)
    th2 = theta.reshape((nx, ny))
    f = _fractions(th2, c, eps)
    sa.check("fractions", t.fractions(theta), f.flatten())
    sa.check("initial yield", t.yield_param, np.sum(c))
    sa.check("initial nuisance parameters", t.nui_params, np.zeros(nx * ny))
    y = sa.real("y")
    t.yield_param = y
    t.nui_params = theta
    sa.check("values", t.values, y * f)
    sa.check("errors", t.errors, eps * (y * f))
    sa.check("shape", t.shape, (nx, ny))
    sa.check("number of bins", t.num_bins, nx * ny)
    sa.check("bins", tuple(t.bins), (nx, ny))
    sa.check("x edges", t.bin_edges[0], ex)
    sa.check("y edges", t.bin_edges[1], ey)


def C06_fractions_2d():
    _C06_fractions_2d(False)


def C06_fractions_2d_square():
    """[conc]"""
    _C06_fractions_2d(True)


def C06_errors_follow_covariance():
    t, n, c, s, e = _t1()
    m = sa.symmetric("m", n)
    t.add_cov_mat(m)
    eps = _eps(_var(s) + np.diag(m), c)
    theta = sa.arr("theta", n)
    y = sa.real("y")
    t.yield_param = y
    t.nui_params = theta
    f = _fractions(theta, c, eps)
    sa.check("fractions", t.fractions(theta), f)
    sa.check("values", t.values, y * f)
    sa.check("errors", t.errors, eps * (y * f))


def _corr(cov):
    d = np.sqrt(np.diag(cov))
    return cov / np.outer(d, d)


def C07_initial():
    t, n, c, s, e = _t1()
    var = _var(s)
    sa.check("covariance", t.cov_mat, np.diag(var))
    sa.check("correlation", t.corr, np.eye(n))
    sa.check("inverse correlation", t.inv_corr_mat, np.eye(n))
    sa.check("number of contributions", len(t.cov_mats), 1)
    sa.check("contribution", t.cov_mats[0], np.diag(var))
    t, nx, ny, c, s, ex, ey = _t2()
    var = _var(s).flatten()
    sa.check("two dimensional covariance", t.cov_mat, np.diag(var))
    sa.check("two dimensional correlation", t.corr, np.eye(nx * ny))
    sa.check("two dimensional inverse correlation", t.inv_corr_mat, np.eye(nx * ny))


def C07_additions():
    t, n, c, s, e = _t1()
    m1, m2 = sa.symmetric("m1", n), sa.symmetric("m2", n)
    var = _var(s)
    t.add_cov_mat(m1)
    cov = np.diag(var) + m1
    corr = _corr(cov)
    sa.check("covariance", t.cov_mat, cov)
    sa.check("correlation", t.corr, corr)
    sa.check("inverse correlation", t.inv_corr_mat, np.linalg.inv(corr))
    sa.check("number of contributions", len(t.cov_mats), 2)
    sa.check("statistical contribution", t.cov_mats[0], np.diag(var))
    sa.check("first contribution", t.cov_mats[1], m1)
    y = sa.real("y")
    t.yield_param = y
    v = t.values
    sa.check("relative errors", t.errors, _eps(np.diag(cov), c) * v)
    t.add_cov_mat(m2)
    cov = cov + m2
    corr = _corr(cov)
    sa.check("covariance after two", t.cov_mat, cov)
    sa.check("correlation after two", t.corr, corr)
    sa.check("inverse correlation after two", t.inv_corr_mat, np.linalg.inv(corr))
    sa.check("number of contributions after two", len(t.cov_mats), 3)
    sa.check("statistical contribution after two", t.cov_mats[0], np.diag(var))
    sa.check("first contribution after two", t.cov_mats[1], m1)
    sa.check("second contribution after two", t.cov_mats[2], m2)
    sa.check("relative errors after two", t.errors, _eps(np.diag(cov), c) * t.values)


def C07_additions_of_nothing():
    """Contributions with a vanishing diagonal or vanishing altogether are contributions."""
    t, n, c, s, e = _t1()
    var = _var(s)
    off = sa.symmetric("m", n)
    off = off - np.diag(np.diag(off))
    cov = np.diag(var)
    for m in (np.zeros((n, n)), off):
        k = len(t.cov_mats)
        t.add_cov_mat(m)
        cov = cov + m
        sa.check("number of contributions", len(t.cov_mats), k + 1)
        sa.check("contribution", t.cov_mats[-1], m)
        sa.check("covariance", t.cov_mat, cov)
        sa.check("correlation", t.corr, _corr(cov))
        sa.check("inverse correlation", t.inv_corr_mat, np.linalg.inv(_corr(cov)))


def _C07_two_dimensional_variation(square):
    t, nx, ny, c, s, ex, ey = _t2(plain=True, square=square)
    m = sa.size("m", 2)
    x, y, u, d = sa.arr("x", m), sa.arr("y", m), sa.arr("u", m), sa.arr("d", m)
    t.add_variation((x, y), u, d)
    sa.check("number of contributions", len(t.cov_mats), 2)
    sa.check("statistical contribution", t.cov_mats[0], np.diag(_var(s).flatten()))
    sa.check("covariance", t.cov_mat, t.cov_mats[0] + t.cov_mats[1])


def C07_two_dimensional_variation():
    _C07_two_dimensional_variation(False)


def C07_two_dimensional_variation_square():
    """[conc]"""
    _C07_two_dimensional_variation(True)


def C07_two_dimensional_consistency():
    t, nx, ny, c, s, ex, ey = _t2(plain=True)
    m = 1
    x, y, u, d = sa.arr("x", m), sa.arr("y", m), sa.arr("u", m), sa.arr("d", m)
    t.add_variation((x, y), u, d)
    corr = _corr(t.cov_mat)
    sa.check("correlation", t.corr, corr)
    sa.check("inverse correlation", t.inv_corr_mat, np.linalg.inv(t.corr))
    t.yield_param = sa.real("yy")
    v = t.values
    sa.check("relative errors", t.errors, _eps(np.diag(t.cov_mat).reshape((nx, ny)), c) * v)


def C07_wrong_shape():
    t, n, c, s, e = _t1()
    k = n + 1
    for bad in (np.ones((k, k)), np.ones((n, k)), np.ones((k, n)), np.ones(n)):
        keep = sa.snapshot([t.cov_mat, t.corr, t.inv_corr_mat, t.cov_mats, t.errors])
        r = attempt(t.add_cov_mat, bad)
        sa.check("wrong shape is refused", r.raised, True)
        sa.check("covariance", t.cov_mat, keep[0])
        sa.check("correlation", t.corr, keep[1])
        sa.check("inverse correlation", t.inv_corr_mat, keep[2])
        sa.check("contributions", t.cov_mats, keep[3])
        sa.check("errors", t.errors, keep[4])


def _variation(nom, up, down):
    sign = np.where(up < down, -1.0, 1.0)
    return sign * (np.abs(up - nom) + np.abs(down - nom)) / 2


def C08_one_dim():
    t, n, c, s, e = _t1(plain=True)
    m = sa.size("m", 2)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    before = sa.snapshot(t.cov_mat)
    t.add_variation(x, u, d)
    up, _ = hist1(e, x, u)
    down, _ = hist1(e, x, d)
    delta = _variation(c, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("covariance", t.cov_mat, before + np.outer(delta, delta))


def C08_negative_contents():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    c, s = sa.arr("c", n, hi=-0.01), sa.arr("s", n, lo=0)
    t = Template1d("t", "x", Hist1d.from_binned_data(c, e, s))
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    t.add_variation(x, u, d)
    up, _ = hist1(e, x, u)
    down, _ = hist1(e, x, d)
    delta = _variation(c, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    y = sa.real("y")
    t.yield_param = y
    sa.check("relative errors", t.errors, _eps(_var(s) + delta ** 2, c) * t.values)


def C08_one_dim_equal_width():
    """[conc]"""
    n, m = sa.size("n", 3), sa.size("m", 2)
    lo = sa.real("lo")
    x0, w0 = sa.arr("x0", m), sa.arr("w0", m, lo=0)
    h = Hist1d(bins=n, range=(lo, lo + sa.real("width", lo=0)), data=x0, weights=w0)
    nom = h.bin_counts.copy()
    t = Template1d("t", "x", h)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    before = sa.snapshot(t.cov_mat)
    t.add_variation(x, u, d)
    up, _ = hist1(h.bin_edges, x, u)
    down, _ = hist1(h.bin_edges, x, d)
    delta = _variation(nom, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("covariance", t.cov_mat, before + np.outer(delta, delta))


def C08_one_dim_equal_width_any_bins():
    """[sym]"""
    n, m = sa.size("n", 3), 1
    lo = sa.real("lo")
    x0, w0 = sa.arr("x0", m), sa.arr("w0", m, lo=0)
    h = Hist1d(bins=n, range=(lo, lo + sa.real("width", lo=0)), data=x0, weights=w0)
    nom = h.bin_counts.copy()
    t = Template1d("t", "x", h)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    before = sa.snapshot(t.cov_mat)
    t.add_variation(x, u, d)
    up, _ = hist1(h.bin_edges, x, u)
    down, _ = hist1(h.bin_edges, x, d)
    delta = _variation(nom, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("covariance", t.cov_mat, before + np.outer(delta, delta))


def C08_one_dim_equal_width_any_entries():
    """[sym] [thorough]"""
    n, m = sa.size("n", 3), sa.size("m", 2)
    lo = sa.real("lo")
    x0, w0 = sa.arr("x0", m), sa.arr("w0", m, lo=0)
    h = Hist1d(bins=n, range=(lo, lo + sa.real("width", lo=0)), data=x0, weights=w0)
    nom = h.bin_counts.copy()
    t = Template1d("t", "x", h)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    before = sa.snapshot(t.cov_mat)
    t.add_variation(x, u, d)
    up, _ = hist1(h.bin_edges, x, u)
    down, _ = hist1(h.bin_edges, x, d)
    delta = _variation(nom, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("covariance", t.cov_mat, before + np.outer(delta, delta))


def _C08_two_dim(square):
    t, nx, ny, c, s, ex, ey = _t2(plain=True, square=square)
    m = sa.size("m", 2)
    x, y, u, d = sa.arr("x", m), sa.arr("y", m), sa.arr("u", m), sa.arr("d", m)
    before = sa.snapshot(t.cov_mat)
    t.add_variation((x, y), u, d)
    up, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=u)
    down, _, _ = np.histogram2d(x, y, bins=[ex, ey], weights=d)
    delta = _variation(c, up, down).flatten()
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("covariance", t.cov_mat, before + np.outer(delta, delta))


def C08_two_dim():
    _C08_two_dim(False)


def C08_two_dim_square():
    """[conc]"""
    _C08_two_dim(True)


def C08_weights_as_lists():
    n = 2
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e, True)
    t = Template1d("t", "x", h)
    x = [sa.real("x0"), sa.real("x1")]
    u = [sa.real("u0"), sa.real("u1")]
    d = [sa.real("d0"), sa.real("d1")]
    t.add_variation(x, u, d)
    up, _ = hist1(e, np.array(x), np.array(u))
    down, _ = hist1(e, np.array(x), np.array(d))
    delta = _variation(c, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))


def C08_columns_of_a_data_set():
    n, m = 2, sa.size("m", 2)
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e, True)
    t = Template1d("t", "x", h)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    us = pd.Series(u)
    t.add_variation(pd.Series(x), us, pd.Series(d))
    up, _ = hist1(e, x, u)
    down, _ = hist1(e, x, d)
    delta = _variation(c, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))
    sa.check("weights", us.values, u)


def C08_after_parameter_changes():
    """The nominal histogram does not depend on the current parameters."""
    t, n, c, s, e = _t1(plain=True)
    m = sa.size("m", 2)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    t.yield_param = sa.real("y")
    t.nui_params = sa.arr("theta", n)
    t.add_variation(x, u, d)
    up, _ = hist1(e, x, u)
    down, _ = hist1(e, x, d)
    delta = _variation(c, up, down)
    sa.check("added covariance", t.cov_mats[-1], np.outer(delta, delta))


def C08_kernel():
    from templatefitter.utility import get_systematic_cov_mat
    n = sa.size("n", 3)
    nom, up, down = sa.arr("nom", n, lo=0, zg=True), sa.arr("up", n), sa.arr("down", n)
    delta = _variation(nom, up, down)
    keep = sa.snapshot([nom, up, down])
    sa.check("covariance", get_systematic_cov_mat(nom, up, down), np.outer(delta, delta))
    sa.check("nominal", nom, keep[0])
    sa.check("up", up, keep[1])
    sa.check("down", down, keep[2])


def C09_assignments():
    t, n, c, s, e = _t1()
    y, theta = sa.real("y"), sa.arr("theta", n)
    t.yield_param = y
    sa.check("yield read back", t.yield_param, y)
    sa.check("nuisance parameters untouched", t.nui_params, np.zeros(n))
    t.nui_params = theta
    sa.check("nuisance parameters read back", t.nui_params, theta)
    sa.check("yield untouched", t.yield_param, y)
    sa.check("all parameters", t.params, np.concatenate(([y], theta)))
    p = sa.arr("p", n + 1)
    t.params = p
    sa.check("parameters read back", t.params, p)
    sa.check("yield of all parameters", t.yield_param, p[0])
    sa.check("nuisance parameters of all parameters", t.nui_params, p[1:])
    t.yield_param = sa.integer("k")
    sa.check("integer yield", t.yield_param, sa.integer("k"))
    sa.check("nuisance parameters untouched by an integer yield", t.nui_params, p[1:])
    t.yield_param = np.array([sa.real("z")])
    sa.check("one element yield", t.yield_param, sa.real("z"))
    sa.check("nuisance parameters untouched by an array yield", t.nui_params, p[1:])


def C09_integer_params():
    t, n, c, s, e = _t1()
    t.params = sa.iarr("p", n + 1)
    y, theta = sa.real("y"), sa.arr("theta", n)
    t.yield_param = y
    t.nui_params = theta
    sa.check("yield", t.yield_param, y)
    sa.check("nuisance parameters", t.nui_params, theta)
    sa.check("parameters", t.params, np.concatenate(([y], theta)))


def C09_two_dim():
    t, nx, ny, c, s, ex, ey = _t2()
    y, theta = sa.real("y"), sa.arr("theta", nx * ny)
    t.nui_params = theta
    sa.check("nuisance parameters read back", t.nui_params, theta)
    sa.check("yield untouched", t.yield_param, np.sum(c))
    t.yield_param = y
    sa.check("yield read back", t.yield_param, y)
    sa.check("nuisance parameters untouched", t.nui_params, theta)
    sa.check("all parameters", t.params, np.concatenate(([y], theta)))
    for bad in (np.ones(nx * ny + 1), np.ones((nx, ny))):
        r = attempt(setattr, t, "nui_params", bad)
        sa.check("wrong nuisance parameters are refused", r.raised, True)
        sa.check("parameters unchanged", t.params, np.concatenate(([y], theta)))


def C09_refused():
    t, n, c, s, e = _t1()
    y, theta = sa.real("y"), sa.arr("theta", n)
    t.yield_param = y
    t.nui_params = theta
    p = np.concatenate(([y], theta))
    for bad in (np.ones(n), np.ones(n + 2), np.ones((n + 1, 1)), np.ones((1, n + 1))):
        r = attempt(setattr, t, "params", bad)
        sa.check("wrong parameters are refused", r.raised, True)
        sa.check("parameters after refused parameters", t.params, p)
    for bad in (np.ones(n + 1), np.ones((n, 1)), np.ones((1, n)), np.ones(1)):
        r = attempt(setattr, t, "nui_params", bad)
        sa.check("wrong nuisance parameters are refused", r.raised, True)
        sa.check("parameters after refused nuisance parameters", t.params, p)
    for bad in (np.ones(2), np.ones(n + 1), "12", None, [1.0], (1.0,)):
        r = attempt(setattr, t, "yield_param", bad)
        sa.check("wrong yield is refused", r.raised, True)
        sa.check("parameters after a refused yield", t.params, p)


def C09_templates_are_independent():
    n = sa.size("n", 3)
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e)
    a = Template1d("a", "x", h)
    b = Template1d("b", "x", h)
    p = sa.arr("p", n + 1)
    a.params = p
    b.params = p
    a.yield_param = sa.real("y")
    a.nui_params = sa.arr("theta", n)
    sa.check("other template", b.params, p)
    b.params = a.params
    b.yield_param = sa.real("z")
    sa.check("template assigned from", a.yield_param, sa.real("y"))


def C10_reset():
    t, n, c, s, e = _t1()
    p0 = np.concatenate(([np.sum(c)], np.zeros(n)))
    t.yield_param = sa.real("y")
    t.nui_params = sa.arr("theta", n)
    t.reset()
    sa.check("after assignments", t.params, p0)
    t.params = sa.arr("p", n + 1)
    t.reset()
    sa.check("after assigning all parameters", t.params, p0)
    sa.check("yield", t.yield_param, np.sum(c))
    sa.check("nuisance parameters", t.nui_params, np.zeros(n))
    t.reset()
    sa.check("after a second reset", t.params, p0)


def C10_reset_keeps_covariance():
    t, n, c, s, e = _t1()
    m = sa.symmetric("m", n)
    t.add_cov_mat(m)
    keep = sa.snapshot([t.cov_mat, t.corr, t.inv_corr_mat, t.cov_mats])
    t.yield_param = sa.real("y")
    t.reset()
    sa.check("parameters", t.params, np.concatenate(([np.sum(c)], np.zeros(n))))
    sa.check("covariance", t.cov_mat, keep[0])
    sa.check("correlation", t.corr, keep[1])
    sa.check("inverse correlation", t.inv_corr_mat, keep[2])
    sa.check("contributions", t.cov_mats, keep[3])
    eps = _eps(_var(s) + np.diag(m), c)
    sa.check("values", t.values, np.sum(c) * _fractions(np.zeros(n), c, eps))
    sa.check("errors", t.errors, eps * t.values)


def C10_reset_after_fill():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e)
    t = Template1d("t", "x", h)
    h.fill(sa.arr("x", m), sa.arr("w", m))
    t.nui_params = sa.arr("theta", n)
    t.reset()
    sa.check("parameters", t.params, np.concatenate(([np.sum(c)], np.zeros(n))))


def C10_reset_2d():
    t, nx, ny, c, s, ex, ey = _t2()
    t.yield_param = sa.real("y")
    t.nui_params = sa.arr("theta", nx * ny)
    t.reset()
    sa.check("parameters", t.params, np.concatenate(([np.sum(c)], np.zeros(nx * ny))))


def C05_template_keeps_contents():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e)
    t = Template1d("t", "x", h)
    keep = sa.snapshot([t.values, t.errors, t.cov_mat, t.params])
    h.fill(sa.arr("x", m), sa.arr("w", m))
    sa.check("values after filling the histogram", t.values, keep[0])
    sa.check("errors after filling the histogram", t.errors, keep[1])
    sa.check("covariance after filling the histogram", t.cov_mat, keep[2])
    sa.check("parameters after filling the histogram", t.params, keep[3])
    theta = sa.arr("theta", n)
    sa.check("fractions after filling the histogram", t.fractions(theta), _fractions(theta, c, _eps(_var(s), c)))


def C05_template_keeps_contents_2d():
    t, nx, ny, c, s, ex, ey = _t2()
    h = Hist2d.from_binned_data(c, (ex, ey), s)
    m = sa.size("m", 2)
    u = Template2d("u", ("x", "y"), h)
    h.fill((sa.arr("x", m), sa.arr("y", m)), sa.arr("w", m))
    sa.check("values after filling the histogram", u.values, t.values)
    sa.check("errors after filling the histogram", u.errors, t.errors)


def C05_histogram_of_a_template():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    h, c, s = _hist1d("t", n, e, True)
    keep = sa.snapshot([h.bin_counts, h.bin_errors_sq, h.bin_edges])
    t = Template1d("t", "x", h)
    t.yield_param = sa.real("y")
    t.nui_params = sa.arr("theta", n)
    t.add_cov_mat(sa.symmetric("m", n))
    t.add_variation(sa.arr("x", m), sa.arr("u", m), sa.arr("d", m))
    t.reset()
    v = t.values
    w = t.errors
    sa.check("counts of the histogram", h.bin_counts, keep[0])
    sa.check("squared errors of the histogram", h.bin_errors_sq, keep[1])
    sa.check("edges of the histogram", h.bin_edges, keep[2])
    sa.check("counts handed over", c, keep[0])


def C05_parameters():
    t, n, c, s, e = _t1()
    p, theta = sa.arr("p", n + 1), sa.arr("theta", n)
    t.params = p
    t.yield_param = sa.real("y")
    t.nui_params = theta
    t.reset()
    sa.check("parameters passed in", p, sa.arr("p", n + 1))
    sa.check("nuisance parameters passed in", theta, sa.arr("theta", n))
    t.nui_params = theta
    t.params = p
    t.reset()
    t.yield_param = sa.real("y")
    sa.check("nuisance parameters passed in first", theta, sa.arr("theta", n))
    sa.check("parameters passed in second", p, sa.arr("p", n + 1))
    t.params = p
    t.nui_params = theta
    p[0] = sa.real("changed")
    theta[0] = sa.real("changed")
    sa.check("template after the caller changes the arrays", t.params,
             np.concatenate((sa.arr("p", n + 1)[:1], sa.arr("theta", n))))


def C05_covariance():
    t, n, c, s, e = _t1()
    m1, m2 = sa.symmetric("m1", n), sa.symmetric("m2", n)
    keep = sa.snapshot([m1, m2])
    t.add_cov_mat(m1)
    t.add_cov_mat(m2)
    t.reset()
    sa.check("first matrix", m1, keep[0])
    sa.check("second matrix", m2, keep[1])
    sa.check("recorded first matrix", t.cov_mats[1], keep[0])
    sa.check("recorded second matrix", t.cov_mats[2], keep[1])
    before = sa.snapshot([t.cov_mat, t.cov_mats[1]])
    m1[0, 0] = sa.real("changed")
    m2[0, 0] = sa.real("changed")
    sa.check("covariance after the caller changes a matrix", t.cov_mat, before[0])
    sa.check("record after the caller changes a matrix", t.cov_mats[1], before[1])


def C05_variation():
    t, n, c, s, e = _t1(plain=True)
    m = sa.size("m", 2)
    x, u, d = sa.arr("x", m), sa.arr("u", m), sa.arr("d", m)
    keep = sa.snapshot([x, u, d])
    t.add_variation(x, u, d)
    sa.check("data", x, keep[0])
    sa.check("up weights", u, keep[1])
    sa.check("down weights", d, keep[2])
    sa.check("fractions argument", t.fractions(u[:0]) if False else u, keep[1])
    theta = sa.arr("theta", n)
    t.fractions(theta)
    sa.check("nuisance parameters", theta, sa.arr("theta", n))
