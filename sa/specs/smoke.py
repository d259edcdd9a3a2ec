"""C39: every public operation of the package runs to its end on valid inputs."""
import numpy as np
import pandas as pd
import sa
from common import attempt, outcomes
from fits import BACKENDS, model, model2
from legacy import Layout as LegacyLayout
from multi import Layout, mixed, nll_names, odd, simple
from plots import Axes, Figure, tmpl, tmpl2
from templatefitter import histogram_legacy as lg
from templatefitter import utility
from templatefitter.fitter import TemplateFitter
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.minimizer import Parameters, IMinuitMinimizer, ScipyMinimizer, minimizer_factory
from templatefitter.stats import cowan_binned_likelihood_gof, default_chi2_test, pearson_chi2_test
from templatefitter.templates import Template1d, Template2d, MultiChannelTemplate
from templatefitter.templates.channel import Channel
from templatefitter.templates_legacy import StackedTemplate, Template, TemplateParameter
from templatefitter.toy_study import ToyStudy


def C39_legacy_histogram():
    n, m = sa.size("n", 3), sa.size("m", 2)
    lo = sa.real("lo")
    hi = lo + sa.real("width", lo=0)
    x, w = sa.arr("x", m), sa.arr("w", m, lo=0)
    h = lg.Histogram(n, (lo, hi), x, w)
    sa.check("number of bins", h.nbins, n)
    sa.check("limits", (h.limits[0], h.limits[1], h.lower_limit, h.upper_limit), (lo, hi, lo, hi))
    e = h.bin_edges
    sa.check("edges", e, np.linspace(lo, hi, n + 1))
    sa.check("mids", h.bin_mids, (e[1:] + e[:-1]) / 2)
    sa.check("width", h.bin_width, (hi - lo) / n)
    c, v = h.bin_counts.copy(), h.bin_errors_sq.copy()
    sa.check("errors", h.bin_errors, np.sqrt(v))
    k = sa.real("k", lo=0)
    h.scale(k)
    sa.check("scaled counts", h.bin_counts, k * c)
    sa.check("scaled errors", h.bin_errors_sq, k ** 2 * v)
    a, b = sa.arr("a", n, lo=0), sa.arr("b", n, lo=0)
    h.bin_counts = a
    h.bin_errors = b
    sa.check("set counts", h.bin_counts, a)
    sa.check("set errors", h.bin_errors, b)
    sa.check("relative errors", h.bin_rel_errors, b / a)


def C39_legacy_histogram_text():
    """[conc]"""
    h = lg.Histogram(2, (0.0, 2.0))
    h.fill([0.5, 1.5], [1.0, 2.0])
    h.fill([0.5, 1.5])
    str(h)
    sa.check("entries", h.bin_entries, [2, 2])
    sa.check("counts", h.bin_counts, [2, 3])


def C39_legacy_one_dim():
    n, m = sa.size("n", 3), sa.size("m", 2)
    lo = sa.real("lo")
    hi = lo + sa.real("width", lo=0)
    x, w = sa.arr("x", m), sa.arr("w", m)
    h = lg.Hist1d(n, (lo, hi), x, w)
    sa.check("number of bins", h.num_bins, n)
    e = h.bin_edges
    sa.check("edges", e, np.linspace(lo, hi, n + 1))
    sa.check("mids", h.bin_mids, (e[1:] + e[:-1]) / 2)
    sa.check("width", h.bin_width, (hi - lo) / n)
    sa.check("errors", h.bin_errors, np.sqrt(h.bin_errors_sq))


def C39_legacy_two_dim():
    """[conc]"""
    x, w = sa.arr("x", 3, 2), sa.arr("w", 3)
    h = lg.Hist2d((2, 3), ((0.0, 2.0), (1.0, 4.0)), x, w)
    h.fill(x)
    sa.check("number of bins", (h.num_bins[0], h.num_bins[1]), (2, 3))
    sa.check("x edges", h.x_edges, [0, 1, 2])
    sa.check("y edges", h.y_edges, [1, 2, 3, 4])
    sa.check("limits", (h.xlimits[0], h.xlimits[1], h.ylimits[0], h.ylimits[1]), (0, 2, 1, 4))
    sa.check("errors", h.bin_errors, np.sqrt(h.bin_errors_sq))
    h.x_projection()
    h.y_projection()


def C39_legacy_templates():
    """[conc]"""
    L = LegacyLayout(2, 2)
    st = L.st
    sa.check("name", st.name, "stack")
    sa.check("variable", st.variable, "x")
    sa.check("limits", (st.limits[0], st.limits[1]), (L.lo, L.hi))
    sa.check("bins", st.num_bins, 2)
    sa.check("mids", st.bin_mids, L.mids())
    sa.check("width", st.bin_width, (L.hi - L.lo) / 2)
    sa.check("names", st.template_names, ["t0", "t1"])
    sa.check("template", st["t1"].name, "t1")
    sa.check("number", st.num_templates, 2)
    sa.check("yields", st.yield_param_values, [np.sum(L.c[0]), np.sum(L.c[1])])
    sa.check("yield parameters", [p.value for p in st.yield_params], st.yield_param_values)
    sa.check("nuisance parameters", [p.value for p in st.nui_params], st.nui_param_values)
    sa.check("errors of the yields", st.yield_param_errors, [t.yield_param_errors for t in L.ts])
    sa.check("errors of the nuisance parameters", st.nui_param_errors, np.ones((2, 2)))
    sa.check("inverse correlations", st.inv_corr_mats, [np.eye(2), np.eye(2)])
    for t in L.ts:
        sa.check("name of a template", t.yield_param.name is None, False)
        t.bin_mids, t.bin_width, t.limits, t.num_bins, t.variable
        sa.check("nuisance values", t.nui_params.value, t.nui_param_values)
    st.yield_param_values = np.array([3.0, 4.0])
    st.nui_param_values = np.array([0.25, 0.5, 0.125, 0.75])
    st.yield_param_errors = np.array([1.0, 2.0])
    st.nui_param_errors = np.array([0.5, 0.25, 0.75, 0.125])
    sa.check("set yields", st.yield_param_values, [3, 4])
    sa.check("set nuisance parameters", st.nui_param_values, [[0.25, 0.5], [0.125, 0.75]])
    sa.check("set yield errors", st.yield_param_errors, [1, 2])
    sa.check("set nuisance errors", st.nui_param_errors, [[0.5, 0.25], [0.75, 0.125]])
    st.fractions(np.zeros(4))
    st.reset_parameters()
    sa.check("yields after a reset", st.yield_param_values, [np.sum(L.c[0]), np.sum(L.c[1])])
    sa.check("nuisance parameters after a reset", st.nui_param_values, np.zeros((2, 2)))


def C39_legacy_created_template():
    """[conc]"""
    st = StackedTemplate("s", "x", 2, (0.0, 2.0))
    w = sa.arr("w", 2, lo=0)
    st.create_template("a", pd.DataFrame({"x": np.array([0.5, 1.5]), "weight": w}))
    st.create_template("b", pd.DataFrame({"x": np.array([1.5, 0.5]), "other": w}), "other")
    sa.check("names", st.template_names, ["a", "b"])
    sa.check("values", st["b"].values(), [w[1], w[0]])
    sa.check("stack", st.values(), [w[0] + w[1], w[0] + w[1]])
    nll = st.create_nll(lg.Hist1d.from_binned_data(st.bin_edges, np.array([1.0, 2.0])))
    nll(nll.x0)
    sa.check("parameters", len(nll.param_names), len(nll.x0))
    p = TemplateParameter(1.0, 0.5, "p")
    p.value = 2.0
    p.error = 1.0
    p.reset()
    sa.check("reset parameter", (p.value, p.error, p.name), (1.0, 0.5, "p"))


def C39_histograms():
    n, m = sa.size("n", 3), sa.size("m", 2)
    e = sa.edges("e", n)
    h = Hist1d(e, None, sa.arr("x", m), sa.arr("w", m))
    h.fill(sa.arr("x", m))
    sa.check("bins", (h.num_bins, h.shape[0]), (n, n))
    h.bin_mids, h.bin_widths, h.range, h.is_empty, h.bin_errors
    k, l = sa.size("k", 2), sa.size("l", 3)
    ex, ey = sa.edges("ex", k), sa.edges("ey", l)
    g = Hist2d([ex, ey], None, (sa.arr("dx", m), sa.arr("dy", m)), sa.arr("w", m))
    g.fill((sa.arr("dx", m), sa.arr("dy", m)))
    sa.check("shape", (g.shape[0], g.shape[1]), (k, l))
    g.num_bins, g.bin_mids, g.bin_widths, g.range, g.xrange, g.yrange, g.x_edges, g.y_edges, g.is_empty, g.bin_errors
    g.x_projection()
    g.y_projection()


def _every_template_attribute(t):
    t.name, t.num_bins, t.shape, t.bins, t.bin_mids, t.bin_edges, t.bin_widths, t.range
    t.params, t.yield_param, t.nui_params, t.values, t.errors, t.cov_mat, t.cov_mats, t.corr, t.inv_corr_mat


def C39_templates():
    """[conc]"""
    e = sa.edges("e", 3)
    t = tmpl("t", 3, e)
    _every_template_attribute(t)
    t.add_variation(sa.arr("y", 2), sa.arr("wu", 2), sa.arr("wd", 2))
    t.add_cov_mat(sa.symmetric("V", 3))
    t.params = t.params
    _every_template_attribute(t)
    t.reset()
    t.plot_on(Axes())
    u = tmpl2("u", 2, 2, sa.edges("ex", 2), sa.edges("ey", 2))
    _every_template_attribute(u)
    u.add_variation((sa.arr("yx", 2), sa.arr("yy", 2)), sa.arr("wu", 2), sa.arr("wd", 2))
    _every_template_attribute(u)
    u.reset()
    u.plot_on(Figure(), Axes())
    u.plot_x_projection_on(Axes())
    u.plot_y_projection_on(Axes())


def C39_channel():
    """[conc]"""
    L = simple(True)
    ch = L.m.channels["u"]
    ch.num_templates, ch.bins, ch.num_bins, ch.bin_edges, ch.name, ch.range, ch.has_data, ch.data_bin_counts
    ch.num_nui_params, ch.processes, ch.templates, ch.efficiencies, ch["a"]
    ch.process_indices(L.processes)
    x = L.vector()[0]
    ch.bin_counts_from_param_values(x)
    ch.update_parameters(x[:2], x[2:])
    ch.nll_contribution(x[:2], x[2:])
    ch.split_parameter_array(x)
    ch.generate_toy_dataset()
    ch.generate_asimov_dataset()
    ch.generate_asimov_dataset(integer_values=True)
    ch.plot_stacked_on(Axes())
    p = Parameters(nll_names(L))
    p.values = x
    p.covariance = sa.symmetric("V", len(x))
    p.errors = np.sqrt(np.diag(p.covariance))
    ch.propagate_parameter_uncertainties(p)
    ch.get_post_fit_bin_uncertainty(p)
    for how in ("propagate", "scale"):
        ch.plot_post_fit_stacked_on(Axes(), p, post_fit_uncertainties=how)
    ch.plot_post_fit_stacked_on(Axes(), p)
    ch.reset()
    sa.check("yields", L.m.process_yields, [np.sum(sa.arr("ua_c", 2, lo=0)), np.sum(sa.arr("ub_c", 2, lo=0))])


def C39_model():
    """[conc]"""
    L = odd(True)
    m = L.m
    m.num_nui_params, m.process_yields, m.process_yield_errors, m.nui_params
    m.num_channels, m.channels, m.num_processes, m.processes
    m.add_gaussian_constraint_on_yield("z", 3.0, 1.0)
    m.constrained_yields, m.constrained_yield_values, m.constrained_yield_errors
    m.process_to_index("b")
    m.set_yield("t", 4.0)
    m.get_yield("t")
    x = L.vector()[0]
    m.generate_per_channel_parameters(x)
    m.update_parameters(x)
    nll = m.create_nll()
    nll(nll.x0)
    nll(x)
    sa.check("parameters", len(nll.param_names), len(nll.x0))
    m.generate_toy_dataset()
    m.generate_asimov_dataset()
    m.generate_asimov_dataset(integer_values=True)
    m.reset_parameters()


def C39_fitter():
    """[conc]"""
    for backend in BACKENDS:
        L = Layout(["t"], [("u", 1, ["t"])], True)
        f = TemplateFitter(L.m, backend)
        p = f.do_fit(verbose=True)
        str(p)
        f.do_fit(update_templates=False, get_hesse=False, verbose=False, fix_nui_params=True)
        f.set_parameter_bounds("t_yield", (0.0, 10.0))
        f.get_significance("t", verbose=False)
        f.set_parameter_fixed(1)
        f.do_fit()


def C39_profile():
    """[conc]"""
    L = Layout(["t"], [("u", 1, ["t"])], True)
    f = TemplateFitter(L.m, "iminuit")
    f.profile("t_yield", 1, 3, 2, False)
    f.profile(0, 2, 3, 1, True, True)


def C39_failing_fits():
    """[conc] Fits that fail end with the documented error; scans and toy studies go on."""
    L = Layout(["t"], [("u", 1, ["t"])], True)
    f = TemplateFitter(L.m, "scipy")
    outcomes(False, True)
    sa.check("failed nominal fit of a profile", attempt(f.profile, "t_yield", 1, 1, 1).kind, "RuntimeError")
    outcomes(True, False, True)
    f.profile("t_yield", 1, 2, 1)
    outcomes(True, False, False, False, True)
    f.profile("t_yield", 1, 2, 2, True, True)
    outcomes(False)
    sa.check("failed fit", attempt(f.do_fit, verbose=True).kind, "RuntimeError")
    outcomes(False)
    sa.check("failed nominal fit", attempt(f.get_significance, "t").kind, "RuntimeError")
    t = ToyStudy(L.m, "scipy")
    outcomes(False, True, False, True)
    t.do_experiments(2)
    outcomes(False, True, False, True)
    t.do_linearity_test("t", (1.0, 2.0), 2, 1)


def C39_parameters():
    """[conc]"""
    p = Parameters(["a", "b"])
    str(p)
    p.values = [1.0, 2.0]
    p.errors = [0.5, 0.25]
    p.covariance = np.eye(2)
    p.correlation = np.eye(2)
    str(p)
    sa.check("by name", (p.get_param_value("b"), p.get_param_error("b"), p["b"][0], p[1][1]), (2.0, 0.25, 2.0, 0.25))
    sa.check("names", p.names, ["a", "b"])
    sa.check("number", p.num_params, 2)
    sa.check("index", (p.param_id_to_index("b"), p.param_id_to_index(0)), (1, 0))


def _square(x):
    return np.sum((x - 1.0) ** 2)


def C39_minimizers():
    """[conc]"""
    for backend in BACKENDS:
        m = minimizer_factory(backend, _square, ["a", "b"])
        m.set_param_bounds("a", (-5.0, 5.0))
        m.set_param_fixed("b")
        m.minimize(np.array([2.0, 3.0]))
        m.release_params()
        m.minimize(np.array([2.0, 3.0]))
        m.fcn_min_val, m.params, m.param_values, m.param_errors, m.param_covariance, m.param_correlation


def C39_toy_study():
    """[conc]"""
    for backend in BACKENDS:
        L = Layout(["t"], [("u", 1, ["t"])], True)
        t = ToyStudy(L.m, backend)
        t.do_experiments(2)
        t.result_parameters, t.result_uncertainties
        t.get_toy_results("t")
        t.get_toy_result_pulls("t")
        t.do_linearity_test("t", (1.0, 2.0), 2, 1)


def C39_utilities():
    """[conc]"""
    d, v = sa.arr("gd", 3, lo=0), sa.arr("ge", 3, lo=0)
    pearson_chi2_test(d, v, 2)
    default_chi2_test(d, v, np.sqrt(v), 2)
    cowan_binned_likelihood_gof(d, v, 2)
    V = sa.symmetric("V", 2)
    utility.cov2corr(V)
    utility.corr2cov(np.eye(2), np.ones(2))
    utility.xlogyx(d, v)
    utility.get_systematic_cov_mat(d, v, v)
    list(utility.array_split_into(d, [1, None]))
    utility.id_to_index(["a", "b"], "b")
