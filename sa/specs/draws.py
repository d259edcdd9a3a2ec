"""C38: how many random numbers each operation draws (and C15: data sets of all channels)."""
import numpy as np
import sa
from common import attempt
from channels import chan1, chan2
from fits import BACKENDS, model, model2, _start
from legacy import Layout as LegacyLayout
from multi import Layout, mixed, odd, simple, strange, three
from plots import Axes, Figure
from templatefitter.fitter import TemplateFitter
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, MultiChannelTemplate
from templatefitter.toy_study import ToyStudy
from templatefitter.stats import cowan_binned_likelihood_gof, default_chi2_test, pearson_chi2_test


class Draws:
    """Random numbers drawn by an operation."""

    def __init__(self):
        self.at = sa.drawn()

    def expect(self, label, n):
        k = sa.drawn()
        sa.check(label + ": random numbers drawn", k - self.at, n)
        self.at = k


def _total(L):
    bins = {}
    for b in L.blocks:
        bins[b[0]] = b[4]
    s = 0
    for k in bins:
        s = s + bins[k]
    return s


# ---------------------------------------------------------------- C38

def C38_toys_of_a_channel():
    ch, n, e, ts, fs = chan1(3)
    c = Draws()
    ch.generate_toy_dataset()
    c.expect("toy data", n)
    ch.generate_toy_dataset()
    ch.generate_toy_dataset()
    c.expect("two more", 2 * n)
    ch.generate_asimov_dataset()
    ch.generate_asimov_dataset(integer_values=True)
    c.expect("asimov data", 0)


def C38_toys_of_one_template():
    ch, n, e, ts, fs = chan1(1)
    c = Draws()
    ch.generate_toy_dataset()
    c.expect("toy data", n)


def C38_toys_in_two_dimensions():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    c = Draws()
    ch.generate_toy_dataset()
    c.expect("toy data", nx * ny)
    ch.generate_asimov_dataset()
    c.expect("asimov data", 0)


def _model(L):
    c = Draws()
    L.m.generate_toy_dataset()
    c.expect("toy data", _total(L))
    x, y, th = L.vector()
    L.m.update_parameters(x)
    c.expect("update", 0)
    L.m.generate_toy_dataset()
    c.expect("toy data after an update", _total(L))
    L.m.generate_asimov_dataset()
    L.m.generate_asimov_dataset(integer_values=True)
    c.expect("asimov data", 0)
    L.m.reset_parameters()
    L.m.generate_per_channel_parameters(x)
    c.expect("reset", 0)


def C38_model():
    _model(mixed())


def C38_model_three_channels():
    _model(three())


def C38_model_correlated():
    _model(odd())


def C38_likelihood_and_reports():
    """[conc]"""
    L = simple(True)
    x, y, th = L.vector()
    c = Draws()
    nll = L.m.create_nll()
    nll(x)
    nll.x0
    nll.param_names
    c.expect("likelihood", 0)
    ch = L.m.channels["u"]
    ch.bin_counts_from_param_values(x)
    L.m.set_yield("a", 3.0)
    L.m.get_yield("a")
    L.m.process_yields
    L.m.process_yield_errors
    c.expect("reports", 0)


def C38_building():
    """[conc]"""
    c = Draws()
    L = odd(True)
    c.expect("templates", 0)
    n = 3
    e = sa.edges("e", n)
    h = Hist1d.from_binned_data(sa.arr("c", n, lo=0), e, sa.arr("s", n, lo=0))
    h.fill(sa.arr("x", 2), sa.arr("w", 2))
    t = Template1d("t", "x", h)
    t.add_variation(sa.arr("y", 2), sa.arr("wu", 2), sa.arr("wd", 2))
    t.add_cov_mat(sa.symmetric("V", n))
    t.values, t.errors, t.corr
    t.reset()
    t.plot_on(Axes())
    c.expect("one dimension", 0)
    ex, ey = sa.edges("ex", 2), sa.edges("ey", 2)
    q = Template2d("q", ("x", "y"), Hist2d.from_binned_data(sa.arr("qc", 2, 2, lo=0), (ex, ey), sa.arr("qs", 2, 2, lo=0)))
    q.values, q.errors
    q.plot_on(Figure(), Axes())
    q.plot_x_projection_on(Axes())
    q.plot_y_projection_on(Axes())
    c.expect("two dimensions", 0)
    d = sa.arr("gd", 3, lo=0)
    v = sa.arr("ge", 3, lo=0)
    pearson_chi2_test(d, v, 2)
    default_chi2_test(d, v, np.sqrt(v), 2)
    c.expect("tests", 0)


def C38_goodness_of_fit():
    """[conc]"""
    c = Draws()
    cowan_binned_likelihood_gof(sa.arr("gd", 3, lo=0), sa.arr("ge", 3, lo=0), 2)
    c.expect("goodness of fit", 0)


def C38_plots():
    """[conc]"""
    L = simple(True)
    c = Draws()
    L.m.channels["u"].plot_stacked_on(Axes())
    c.expect("stack", 0)


def _fits(backend, make):
    L = make()
    c = Draws()
    f = TemplateFitter(L.m, backend)
    f.do_fit()
    c.expect(backend + " fit", 0)
    f.do_fit(update_templates=False, get_hesse=False)
    c.expect(backend + " fit without update", 0)
    f.get_significance("t")
    c.expect(backend + " significance", 0)


def C38_fit_iminuit():
    """[conc]"""
    _fits("iminuit", model2)


def C38_fit_scipy():
    """[conc]"""
    _fits("scipy", _small)


def C38_profile():
    """[conc]"""
    L = model()
    f = TemplateFitter(L.m, "iminuit")
    c = Draws()
    f.profile("t_yield", 1, 3)
    c.expect("profile", 0)


def _small():
    from multi import Layout
    return Layout(["t"], [("u", 1, ["t"])], True)


def C38_toy_study():
    """[conc]"""
    for make, n in ((model, 3), (model2, 2)):
        L = make()
        c = Draws()
        t = ToyStudy(L.m, "iminuit")
        c.expect("new study", 0)
        t.do_experiments(n)
        c.expect("%d experiments" % n, n * _total(L))
        t.result_parameters
        t.result_uncertainties
        t.get_toy_results("t")
        t.get_toy_result_pulls("t")
        c.expect("results", 0)


def C38_linearity_test():
    """[conc]"""
    L = model()
    c = Draws()
    ToyStudy(L.m, "iminuit").do_linearity_test("t", (1.0, 3.0), 3, 2)
    c.expect("linearity test", 6 * _total(L))


def C38_legacy():
    """[conc]"""
    for k, n in ((1, 3), (2, 2)):
        L = LegacyLayout(k, n)
        c = Draws()
        L.st.generate_toy_dataset()
        c.expect("stack of %d" % k, n)
        L.ts[0].generate_toy_dataset()
        L.ts[0].generate_toy_dataset()
        c.expect("template", 2 * n)
        L.st.generate_asimov_dataset()
        L.ts[0].generate_asimov_dataset(integer_values=True)
        L.st.values()
        L.st.errors()
        nll = L.st.create_nll(L.st.generate_asimov_dataset())
        nll(nll.x0)
        L.st.reset_parameters()
        c.expect("everything else", 0)


# ---------------------------------------------------------------- C15, all channels of a model

def _expected(L):
    out = {}
    edges = {}
    for b in L.blocks:
        v = b[2].values
        out[b[0]] = out[b[0]] + v if b[0] in out else v
        edges[b[0]] = b[2].bin_edges
    return out, edges


def _data_sets(L, label):
    nu, edges = _expected(L)
    toys = L.m.generate_toy_dataset()
    more = L.m.generate_toy_dataset()
    asimov = L.m.generate_asimov_dataset()
    rounded = L.m.generate_asimov_dataset(integer_values=True)
    for d in (toys, more, asimov, rounded):
        sa.check(label + ": channels", sorted(d.keys()), sorted(L.names))
    for name in L.names:
        at = label + " " + name
        for d in (toys, more, asimov, rounded):
            sa.check(at + ": edges", d[name].bin_edges, edges[name])
        sa.check(at + ": mean of the draws", sa.draw_mean(toys[name].bin_counts), nu[name])
        sa.check(at + ": mean of the second draws", sa.draw_mean(more[name].bin_counts), nu[name])
        sa.check(at + ": toy errors", toys[name].bin_errors_sq, toys[name].bin_counts)
        sa.check(at + ": asimov", asimov[name].bin_counts, nu[name])
        sa.check(at + ": asimov errors", asimov[name].bin_errors_sq, nu[name])
        sa.check(at + ": rounded", rounded[name].bin_counts, np.rint(nu[name]))
        sa.check(at + ": rounded errors", rounded[name].bin_errors_sq, np.rint(nu[name]))
    after, _ = _expected(L)
    sa.check(label + ": templates", [after[k] for k in L.names], [nu[k] for k in L.names])


def _all(L, own_data=False):
    _data_sets(L, "new")
    L.m.update_parameters(L.vector()[0])
    _data_sets(L, "updated")
    if own_data:
        for i in range(len(L.names)):
            sa.check("data of " + L.names[i], L.m.channels[L.names[i]].data_bin_counts, L.shaped[i])


def C15_all_channels():
    _all(mixed(True), True)


def C15_all_channels_strange_names():
    _all(strange(True), True)


def C15_all_channels_strange_names_without_data():
    _all(strange())


def C15_negative_contents():
    """Templates may have negative bins, the sum of all templates decides."""
    for L in (strange(False, True), mixed(False, True)):
        nu, edges = _expected(L)
        toys = L.m.generate_toy_dataset()
        asimov = L.m.generate_asimov_dataset()
        rounded = L.m.generate_asimov_dataset(integer_values=True)
        for name in L.names:
            sa.check(name + ": mean of the draws", sa.draw_mean(toys[name].bin_counts), nu[name])
            sa.check(name + ": asimov", asimov[name].bin_counts, nu[name])
            sa.check(name + ": rounded", rounded[name].bin_counts, np.rint(nu[name]))


def C15_all_channels_without_data():
    _all(three())


def C15_all_channels_correlated():
    _all(odd())


def C15_toys_are_new_each_time():
    """[conc] No two toy data sets share their numbers, nor do the channels of one."""
    L = model2()
    a, b = L.m.generate_toy_dataset(), L.m.generate_toy_dataset()
    for k in L.names:
        sa.check(k, sa.same(a[k].bin_counts, b[k].bin_counts), False)
    n, m = a["u"].bin_counts, a["v"].bin_counts
    for i in range(len(m)):
        sa.check("bins of different channels", sa.same(n[0], m[i]), False)


def C15_two_dimensional_model():
    m = MultiChannelTemplate()
    nx, ny = sa.size("nx", 2), sa.size("ny", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    m.define_process("a")
    m.define_channel("p", (nx, ny), ((ex[0], ex[-1]), (ey[0], ey[-1])))
    t = Template2d("q", ("x", "y"), Hist2d.from_binned_data(sa.arr("qc", nx, ny, lo=0), (ex, ey), sa.arr("qs", nx, ny, lo=0)))
    m.add_template("p", "a", t)
    m.set_yield("a", sa.real("y", lo=0))
    v = t.values
    h = m.generate_asimov_dataset()["p"]
    sa.check("asimov", h.bin_counts, v)
    sa.check("asimov x edges", h.bin_edges[0], ex)
    sa.check("asimov y edges", h.bin_edges[1], ey)
    h = m.generate_toy_dataset()["p"]
    sa.check("mean of the draws", sa.draw_mean(h.bin_counts), v)
    sa.check("toy x edges", h.bin_edges[0], ex)
    sa.check("toy y edges", h.bin_edges[1], ey)
