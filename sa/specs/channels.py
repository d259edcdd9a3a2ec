"""C11-C16: channels."""
import numpy as np
import sa
from common import attempt
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, Channel
from templatefitter.templates.abstract_template import AbstractTemplate
from templatefitter.minimizer import Parameters


# not in alphabetical order
PROCESSES = ["pm", "pz", "pa"]


def tmpl1(name, n, e, corr=False):
    c = sa.arr(name + "_c", n, lo=0)
    s = sa.arr(name + "_s", n, lo=0)
    t = Template1d("same", "x", Hist1d.from_binned_data(c, e, s))
    if corr:
        t.add_cov_mat(sa.symmetric(name + "_m", n))
    return t


def tmpl2(name, nx, ny, ex, ey):
    c = sa.arr(name + "_c", nx, ny, lo=0)
    s = sa.arr(name + "_s", nx, ny, lo=0)
    return Template2d(name, ("x", "y"), Hist2d.from_binned_data(c, (ex, ey), s))


def data1(name, n, e):
    return Hist1d.from_binned_data(sa.arr(name, n, lo=0), e)


def chan1(k, corr=False):
    """Channel with k templates; efficiencies symbolic."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts = []
    fs = []
    for i in range(k):
        t = tmpl1("t" + str(i), n, e, corr)
        f = sa.real("f" + str(i), lo=0)
        ch.add_template(PROCESSES[i], t, f)
        ts.append(t)
        fs.append(f)
    return ch, n, e, ts, fs


def chan2(k):
    nx, ny = sa.size("nx", 2), sa.size("ny", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    ch = Channel("ch", (nx, ny), ((ex[0], ex[-1]), (ey[0], ey[-1])))
    ts = []
    fs = []
    for i in range(k):
        t = tmpl2("t" + str(i), nx, ny, ex, ey)
        f = sa.real("f" + str(i), lo=0)
        ch.add_template(PROCESSES[i], t, f)
        ts.append(t)
        fs.append(f)
    return ch, nx, ny, ex, ey, ts, fs


def kernel(n, nu):
    safe = np.where(n == 0, 1.0, n)
    return np.where(n == 0, 0.0, n * np.log(nu / safe))


class OtherTemplate(AbstractTemplate):
    """A template of another kind on the same binning."""

    def __init__(self, like):
        self._like = like
        self._hist = like._hist

    @property
    def bins(self):
        return self._like.bins

    @property
    def num_bins(self):
        return self._like.num_bins

    @property
    def range(self):
        return self._like.range

    @property
    def bin_edges(self):
        return self._like.bin_edges

    @property
    def shape(self):
        return self._like.shape

    def reset(self):
        pass

    def values(self):
        return self._like.values

    def errors(self):
        return self._like.errors

    def all_variables(self):
        return ()

    def add_variation(self, *a):
        pass


def _contents(ch):
    return (ch.num_templates, tuple(ch.processes), [k for k in ch.templates.keys()], [v for v in ch.efficiencies.values()],
            [k for k in ch.efficiencies.keys()], ch.has_data)


def C11_accept():
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    sa.check("empty channel", ch.num_templates, 0)
    sa.check("no data", ch.has_data, False)
    t0, t1 = tmpl1("t0", n, e), tmpl1("t1", n, e)
    f = sa.real("f", lo=0)
    ch.add_template("pm", t0, f)
    ch.add_template("pz", t1)
    sa.check("processes", tuple(ch.processes), ("pm", "pz"))
    sa.check("number of templates", ch.num_templates, 2)
    sa.check("number of nuisance parameters", ch.num_nui_params, 2 * n)
    sa.check("number of bins", ch.num_bins, n)
    sa.check_is("first template", ch["pm"], t0)
    sa.check_is("second template", ch["pz"], t1)
    sa.check("efficiency", ch.efficiencies["pm"], f)
    sa.check("default efficiency", ch.efficiencies["pz"], 1.0)
    sa.check("edges", ch.bin_edges, e)
    d = data1("d", n, e)
    ch.add_data(d)
    sa.check("has data", ch.has_data, True)
    sa.check("data", ch.data_bin_counts, sa.arr("d", n, lo=0))
    d2 = data1("d2", n, e)
    ch.add_data(d2)
    sa.check("replaced data", ch.data_bin_counts, sa.arr("d2", n, lo=0))


def C11_accept_2d():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    sa.check("processes", tuple(ch.processes), ("pm", "pz"))
    sa.check("number of bins", ch.num_bins, nx * ny)
    sa.check("number of nuisance parameters", ch.num_nui_params, 2 * nx * ny)
    d = sa.arr("d", nx, ny, lo=0)
    ch.add_data(Hist2d.from_binned_data(d, (ex, ey)))
    sa.check("data", ch.data_bin_counts, d)


def C11_data_before_templates():
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    r = attempt(lambda: ch.data_bin_counts)
    sa.check("no data yet", r.kind, "RuntimeError")
    ch.add_data(data1("d", n, e))
    sa.check("has data", ch.has_data, True)
    r = attempt(ch.add_data, Hist1d.from_binned_data(sa.arr("x", n + 1, lo=0), sa.edges("ee", n + 1)))
    sa.check("other binning refused", r.kind, "RuntimeError")
    sa.check("data", ch.data_bin_counts, sa.arr("d", n, lo=0))
    t = tmpl1("t", n, e)
    ch.add_template("p", t)
    sa.check_is("template", ch["p"], t)


def _refusals(ch, bad_t, bad_h, good, label):
    ch.add_template("pm", good, 0.5)
    before = _contents(ch)
    for i in range(len(bad_t)):
        r = attempt(ch.add_template, "p" + str(i + 1), bad_t[i], 0.25)
        sa.check(label + " template %d refused" % i, r.kind, "RuntimeError")
        sa.check(label + " channel after template %d" % i, _contents(ch), before)
        sa.check_is(label + " template kept %d" % i, ch["pm"], good)
    for i in range(len(bad_h)):
        r = attempt(ch.add_data, bad_h[i])
        sa.check(label + " data %d refused" % i, r.kind, "RuntimeError")
        sa.check(label + " channel after data %d" % i, _contents(ch), before)


def _h(edges, name):
    e = np.array(edges)
    return Hist1d.from_binned_data(sa.arr(name, len(e) - 1, lo=0), e)


def _g(ex, ey, name):
    ex, ey = np.array(ex), np.array(ey)
    return Hist2d.from_binned_data(sa.arr(name, len(ex) - 1, len(ey) - 1, lo=0), (ex, ey))


def C11_refusals_1d():
    """[conc]"""
    good = [0.0, 1.0, 2.0, 4.0]
    bad = [[0.0, 1.0, 4.0], [0.0, 1.0, 2.0, 3.0, 4.0], [0.5, 1.0, 2.0, 4.0], [0.0, 1.0, 2.0, 3.5], [0.0, 1.5, 2.0, 4.0], [0.0, 1.0, 2.5, 4.0]]
    ch = Channel("ch", 3, (0.0, 4.0))
    bt = [Template1d("b%d" % i, "x", _h(b, "b%d" % i)) for i, b in enumerate(bad)]
    bh = [_h(b, "h%d" % i) for i, b in enumerate(bad)]
    _refusals(ch, bt, bh, Template1d("g", "x", _h(good, "g")), "one axis")
    ch.add_data(_h(good, "d"))
    r = attempt(ch.add_data, bh[4])
    sa.check("bad data after good data", r.kind, "RuntimeError")
    sa.check("good data kept", ch.data_bin_counts, sa.arr("d", 3, lo=0))


def C11_refusals_empty_channel():
    """[conc]"""
    bad = [[0.0, 1.0, 4.0], [0.0, 1.0, 2.0, 3.0, 4.0], [0.5, 1.0, 2.0, 4.0], [0.0, 1.0, 2.0, 3.5]]
    for i, b in enumerate(bad):
        ch = Channel("ch", 3, (0.0, 4.0))
        r = attempt(ch.add_template, "p", Template1d("b", "x", _h(b, "b%d" % i)))
        sa.check("template %d" % i, r.kind, "RuntimeError")
        sa.check("no template %d" % i, (ch.num_templates, len(ch.templates), len(ch.efficiencies)), (0, 0, 0))
        r = attempt(ch.add_data, _h(b, "h%d" % i))
        sa.check("data %d" % i, r.kind, "RuntimeError")
        sa.check("no data %d" % i, ch.has_data, False)


def C11_refusals_2d():
    """[conc]"""
    gx, gy = [0.0, 1.0, 3.0], [0.0, 2.0, 3.0, 5.0]
    bad = [(gy, gx), (gx, [0.0, 2.0, 5.0]), ([0.0, 3.0], gy), (gx, [0.0, 2.0, 3.0, 6.0]), ([0.5, 1.0, 3.0], gy),
           ([0.0, 2.0, 3.0], gy), (gx, [0.0, 2.0, 4.0, 5.0])]
    ch = Channel("ch", (2, 3), ((0.0, 3.0), (0.0, 5.0)))
    bt = [Template2d("b%d" % i, ("x", "y"), _g(b[0], b[1], "b%d" % i)) for i, b in enumerate(bad)]
    bh = [_g(b[0], b[1], "h%d" % i) for i, b in enumerate(bad)]
    _refusals(ch, bt, bh, Template2d("g", ("x", "y"), _g(gx, gy, "g")), "two axes")
    r = attempt(ch.add_template, "q", Template1d("o", "x", _h(gx, "o")))
    sa.check("one axis refused", r.kind, "RuntimeError")
    d = _g(gx, gy, "d")
    ch.add_data(d)
    sa.check("good data", ch.data_bin_counts, sa.arr("d", 2, 3, lo=0))


def C11_refusals_exchanged_axes():
    """[conc] The same range on both axes and the numbers of bins exchanged."""
    gx, gy = [0.0, 1.0, 4.0], [0.0, 2.0, 3.0, 4.0]
    bad = [(gy, gx), (gx, gx), (gy, gy), ([0.0, 4.0], [0.0, 1.0, 2.0, 2.5, 3.0, 3.5, 4.0]), ([0.0, 1.0, 2.0, 2.5, 3.0, 3.5, 4.0], [0.0, 4.0])]
    ch = Channel("ch", (2, 3), ((0.0, 4.0), (0.0, 4.0)))
    bt = [Template2d("b%d" % i, ("x", "y"), _g(b[0], b[1], "b%d" % i)) for i, b in enumerate(bad)]
    bh = [_g(b[0], b[1], "h%d" % i) for i, b in enumerate(bad)]
    for i in range(len(bad)):
        sa.check("template %d of the empty channel" % i, attempt(ch.add_template, "p", bt[i]).kind, "RuntimeError")
        sa.check("no template %d" % i, (ch.num_templates, len(ch.templates), len(ch.efficiencies)), (0, 0, 0))
        sa.check("data %d of the empty channel" % i, attempt(ch.add_data, bh[i]).kind, "RuntimeError")
        sa.check("no data %d" % i, ch.has_data, False)
    _refusals(ch, bt, bh, Template2d("g", ("x", "y"), _g(gx, gy, "g")), "exchanged axes")
    ch.add_data(_g(gx, gy, "d"))
    sa.check("good data", ch.data_bin_counts, sa.arr("d", 2, 3, lo=0))


def C11_refusals_by_edges():
    """[conc] Only the inner edges of one axis differ."""
    gx, gy = [0.0, 1.0, 4.0], [0.0, 2.0, 4.0]
    bad = [([0.0, 2.0, 4.0], [0.0, 1.0, 4.0]), (gx, [0.0, 1.0, 4.0]), ([0.0, 2.0, 4.0], gy)]
    for filled in (False, True):
        ch = Channel("ch", (2, 2), ((0.0, 4.0), (0.0, 4.0)))
        bt = [Template2d("b%d" % i, ("x", "y"), _g(b[0], b[1], "b%d" % i)) for i, b in enumerate(bad)]
        bh = [_g(b[0], b[1], "h%d" % i) for i, b in enumerate(bad)]
        if filled:
            ch.add_data(_g(gx, gy, "d"))
            ch.add_template("g", Template2d("g", ("x", "y"), _g(gx, gy, "g")))
            for i in range(len(bad)):
                sa.check("data %d" % i, attempt(ch.add_data, bh[i]).kind, "RuntimeError")
                sa.check("kept %d" % i, ch.data_bin_counts, sa.arr("d", 2, 2, lo=0))
                sa.check("template %d" % i, attempt(ch.add_template, "p", bt[i]).kind, "RuntimeError")
        else:
            _refusals(ch, bt, bh, Template2d("g", ("x", "y"), _g(gx, gy, "g")), "edges")


def C11_refusals_of_close_edges():
    """[conc] Edges that are close to each other, but not the same."""
    cases = [([0.0, 0.001, 0.01], [0.0, 0.0015, 0.01]), ([0.0, 1.0, 200.0], [0.0, 1.01, 200.0]), ([1000.0, 1001.0, 1003.0], [1000.0, 1001.5, 1003.0]),
             ([5.0, 5.2, 5.3], [5.0, 5.21, 5.3]), ([-1.0, -0.01, 1.0], [-1.0, 0.01, 1.0])]
    for i, (good, bad) in enumerate(cases):
        ch = Channel("ch", 2, (good[0], good[-1]))
        ch.add_template("p", Template1d("g", "x", _h(good, "g")))
        ch.add_data(_h(good, "d"))
        sa.check("data %d" % i, attempt(ch.add_data, _h(bad, "h")).kind, "RuntimeError")
        sa.check("kept %d" % i, ch.data_bin_counts, sa.arr("d", 2, lo=0))
        sa.check("template %d" % i, attempt(ch.add_template, "q", Template1d("b", "x", _h(bad, "b"))).kind, "RuntimeError")
        sa.check("templates %d" % i, (ch.num_templates, len(ch.templates), len(ch.efficiencies)), (1, 1, 1))
        axis = [0.0, 1.0, 2.0, 3.0]
        for good2, bad2 in (((good, axis), (bad, axis)), ((axis, good), (axis, bad))):
            two = Channel("two", (len(good2[0]) - 1, len(good2[1]) - 1), ((good2[0][0], good2[0][-1]), (good2[1][0], good2[1][-1])))
            two.add_template("p", Template2d("g", ("x", "y"), _g(good2[0], good2[1], "g%d" % len(good2[0]))))
            sa.check("data of two axes %d" % i, attempt(two.add_data, _g(bad2[0], bad2[1], "h%d" % len(good2[0]))).kind, "RuntimeError")
            sa.check("none %d" % i, two.has_data, False)
            sa.check("template of two axes %d" % i,
                     attempt(two.add_template, "q", Template2d("b", ("x", "y"), _g(bad2[0], bad2[1], "b%d" % len(good2[0])))).kind, "RuntimeError")
            sa.check("templates of two axes %d" % i, (two.num_templates, len(two.templates), len(two.efficiencies)), (1, 1, 1))


def C11_refusals_of_close_ranges():
    """[conc] Ranges that are close to each other, but not the same."""
    cases = [((0.0, 1.0), [0.0, 0.5, 1.005]), ((0.0, 0.01), [0.001, 0.005, 0.01]), ((1000.0, 1003.0), [1000.0, 1001.5, 1003.5]),
             ((5.0, 5.3), [4.99, 5.2, 5.3]), ((-1.0, 1.0), [-1.0, 0.0, 1.0001])]
    for i, (good, bad) in enumerate(cases):
        ch = Channel("ch", 2, good)
        sa.check("data %d" % i, attempt(ch.add_data, _h(bad, "h")).kind, "RuntimeError")
        sa.check("no data %d" % i, ch.has_data, False)
        sa.check("template %d" % i, attempt(ch.add_template, "q", Template1d("b", "x", _h(bad, "b"))).kind, "RuntimeError")
        sa.check("templates %d" % i, (ch.num_templates, len(ch.templates), len(ch.efficiencies)), (0, 0, 0))
        axis = [0.0, 1.0, 2.0, 3.0]
        for at in (0, 1):
            two = Channel("two", (2, 3), (good, (0.0, 3.0))) if at == 0 else Channel("two", (3, 2), ((0.0, 3.0), good))
            b = (bad, axis) if at == 0 else (axis, bad)
            sa.check("data of two axes %d" % i, attempt(two.add_data, _g(b[0], b[1], "h%d" % at)).kind, "RuntimeError")
            sa.check("no data of two axes %d" % i, two.has_data, False)
            sa.check("template of two axes %d" % i,
                     attempt(two.add_template, "q", Template2d("b", ("x", "y"), _g(b[0], b[1], "b%d" % at))).kind, "RuntimeError")
            sa.check("templates of two axes %d" % i, (two.num_templates, len(two.templates), len(two.efficiencies)), (0, 0, 0))


def C11_second_template_of_process():
    ch, n, e, ts, fs = chan1(2)
    before = _contents(ch)
    r = attempt(ch.add_template, "pm", tmpl1("o", n, e), 0.125)
    sa.check("refused", r.kind, "RuntimeError")
    sa.check("channel", _contents(ch), before)
    sa.check_is("template", ch["pm"], ts[0])
    r = attempt(ch.add_template, "pz", ts[0], 0.125)
    sa.check("refused", r.kind, "RuntimeError")
    sa.check("channel", _contents(ch), before)
    sa.check_is("template", ch["pz"], ts[1])


def C11_other_kind():
    ch, n, e, ts, fs = chan1(1)
    before = _contents(ch)
    r = attempt(ch.add_template, "q", OtherTemplate(tmpl1("o", n, e)), 0.125)
    sa.check("refused", r.kind, "RuntimeError")
    sa.check("channel", _contents(ch), before)


def _expected(ts, fs, y, theta, n):
    tot = 0
    for i in range(len(ts)):
        tot = tot + y[i] * fs[i] * ts[i].fractions(theta[i * n:(i + 1) * n])
    return tot


def _c12(k):
    ch, n, e, ts, fs = chan1(k)
    y = sa.arr("y", k, lo=0)
    theta = sa.arr("theta", k * n)
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))), _expected(ts, fs, y, theta, n))


def C12_one_template():
    _c12(1)


def C12_two_templates():
    _c12(2)


def C12_three_templates():
    _c12(3)


def C12_two_dimensional():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    y = sa.arr("y", 2, lo=0)
    theta = sa.arr("theta", 2 * nx * ny)
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))),
             _expected(ts, fs, y, theta, nx * ny))


def _gaps(k, n=3, corr=False):
    """A channel whose templates have empty bins (with and without an error) and efficiencies that may be anything."""
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts, fs = [], []
    for i in range(k):
        c, s = sa.arr("g%d_c" % i, n, lo=0), sa.arr("g%d_s" % i, n, lo=0)
        c[i % n] = 0.0
        if i % 2:
            s[i % n] = 0.0
        t = Template1d("g", "x", Hist1d.from_binned_data(c, e, s))
        if corr:
            t.add_cov_mat(sa.symmetric("g%d_m" % i, n))
        fs.append(sa.real("h%d" % i))
        ch.add_template(PROCESSES[i], t, fs[i])
        ts.append(t)
    return ch, n, e, ts, fs


def C12_any_numbers():
    """Yields and efficiencies may vanish or be negative."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts, fs = [], []
    for i in range(3):
        ts.append(tmpl1("t%d" % i, n, e))
        fs.append(sa.real("h%d" % i))
        ch.add_template(PROCESSES[i], ts[i], fs[i])
    y, theta = sa.arr("w", 3), sa.arr("theta", 3 * n)
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))), _expected(ts, fs, y, theta, n))
    ch.update_parameters(y, theta)
    for i in range(3):
        sa.check("yield %d" % i, ts[i].yield_param, y[i] * fs[i])
        sa.check("nuisance parameters %d" % i, ts[i].nui_params, theta[i * n:(i + 1) * n])


def C12_empty_bins():
    """[conc] Bins without entries; processes without entries."""
    ch, n, e, ts, fs = _gaps(3)
    y, theta = sa.arr("w", 3), sa.arr("theta", 3 * n)
    zero = np.zeros(3)
    for v in (y, zero, np.array([0.0, y[1], 0.0])):
        for th in (theta, np.zeros(3 * n)):
            sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((v, th))), _expected(ts, fs, v, th, n))


def C12_integers_among_the_efficiencies():
    """[conc] Whole numbers as efficiencies, yields or nuisance parameters are like any other number."""
    n = 2
    e = sa.edges("e", n)
    g, h = sa.real("g", lo=0.25, hi=0.75), sa.real("h", lo=1.25, hi=1.75)
    y, theta = sa.arr("y", 3, lo=0), sa.arr("theta", 3 * n)
    for fs in ((1, g, h), (g, 1, h), (2, h, g), (g, h, 1), (1, 2, 1)):
        ch = Channel("ch", n, (e[0], e[-1]))
        ts = []
        for i in range(3):
            t = tmpl1("t%d" % i, n, e)
            ch.add_template(PROCESSES[i], t, fs[i])
            ts.append(t)
        sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))), _expected(ts, fs, y, theta, n))
        one = np.array([1, 2, 3])
        sa.check("expected content at integer yields", ch.bin_counts_from_param_values(np.concatenate((one, theta))), _expected(ts, fs, one, theta, n))
        whole = np.array([2, 1, 3] + [0] * (3 * n))
        sa.check("expected content at integers", ch.bin_counts_from_param_values(whole), _expected(ts, fs, whole[:3], whole[3:], n))


def C12_process_indices():
    ch, n, e, ts, fs = chan1(3)
    sa.check("indices", list(ch.process_indices(["pa", "q", "pm", "pz"])), [2, 3, 0])
    sa.check("indices of a tuple", list(ch.process_indices(("pz", "pm", "pa"))), [1, 0, 2])


def C12_fit_with_shuffled_processes():
    """Expectation inside the likelihood for templates added in another order."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    names = ("b", "c", "a")
    ts = [tmpl1("t" + p, n, e) for p in names]
    fs = [sa.real("f" + p, lo=0) for p in names]
    for i in range(3):
        ch.add_template(names[i], ts[i], fs[i])
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    order = ["a", "b", "c"]
    y = sa.arr("y", 3, lo=0)
    theta = sa.arr("theta", 3 * n)
    sel = y[ch.process_indices(order)]
    nu = 0
    for i in range(3):
        nu = nu + y[order.index(names[i])] * fs[i] * ts[i].fractions(theta[i * n:(i + 1) * n])
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((sel, theta))), nu)


def C12_updated_values():
    """After updating, the templates hold yield * efficiency and their nuisance block."""
    ch, n, e, ts, fs = chan1(3)
    y = sa.arr("y", 3, lo=0)
    theta = sa.arr("theta", 3 * n)
    ch.update_parameters(y, theta)
    for i in range(3):
        sa.check("yield", ts[i].yield_param, y[i] * fs[i])
        sa.check("nuisance parameters", ts[i].nui_params, theta[i * n:(i + 1) * n])


def _penalty(ts, theta, n):
    tot = 0
    for i in range(len(ts)):
        b = theta[i * n:(i + 1) * n]
        tot = tot + b @ ts[i].inv_corr_mat @ b
    return tot / 2


def _c13(k, corr):
    ch, n, e, ts, fs = chan1(k, corr)
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    y = sa.arr("y", k, lo=0)
    zero = np.zeros(k * n)
    nu = _expected(ts, fs, y, zero, n)
    sa.check("likelihood at nominal shapes", ch.nll_contribution(y, zero), np.sum(nu - d - d * np.log(nu / d)))
    theta = sa.arr("theta", k * n, lo=0.01, hi=0.02)
    nu = _expected(ts, fs, y, theta, n)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))


def C13_one_template():
    _c13(1, True)


def C13_two_templates():
    _c13(2, False)


def C13_two_templates_correlated():
    _c13(2, True)


def C13_three_templates():
    _c13(3, False)


def _c13_signs(k, corr, signs):
    """Every sign of the nuisance parameters has its penalty (and none is needed for a positive content)."""
    ch, n, e, ts, fs = chan1(k, corr)
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    y = sa.arr("y", k, lo=0)
    theta = []
    for i in range(k):
        if signs[i] < 0:
            theta.append(sa.arr("low%d" % i, n, lo=-0.02, hi=-0.01))
        else:
            theta.append(sa.arr("high%d" % i, n, lo=0.01, hi=0.02))
    theta = np.concatenate(theta)
    nu = _expected(ts, fs, y, theta, n)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))


def C13_negative_nuisance_parameters():
    """[conc] Contents that stay positive."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    for k in (1, 2):
        ch = Channel("ch", n, (e[0], e[-1]))
        ts, fs = [], []
        for i in range(k):
            c, s = sa.arr("b%d_c" % i, n, lo=1, hi=2), sa.arr("b%d_s" % i, n, lo=0.1, hi=0.2)
            ts.append(Template1d("t%d" % i, "x", Hist1d.from_binned_data(c, e, s)))
            fs.append(sa.real("f%d" % i, lo=0))
            ch.add_template(PROCESSES[i], ts[i], fs[i])
        d = sa.arr("d", n, lo=0)
        ch.add_data(Hist1d.from_binned_data(d, e))
        y = sa.arr("y", k, lo=0)
        theta = sa.arr("low", k * n, lo=-2, hi=-1)
        nu = _expected(ts, fs, y, theta, n)
        sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))


def C13_signs_of_two_templates():
    _c13_signs(2, True, (1, -1))


def C13_signs_of_three_templates():
    _c13_signs(3, False, (-1, 1, -1))


def C13_empty_data_bins():
    """[conc]"""
    n = 3
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    t = tmpl1("t", n, e)
    ch.add_template("p", t)
    d1 = sa.real("d1", lo=0)
    d = np.array([0.0, d1, 0.0])
    ch.add_data(Hist1d.from_binned_data(d, e))
    y = sa.real("y", lo=0)
    nu = y * t.fractions(np.zeros(n))
    sa.check("likelihood", ch.nll_contribution(np.array([y]), np.zeros(n)), np.sum(nu) - d1 - d1 * np.log(nu[1] / d1))


def C13_empty_template_bins():
    """[conc] Nuisance parameters of empty bins have their penalty as well; contents that stay positive."""
    n = 3
    e = sa.edges("e", n)
    for corr in (False, True):
        ch = Channel("ch", n, (e[0], e[-1]))
        ts, fs = [], []
        for i in range(2):
            c, s = sa.arr("g%d_c" % i, n, lo=1, hi=2), sa.arr("g%d_s" % i, n, lo=0.1, hi=0.2)
            c[i] = 0.0
            if i:
                s[i] = 0.0
            ts.append(Template1d("g%d" % i, "x", Hist1d.from_binned_data(c, e, s)))
            if corr:
                ts[i].add_cov_mat(sa.symmetric("g%d_m" % i, n))
            fs.append(sa.real("f%d" % i, lo=0))
            ch.add_template(PROCESSES[i], ts[i], fs[i])
        d = sa.arr("d", n, lo=0)
        ch.add_data(Hist1d.from_binned_data(d, e))
        y, theta = sa.arr("y", 2, lo=0), sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
        nu = _expected(ts, fs, y, theta, n)
        sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))


def C13_zeros():
    """Data bins, the yield and the efficiency of one of the processes may vanish."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts = [tmpl1("t0", n, e), tmpl1("t1", n, e)]
    fs = [sa.real("f0", lo=0), sa.real("z1", lo=0, zg=True)]
    for i in range(2):
        ch.add_template(PROCESSES[i], ts[i], fs[i])
    d = sa.arr("zd", n, lo=0, zg=True)
    ch.add_data(Hist1d.from_binned_data(d, e))
    y = np.array([sa.real("y0", lo=0), sa.real("y1", lo=0, zg=True)])
    theta = sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
    nu = _expected(ts, fs, y, theta, n)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - kernel(d, nu)) + _penalty(ts, theta, n))


def C13_no_data_entries():
    """[conc]"""
    n = 2
    ch, n, e, ts, fs = chan1(2)
    ch.add_data(Hist1d.from_binned_data(np.zeros(n), e))
    y, theta = sa.arr("y", 2, lo=0), sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
    nu = _expected(ts, fs, y, theta, n)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu) + _penalty(ts, theta, n))


def C13_two_dimensional():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    d = sa.arr("d", nx, ny, lo=0)
    ch.add_data(Hist2d.from_binned_data(d, (ex, ey)))
    y = sa.arr("y", 2, lo=0)
    m = nx * ny
    theta = sa.arr("theta", 2 * m, lo=0.01, hi=0.02)
    nu = _expected(ts, fs, y, theta, m)
    df = d.flatten()
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - df - df * np.log(nu / df)) + _penalty(ts, theta, m))


def C14_template_added_later():
    ch, n, e, ts, fs = chan1(1)
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    y1 = sa.arr("y", 1, lo=0)
    z1 = np.zeros(n)
    ch.nll_contribution(y1, z1)
    ch.bin_counts_from_param_values(np.concatenate((y1, z1)))
    ch.process_indices(("q", "pm"))
    t = tmpl1("u", n, e)
    f = sa.real("g", lo=0)
    ch.add_template("q", t, f)
    y = sa.arr("z", 2, lo=0)
    theta = sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
    nu = _expected([ts[0], t], [fs[0], f], y, theta, n)
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))), nu)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty([ts[0], t], theta, n))
    sa.check("process indices", list(ch.process_indices(("q", "pm"))), [1, 0])
    sa.check("number of nuisance parameters", ch.num_nui_params, 2 * n)


def C14_covariance_added_later():
    ch, n, e, ts, fs = chan1(2)
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    y = sa.arr("y", 2, lo=0)
    theta = sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
    ch.nll_contribution(y, theta)
    ts[1].add_cov_mat(sa.symmetric("m", n))
    nu = _expected(ts, fs, y, theta, n)
    sa.check("expected content", ch.bin_counts_from_param_values(np.concatenate((y, theta))), nu)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))


def C14_data_added_later():
    ch, n, e, ts, fs = chan1(2)
    ch.add_data(data1("d0", n, e))
    y = sa.arr("y", 2, lo=0)
    theta = sa.arr("theta", 2 * n, lo=0.01, hi=0.02)
    ch.nll_contribution(y, theta)
    d = sa.arr("d", n, lo=0)
    ch.add_data(Hist1d.from_binned_data(d, e))
    nu = _expected(ts, fs, y, theta, n)
    sa.check("likelihood", ch.nll_contribution(y, theta), np.sum(nu - d - d * np.log(nu / d)) + _penalty(ts, theta, n))
    sa.check("data", ch.data_bin_counts, d)


def C14_other_process_order():
    ch, n, e, ts, fs = chan1(2)
    sa.check("indices", list(ch.process_indices(("pm", "pz"))), [0, 1])
    sa.check("other indices", list(ch.process_indices(("pz", "pm"))), [1, 0])
    sa.check("indices again", list(ch.process_indices(("pm", "pz"))), [0, 1])


def C14_two_channels_do_not_mix():
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    chs = []
    for k in range(2):
        ch = Channel("ch", n, (e[0], e[-1]))
        t = tmpl1("t%d" % k, n, e)
        f = sa.real("f%d" % k, lo=0)
        ch.add_template("p", t, f)
        chs.append((ch, t, f))
    y = sa.arr("y", 1, lo=0)
    theta = sa.arr("theta", n, lo=0.01, hi=0.02)
    x = np.concatenate((y, theta))
    for k in (0, 1, 0):
        ch, t, f = chs[k]
        sa.check("expected content", ch.bin_counts_from_param_values(x), y[0] * f * t.fractions(theta))


def _sum_values(ts):
    tot = 0
    for t in ts:
        tot = tot + t.values
    return tot


def C15_asimov_1d():
    ch, n, e, ts, fs = chan1(2)
    y = sa.arr("y", 2, lo=0)
    ch.update_parameters(y, sa.arr("theta", 2 * n, lo=0.01, hi=0.02))
    d = data1("d", n, e)
    ch.add_data(d)
    nu = _sum_values(ts)
    h = ch.generate_asimov_dataset()
    sa.check("contents", h.bin_counts, nu)
    sa.check("edges", h.bin_edges, e)
    sa.check("squared errors", h.bin_errors_sq, nu)
    sa.check("data untouched", ch.data_bin_counts, sa.arr("d", n, lo=0))
    for i in range(2):
        sa.check("template untouched", ts[i].yield_param, y[i] * fs[i])
    h = ch.generate_asimov_dataset(integer_values=True)
    sa.check("rounded contents", h.bin_counts, np.rint(nu))
    sa.check("squared errors", h.bin_errors_sq, np.rint(nu))
    sa.check("current expectation", ch.generate_asimov_dataset(False).bin_counts, nu)


def C15_asimov_any_numbers():
    """Contents that vanish or are negative are kept."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts = []
    for i in range(2):
        ts.append(tmpl1("t%d" % i, n, e))
        ch.add_template(PROCESSES[i], ts[i], sa.real("h%d" % i))
    ch.update_parameters(sa.arr("w", 2), sa.arr("theta", 2 * n))
    nu = _sum_values(ts)
    h = ch.generate_asimov_dataset()
    sa.check("contents", h.bin_counts, nu)
    sa.check("rounded contents", ch.generate_asimov_dataset(True).bin_counts, np.rint(nu))


def C15_asimov_of_empty_bins():
    """[conc]"""
    ch, n, e, ts, fs = _gaps(2)
    for y in (np.zeros(2), sa.arr("w", 2)):
        ch.update_parameters(y, np.zeros(2 * n))
        h = ch.generate_asimov_dataset()
        sa.check("contents", h.bin_counts, _sum_values(ts))
        sa.check("edges", h.bin_edges, e)


def C15_toys_of_small_and_large_expectations():
    """[conc] The same random draws whatever the size of the expectation."""
    n = 3
    e = sa.edges("e", n)
    for lo, hi, k in ((0, 0.5, 0), (5, 50, 1), (1000, 100000, 2), (10 ** 7, 10 ** 8, 3)):
        ch = Channel("ch", n, (e[0], e[-1]))
        c = sa.arr("big%d" % k, n, lo=lo, hi=hi)
        t = Template1d("t", "x", Hist1d.from_binned_data(c, e))
        ch.add_template("p", t)
        h = ch.generate_toy_dataset()
        sa.check("mean of the draws %d" % k, sa.draw_mean(h.bin_counts), c)
        sa.check("squared errors %d" % k, h.bin_errors_sq, h.bin_counts)


def C15_asimov_2d():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    ch.update_parameters(sa.arr("y", 2, lo=0), np.zeros(2 * nx * ny))
    nu = _sum_values(ts)
    h = ch.generate_asimov_dataset()
    sa.check("contents", h.bin_counts, nu)
    sa.check("x edges", h.bin_edges[0], ex)
    sa.check("y edges", h.bin_edges[1], ey)
    sa.check("squared errors", h.bin_errors_sq, nu)
    h = ch.generate_asimov_dataset(integer_values=True)
    sa.check("rounded contents", h.bin_counts, np.rint(nu))
    sa.check("squared errors of the rounded contents", h.bin_errors_sq, np.rint(nu))
    ch.update_parameters(sa.arr("z", 2, lo=0), sa.arr("theta", 2 * nx * ny, lo=0.01, hi=0.02))
    nu = _sum_values(ts)
    sa.check("updated contents", ch.generate_asimov_dataset().bin_counts, nu)
    sa.check("updated rounded contents", ch.generate_asimov_dataset(True).bin_counts, np.rint(nu))


def C15_asimov_is_accepted_as_data():
    ch, n, e, ts, fs = chan1(2)
    h = ch.generate_asimov_dataset()
    ch.add_data(h)
    sa.check("data", ch.data_bin_counts, _sum_values(ts))
    c = _sum_values(ts)
    ch.update_parameters(sa.arr("y", 2, lo=0), np.zeros(2 * n))
    sa.check("data after an update", ch.data_bin_counts, c)


def C15_single_template_is_not_shared():
    """[conc]"""
    ch, n, e, ts, fs = chan1(1)
    c = ts[0].values
    h = ch.generate_asimov_dataset()
    h.fill(sa.arr("x", 2), sa.arr("w", 2, lo=0))
    sa.check("template values", ts[0].values, sa.arr("t0_c", n, lo=0))


def C15_toys():
    ch, n, e, ts, fs = chan1(2)
    ch.update_parameters(sa.arr("y", 2, lo=0), sa.arr("theta", 2 * n, lo=0.01, hi=0.02))
    nu = _sum_values(ts)
    h = ch.generate_toy_dataset()
    sa.check("mean of the draws", sa.draw_mean(h.bin_counts), nu)
    sa.check("edges", h.bin_edges, e)
    sa.check("squared errors", h.bin_errors_sq, h.bin_counts)
    g = ch.generate_toy_dataset()
    sa.check("mean of the second draws", sa.draw_mean(g.bin_counts), nu)


def C15_toys_2d():
    ch, nx, ny, ex, ey, ts, fs = chan2(2)
    nu = _sum_values(ts)
    h = ch.generate_toy_dataset()
    sa.check("mean of the draws", sa.draw_mean(h.bin_counts), nu)
    sa.check("x edges", h.bin_edges[0], ex)
    sa.check("y edges", h.bin_edges[1], ey)


def _c16(k, theta):
    ch, n, e, ts, fs = chan1(k)
    _c16_at(ch, ts, fs, n, sa.arr("y", k, lo=0), theta)


def _c16_at(ch, ts, fs, n, y, theta, fixed=()):
    k = len(ts)
    m = k + k * n
    p = Parameters(["a%d" % i for i in range(m)])
    p.values = np.concatenate((y, theta))
    V = sa.symmetric("V", m)
    for i in fixed:
        V[i, :] = 0.0
        V[:, i] = 0.0
    p.covariance = V
    p.errors = np.sqrt(np.diag(V))
    # derivatives of y f_i: f_i for the yield; for the nuisance parameter j of the template, with
    # raw_i = c_i (1 + theta_i eps_i): y eff c_j eps_j (delta_ij S - raw_i) / S^2
    cols = []
    for t in range(k):
        cols.append(fs[t] * ts[t].fractions(theta[t * n:(t + 1) * n]))
    for t in range(k):
        c = sa.arr("t%d_c" % t, n, lo=0)
        s = sa.arr("t%d_s" % t, n, lo=0)
        raw = c + theta[t * n:(t + 1) * n] * s
        S = np.sum(raw)
        for j in range(n):
            col = []
            for i in range(n):
                d = (S if i == j else 0.0) - raw[i]
                col.append(y[t] * fs[t] * s[j] * d / S / S)
            cols.append(np.array(col))
    J = np.array(cols).T
    cov = J @ V @ J.T
    sa.check("bin by bin covariance", ch.propagate_parameter_uncertainties(p), cov)
    sa.check("bin uncertainty", ch.get_post_fit_bin_uncertainty(p) ** 2, np.diag(cov))


def C16_one_template():
    """[conc]"""
    _c16(1, sa.arr("theta", 2, lo=0.01, hi=0.02))


def C16_two_templates():
    """[conc]"""
    _c16(2, sa.arr("theta", 4, lo=0.01, hi=0.02))


def C16_any_numbers():
    """[conc] Yields that vanish or are negative."""
    th = sa.arr("theta", 4, lo=0.01, hi=0.02)
    for y in (np.zeros(2), np.array([0.0, sa.real("w1")])):
        ch, n, e, ts, fs = chan1(2)
        _c16_at(ch, ts, fs, n, y, th)
    ch, n, e, ts, fs = chan1(1)
    _c16_at(ch, ts, fs, n, sa.arr("w", 1), th[:2])


def C16_two_templates_nominal_shapes():
    """[conc]"""
    _c16(2, np.zeros(4))


def C16_fixed_parameters():
    """[conc] Parameters without an uncertainty, as those fixed in a fit."""
    for fixed in ((2,), (0, 3), (1, 2), (0, 1), (2, 3, 4, 5)):
        ch, n, e, ts, fs = chan1(2)
        _c16_at(ch, ts, fs, n, sa.arr("y", 2, lo=0), np.zeros(4), fixed)


def C16_three_templates():
    """[conc] [thorough]"""
    _c16(3, sa.arr("theta", 6, lo=0.01, hi=0.02))
