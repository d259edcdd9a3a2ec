"""C40: what the plot methods draw."""
import numpy as np
import sa
from common import attempt
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, Channel
from templatefitter.minimizer import Parameters


class Axes:
    """Records histograms, bars and points; everything else has no effect on them."""

    def __init__(self):
        self.hists = []
        self.bars = []
        self.points = []
        self.planes = []

    def hist(self, x, bins=None, range=None, density=False, weights=None, cumulative=False, bottom=None, histtype="bar",
             align="mid", orientation="vertical", rwidth=None, log=False, color=None, label=None, stacked=False, **kw):
        if bins is None or range is not None or density or cumulative or bottom is not None or align != "mid" or orientation != "vertical":
            sa.undecided("options of hist")
        if isinstance(color, (list, tuple)) and any([c is None for c in color]):
            raise ValueError("Invalid RGBA argument: None")
        self.hists.append((x, bins, weights, stacked, label))
        return None, None, None

    def bar(self, x, height, width=0.8, bottom=0, align="center", **kw):
        left = x - width / 2 if align == "center" else x
        self.bars.append((left, left + width, bottom, bottom + height))

    def fill_between(self, *a, **k):
        sa.undecided("fill_between")

    def errorbar(self, x, y, yerr=None, xerr=None, **kw):
        self.points.append((x, y, yerr))

    def hist2d(self, x, y, bins=10, range=None, density=False, weights=None, cmin=None, cmax=None, **kw):
        if density or range is not None:
            sa.undecided("options of hist2d")
        self.planes.append((x, y, bins, weights))
        return None, None, None, None

    def set_xlabel(self, *a, **k):
        pass

    def set_ylabel(self, *a, **k):
        pass

    def set_title(self, *a, **k):
        pass

    def legend(self, *a, **k):
        pass

    def set_xlim(self, *a, **k):
        pass

    def set_ylim(self, *a, **k):
        pass

    def get_ylim(self):
        return 0, 1


class Figure:
    def colorbar(self, *a, **k):
        pass


def content(x, e, w):
    """Contents of a histogram of x with weights w in the edges e."""
    out = []
    for i in range(len(e) - 1):
        s = 0
        for j in range(len(x)):
            s = s + np.where((x[j] >= e[i]) & (x[j] < e[i + 1]), w[j] if w is not None else 1, 0)
        out.append(s)
    return np.array(out)


def drawn(label, h, e, values):
    """One (single) histogram draws the values in the edges e."""
    x, bins, w, stacked, lab = h
    sa.check(label + ": edges", bins, e)
    sa.check(label + ": contents", content(x, bins, w), values)


def band(label, b, e, values, errors):
    left, right, low, high = b
    sa.check(label + ": left edge of the band", left, e[:-1])
    sa.check(label + ": right edge of the band", right, e[1:])
    sa.check(label + ": lower end of the band", low, values - errors)
    sa.check(label + ": upper end of the band", high, values + errors)


def tmpl(name, n, e, label=None, free=False):
    c, s = sa.arr(name + "_c", n, lo=0), sa.arr(name + "_s", n, lo=0)
    t = Template1d(name, "x", Hist1d.from_binned_data(c, e, s), color=None, pretty_label=label)
    _set(t, name, n, free)
    return t


def _set(t, name, n, free):
    if free:
        t.yield_param = sa.real(name + "_y")
        t.nui_params = sa.arr(name + "_t", n)
    else:
        t.yield_param = sa.real(name + "_y", lo=0)
        t.nui_params = sa.arr(name + "_t", n, lo=0.01, hi=0.02)


def tmpl2(name, n, m, ex, ey, free=False):
    c, s = sa.arr(name + "_c", n, m, lo=0), sa.arr(name + "_s", n, m, lo=0)
    t = Template2d(name, ("x", "y"), Hist2d.from_binned_data(c, (ex, ey), s))
    _set(t, name, n * m, free)
    return t


def C40_template():
    """[conc]"""
    e = sa.edges("e", 3)
    t = tmpl("t", 3, e)
    ax = Axes()
    v, err = t.values.copy(), t.errors.copy()
    t.plot_on(ax)
    sa.check("number of drawn objects", (len(ax.hists), len(ax.bars)), (1, 1))
    drawn("template", ax.hists[0], e, v)
    band("template", ax.bars[0], e, v, err)
    sa.check("label", ax.hists[0][4], "t")


def C40_template_after_changes():
    """[conc]"""
    e = sa.edges("e", 2)
    t = tmpl("t", 2, e, "nice")
    ax = Axes()
    t.plot_on(ax)
    t.yield_param = 7.0
    t.add_cov_mat(sa.symmetric("V", 2))
    t.plot_on(ax)
    drawn("template", ax.hists[1], e, t.values)
    band("template", ax.bars[1], e, t.values, t.errors)
    sa.check("label", ax.hists[1][4], "nice")


def _C40_projections(n):
    ex, ey = sa.edges("ex", 2), sa.edges("ey", n)
    t = tmpl2("t", 2, n, ex, ey)
    v, err = t.values, t.errors
    ax = Axes()
    t.plot_x_projection_on(ax)
    drawn("x", ax.hists[0], ex, np.sum(v, axis=1))
    band("x", ax.bars[0], ex, np.sum(v, axis=1), np.sqrt(np.sum(err ** 2, axis=1)))
    ay = Axes()
    t.plot_y_projection_on(ay)
    drawn("y", ay.hists[0], ey, np.sum(v, axis=0))
    band("y", ay.bars[0], ey, np.sum(v, axis=0), np.sqrt(np.sum(err ** 2, axis=0)))


def C40_projections():
    """[conc]"""
    _C40_projections(3)


def C40_projections_of_a_square():
    """[conc]"""
    _C40_projections(2)


def _C40_plane(n):
    ex, ey = sa.edges("ex", 2), sa.edges("ey", n)
    t = tmpl2("t", 2, n, ex, ey)
    v = t.values
    ax = Axes()
    t.plot_on(Figure(), ax)
    sa.check("number of drawn objects", len(ax.planes), 1)
    x, y, bins, w = ax.planes[0]
    sa.check("x edges", bins[0], ex)
    sa.check("y edges", bins[1], ey)
    for i in range(2):
        for j in range(n):
            s = 0
            for k in range(len(x)):
                s = s + np.where((x[k] >= ex[i]) & (x[k] < ex[i + 1]) & (y[k] >= ey[j]) & (y[k] < ey[j + 1]), w[k], 0)
            sa.check("content %d %d" % (i, j), s, v[i, j])


def C40_plane():
    """[conc]"""
    _C40_plane(3)


def C40_plane_of_a_square():
    """[conc]"""
    _C40_plane(2)


def _channel(n, k, data, free=False):
    e = sa.edges("e", n)
    ch = Channel("ch", n, (e[0], e[-1]))
    ts = []
    for i in range(k):
        t = tmpl("t%d" % i, n, e, "pretty" if i == 1 else None, free)
        ch.add_template("p%d" % i, t, sa.real("f%d" % i) if free else sa.real("f%d" % i, lo=0))
        ts.append(t)
    if data:
        ch.add_data(Hist1d.from_binned_data(*_data(n, e, free)))
    return ch, e, ts


def _data(n, e, free):
    if free:
        return sa.arr("d", n), e, sa.arr("ds", n, lo=0, zg=True)
    return sa.arr("d", n, lo=0), e, sa.arr("ds", n, lo=0)


def _stack(label, ax, e, ts, errors, data, free=False):
    n = len(e) - 1
    layers = []
    total = 0
    names = []
    for h in ax.hists:
        x, bins, w, stacked, lab = h
        sa.check(label + ": edges", bins, e)
        sa.check_true(label + ": stacked", stacked)
        for i in range(len(w)):
            layers.append(content(x[i], bins, w[i]))
            names.append(lab[i])
    sa.check(label + ": number of layers", len(layers), len(ts))
    for i in range(len(ts)):
        sa.check(label + ": layer %d" % i, layers[i], ts[i].values)
        sa.check(label + ": name %d" % i, names[i], "pretty" if i == 1 else ts[i].name)
        total = total + ts[i].values
    sa.check(label + ": number of bands", len(ax.bars), 1)
    band(label, ax.bars[0], e, total, errors)
    if data:
        sa.check(label + ": number of points", len(ax.points), 1)
        x, y, ye = ax.points[0]
        sa.check(label + ": points in the bins", content(x, e, None), np.ones(n))
        d, _, ds = _data(n, e, free)
        sa.check(label + ": data", y, d)
        sa.check(label + ": errors of the data", ye, ds)
    else:
        sa.check(label + ": no data", len(ax.points), 0)


def _total_errors(ts):
    s = 0
    for t in ts:
        s = s + t.errors ** 2
    return np.sqrt(s)


def C40_stack():
    """[conc]"""
    for k in (1, 3):
        ch, e, ts = _channel(2, k, True)
        ax = Axes()
        ch.plot_stacked_on(ax)
        _stack("%d templates" % k, ax, e, ts, _total_errors(ts), True)


def C40_stack_without_data():
    """[conc]"""
    ch, e, ts = _channel(2, 2, False)
    ax = Axes()
    ch.plot_stacked_on(ax)
    _stack("stack", ax, e, ts, _total_errors(ts), False)


def C40_stack_with_negative_yields():
    """[conc] Errors are added in quadrature whatever the signs of the contents."""
    for k, negative in ((1, (0,)), (3, (1,)), (3, (0, 2)), (3, (0, 1, 2))):
        ch, e, ts = _channel(2, k, True)
        for i in negative:
            ts[i].yield_param = sa.real("neg%d" % i, hi=-0.1)
        ax = Axes()
        ch.plot_stacked_on(ax)
        _stack("%d templates" % k, ax, e, ts, _total_errors(ts), True)


def C40_any_numbers():
    """[conc] Yields, nuisance parameters, efficiencies and data of any sign or zero."""
    e = sa.edges("e", 3)
    t = tmpl("s", 3, e, None, True)
    ax = Axes()
    t.plot_on(ax)
    drawn("template", ax.hists[0], e, t.values)
    band("template", ax.bars[0], e, t.values, t.errors)
    ex, ey = sa.edges("ex", 2), sa.edges("ey", 2)
    q = tmpl2("q", 2, 2, ex, ey, True)
    v, err = q.values, q.errors
    ax = Axes()
    q.plot_x_projection_on(ax)
    drawn("x", ax.hists[0], ex, np.sum(v, axis=1))
    band("x", ax.bars[0], ex, np.sum(v, axis=1), np.sqrt(np.sum(err ** 2, axis=1)))
    ay = Axes()
    q.plot_y_projection_on(ay)
    drawn("y", ay.hists[0], ey, np.sum(v, axis=0))
    band("y", ay.bars[0], ey, np.sum(v, axis=0), np.sqrt(np.sum(err ** 2, axis=0)))
    ax = Axes()
    q.plot_on(Figure(), ax)
    x, y, bins, w = ax.planes[0]
    for i in range(2):
        for j in range(2):
            s = 0
            for k in range(len(x)):
                s = s + np.where((x[k] >= ex[i]) & (x[k] < ex[i + 1]) & (y[k] >= ey[j]) & (y[k] < ey[j + 1]), w[k], 0)
            sa.check("content %d %d" % (i, j), s, v[i, j])


def C40_stack_of_any_numbers():
    """[conc]"""
    ch, e, ts = _channel(2, 2, True, True)
    ax = Axes()
    ch.plot_stacked_on(ax)
    _stack("stack", ax, e, ts, _total_errors(ts), True, True)
    for k in (0, 1):
        ts[k].yield_param = 0.0
        ax = Axes()
        ch.plot_stacked_on(ax)
        _stack("stack without %d" % k, ax, e, ts, _total_errors(ts), True, True)


def C40_post_fit_of_any_numbers():
    """[conc]"""
    ch, e, ts = _channel(2, 2, True, True)
    p = _result(2, 2)
    p.values = np.concatenate((sa.arr("ny", 2), sa.arr("nt", 4)))
    err = np.sqrt(np.diag(ch.propagate_parameter_uncertainties(p)))
    ax = Axes()
    ch.plot_post_fit_stacked_on(ax, p)
    _stack("post fit", ax, e, ts, err, True, True)
    u = p.errors[2:]
    err = np.sqrt((u[:2] * ts[0].errors) ** 2 + (u[2:] * ts[1].errors) ** 2)
    ax = Axes()
    ch.plot_post_fit_stacked_on(ax, p, "scale")
    _stack("scaled", ax, e, ts, err, True, True)


def C40_stack_with_empty_templates():
    """[conc]"""
    ch, e, ts = _channel(2, 2, False)
    ts[0].yield_param = 0.0
    t = Template1d("none", "x", Hist1d.from_binned_data(np.zeros(2), e))
    ch.add_template("none", t)
    ax = Axes()
    ch.plot_stacked_on(ax)
    _stack("stack", ax, e, ts + [t], _total_errors(ts + [t]), False)


def C40_post_fit_of_negative_yields():
    """[conc]"""
    ch, e, ts = _channel(2, 2, True)
    p = _result(2, 2)
    p.values = np.concatenate(([sa.real("ny", hi=-0.1)], p.values[1:]))
    err = np.sqrt(np.diag(ch.propagate_parameter_uncertainties(p)))
    ax = Axes()
    ch.plot_post_fit_stacked_on(ax, p)
    _stack("post fit", ax, e, ts, err, True)


def C40_stack_of_a_changed_channel():
    """[conc]"""
    ch, e, ts = _channel(2, 2, False)
    ch.plot_stacked_on(Axes())
    ts[0].yield_param = 3.0
    ts[1].add_cov_mat(sa.symmetric("V", 2))
    t = tmpl("late", 2, e)
    ch.add_template("late", t, 1.0)
    ch.add_data(Hist1d.from_binned_data(sa.arr("d", 2, lo=0), e, sa.arr("ds", 2, lo=0)))
    ax = Axes()
    ch.plot_stacked_on(ax)
    _stack("stack", ax, e, ts + [t], _total_errors(ts + [t]), True)


def _result(k, n):
    m = k + k * n
    p = Parameters(["a%d" % i for i in range(m)])
    p.values = np.concatenate((sa.arr("py", k, lo=0), sa.arr("pt", k * n, lo=0.01, hi=0.02)))
    V = sa.symmetric("PV", m)
    p.covariance = V
    p.errors = np.sqrt(np.diag(V))
    return p


def C40_post_fit_stack():
    """[conc]"""
    for data in (False, True):
        ch, e, ts = _channel(2, 2, data)
        p = _result(2, 2)
        err = np.sqrt(np.diag(ch.propagate_parameter_uncertainties(p)))
        ax = Axes()
        ch.plot_post_fit_stacked_on(ax, p)
        _stack("post fit", ax, e, ts, err, data)


def C40_post_fit_stack_scaled():
    """[conc]"""
    ch, e, ts = _channel(2, 2, True)
    p = _result(2, 2)
    u = p.errors[2:]
    err = np.sqrt((u[:2] * ts[0].errors) ** 2 + (u[2:] * ts[1].errors) ** 2)
    ax = Axes()
    ch.plot_post_fit_stacked_on(ax, p, "scale")
    _stack("post fit", ax, e, ts, err, True)


def C40_plots_change_nothing():
    """[conc]"""
    ch, e, ts = _channel(2, 2, True)
    before = [(t.yield_param, t.nui_params, t.values, t.errors) for t in ts]
    ch.plot_stacked_on(Axes())
    ch.plot_post_fit_stacked_on(Axes(), _result(2, 2))
    ts[0].plot_on(Axes())
    sa.check("templates", [(t.yield_param, t.nui_params, t.values, t.errors) for t in ts], before)
    sa.check("data", ch.data_bin_counts, sa.arr("d", 2, lo=0))


def _everything(ts, h, p):
    out = []
    for t in ts:
        out.append((t.yield_param, t.nui_params, t.values, t.errors, t.bin_edges, t.cov_mat, t.inv_corr_mat))
    return (out, (h.bin_counts, h.bin_errors, h.bin_errors_sq, h.bin_edges) if h is not None else 0,
            (p.values, p.covariance, p.errors) if p is not None else 0)


def _marks(ax):
    return [(h[0], h[1], h[2]) for h in ax.hists], [b for b in ax.bars], [q for q in ax.points]


def C23_plots():
    """[conc]"""
    e = sa.edges("e", 2)
    ch = Channel("ch", 2, (e[0], e[-1]))
    ts = []
    for i in range(2):
        t = tmpl("t%d" % i, 2, e, None)
        t.add_cov_mat(sa.symmetric("V%d" % i, 2))
        ch.add_template("p%d" % i, t, sa.real("f%d" % i, lo=0))
        ts.append(t)
    h = Hist1d.from_binned_data(sa.arr("d", 2, lo=0), e, sa.arr("ds", 2, lo=0))
    ch.add_data(h)
    p = _result(2, 2)
    before = _everything(ts, h, p)
    first = Axes()
    ch.plot_stacked_on(first)
    sa.check("after stacked", _everything(ts, h, p), before)
    post, scaled, one = Axes(), Axes(), Axes()
    ch.plot_post_fit_stacked_on(post, p)
    sa.check("after post fit", _everything(ts, h, p), before)
    ch.plot_post_fit_stacked_on(scaled, p, "scale")
    sa.check("after scaled", _everything(ts, h, p), before)
    ts[0].plot_on(one)
    sa.check("after a template", _everything(ts, h, p), before)
    sa.check("data", ch.data_bin_counts, sa.arr("d", 2, lo=0))
    again = Axes()
    ch.plot_stacked_on(again)
    sa.check("same plot", _marks(again), _marks(first))
    again = Axes()
    ch.plot_post_fit_stacked_on(again, p)
    sa.check("same post-fit plot", _marks(again), _marks(post))
    again = Axes()
    ch.plot_post_fit_stacked_on(again, p, "scale")
    sa.check("same scaled plot", _marks(again), _marks(scaled))
    again = Axes()
    ts[0].plot_on(again)
    sa.check("same template", _marks(again), _marks(one))


def C23_plots_of_two_dimensions():
    """[conc]"""
    ex, ey = sa.edges("ex", 2), sa.edges("ey", 3)
    t = tmpl2("t", 2, 3, ex, ey)
    before = _everything([t], None, None)
    first, firsty = Axes(), Axes()
    t.plot_x_projection_on(first)
    sa.check("x", _everything([t], None, None), before)
    t.plot_y_projection_on(firsty)
    sa.check("y", _everything([t], None, None), before)
    t.plot_on(Figure(), Axes())
    sa.check("plane", _everything([t], None, None), before)
    again = Axes()
    t.plot_x_projection_on(again)
    sa.check("same x", _marks(again), _marks(first))
    again = Axes()
    t.plot_y_projection_on(again)
    sa.check("same y", _marks(again), _marks(firsty))


def C40_colours():
    """[conc] Some templates with, some without a colour."""
    for colours in ((None, None), ("red", None), (None, "blue"), ("red", "blue")):
        e = sa.edges("e", 2)
        ch = Channel("ch", 2, (e[0], e[-1]))
        ts = []
        for i in range(2):
            c, s = sa.arr("t%d_c" % i, 2, lo=0), sa.arr("t%d_s" % i, 2, lo=0)
            t = Template1d("t%d" % i, "x", Hist1d.from_binned_data(c, e, s), color=colours[i], pretty_label="pretty" if i == 1 else None)
            ch.add_template("p%d" % i, t)
            ts.append(t)
        ax = Axes()
        ch.plot_stacked_on(ax)
        _stack("stack", ax, e, ts, _total_errors(ts), False)
        ax = Axes()
        p = _result(2, 2)
        ch.plot_post_fit_stacked_on(ax, p)
        _stack("post fit", ax, e, ts, np.sqrt(np.diag(ch.propagate_parameter_uncertainties(p))), False)
