"""C41 (and the legacy parts of C36 and C40): stacked templates of the legacy modules."""
import numpy as np
import pandas as pd
import sa
from common import attempt, hist1
from plots import Axes, band, content, drawn
from templatefitter.histogram_legacy import Hist1d
from templatefitter.templates_legacy import StackedTemplate, Template


class Layout:
    """A stacked template with k templates of n bins each with given contents."""

    def __init__(self, k, n):
        self.k, self.n = k, n
        self.lo, self.hi = 1.0, 4.0
        self.st = StackedTemplate("stack", "x", n, (self.lo, self.hi))
        self.e = self.st.bin_edges
        self.c = []
        self.s = []
        self.ts = []
        for i in range(k):
            c, v = self.fill("t%d" % i)
            t = self.make("t%d" % i)
            self.c.append(c)
            self.s.append(np.sqrt(v))
            self.ts.append(t)
            self.st.add_template("t%d" % i, t)

    def frame(self, name):
        # one entry per bin, in the middle of the bin
        n = self.n
        w = sa.arr(name + "_w", n, lo=0)
        return pd.DataFrame({"x": self.mids(), "weight": w})

    def mids(self):
        h = (self.hi - self.lo) / self.n
        return self.lo + h * (np.arange(self.n) + 0.5)

    def fill(self, name):
        w = sa.arr(name + "_w", self.n, lo=0)
        return w, w * w

    def make(self, name):
        return Template(name, "x", self.n, (self.lo, self.hi), self.frame(name))

    def fractions(self, i, th):
        raw = self.c[i] * (1 + th * self.s[i] / self.c[i])
        return raw / np.sum(raw)


def kernel(d, nu):
    """d log(nu / d), zero without data."""
    one = np.where(d > 0, d, 1)
    return np.where(d > 0, d * np.log(nu / one), 0)


def any_parameters(L, name="z"):
    y, th = sa.arr(name + "_y", L.k), sa.arr(name + "_t", L.k * L.n)
    return np.concatenate((y, th)), y, th


def parameters(L, name="x"):
    y, th = sa.arr(name + "_y", L.k, lo=0), sa.arr(name + "_t", L.k * L.n, lo=0.01, hi=0.02)
    return np.concatenate((y, th)), y, th


def block(L, th, i):
    return th[i * L.n:(i + 1) * L.n]


def quad_sum(xs):
    s = 0
    for x in xs:
        s = s + x ** 2
    return np.sqrt(s)


# ---------------------------------------------------------------- C41

def C41_single_template():
    """[conc]"""
    for n in (1, 3):
        L = Layout(1, n)
        t = L.ts[0]
        c, s = L.c[0], L.s[0]
        sa.check("values", t.values(), c)
        sa.check("errors", t.errors(), s)
        sa.check("yield", t.yield_param_values, np.sum(c))
        sa.check("error of the yield", t.yield_param_errors, np.sqrt(np.sum(s ** 2)))
        sa.check("nuisance parameters", t.nui_param_values, np.zeros(n))
        sa.check("nuisance errors", t.nui_params_errors, np.ones(n))
        sa.check("covariance", t.cov_mat, np.diag(s ** 2))
        sa.check("correlation", t.corr_mat, np.eye(n))
        sa.check("inverse correlation", t.inv_corr_mat, np.eye(n))
        y, th = sa.real("y", lo=0), sa.arr("th", n, lo=0.01, hi=0.02)
        t.yield_param_values = y
        t.nui_param_values = th
        f = L.fractions(0, th)
        sa.check("changed values", t.values(), y * f)
        sa.check("changed errors", t.errors(), y * f * s / c)
        sa.check("fractions", t.fractions(th), f)


def C41_covariance():
    """[conc]"""
    L = Layout(2, 2)
    t = L.ts[1]
    V = sa.symmetric("V", 2)
    keep = V.copy()
    t.add_covariance_matrix(V)
    C = np.diag(L.s[1] ** 2) + keep
    sd = np.sqrt(np.diag(C))
    sa.check("covariance", t.cov_mat, C)
    sa.check("correlation", t.corr_mat, C / np.outer(sd, sd))
    sa.check("inverse correlation", t.inv_corr_mat, np.linalg.inv(C / np.outer(sd, sd)))
    sa.check("errors", t.errors(), t.values() * sd / L.c[1])
    sa.check("argument", V, keep)
    sa.check("the other template", L.ts[0].cov_mat, np.diag(L.s[0] ** 2))
    sa.check("errors of the stack", L.st.errors(), quad_sum([L.ts[0].errors(), L.ts[1].errors()]))
    W = sa.symmetric("W", 2)
    t.add_covariance_matrix(W)
    sa.check("covariance of both", t.cov_mat, C + W)


def C41_empty_bins():
    """[conc]"""
    w = sa.real("w", lo=0)
    t = Template("t", "x", 2, (0.0, 2.0), pd.DataFrame({"x": np.array([0.5]), "weight": np.array([w])}))
    sa.check("values", t.values(), [w, 0])
    sa.check("covariance", t.cov_mat, [[w ** 2, 0], [0, 1e-14]])
    sa.check("errors", t.errors(), [w, 0])
    sa.check("inverse correlation", t.inv_corr_mat, np.eye(2))


def C41_values_and_errors():
    """[conc]"""
    for k in (1, 3):
        L = Layout(k, 2)
        x, y, th = parameters(L)
        sa.check("initial values", L.st.values(), sum(L.c))
        sa.check("initial errors", L.st.errors(), quad_sum(L.s))
        L.st.update_parameters(x, sa.arr("xe", len(x), lo=0))
        v = [y[i] * L.fractions(i, block(L, th, i)) for i in range(k)]
        sa.check("values", L.st.values(), sum(v))
        sa.check("errors", L.st.errors(), quad_sum([v[i] * L.s[i] / L.c[i] for i in range(k)]))
        fr = L.st.fractions(th)
        for i in range(k):
            sa.check("fractions %d" % i, fr[i], L.fractions(i, block(L, th, i)))


def C41_any_numbers():
    """[conc] Yields and nuisance parameters of any sign, zero included."""
    for k in (1, 2):
        L = Layout(k, 2)
        x, y, th = any_parameters(L)
        L.st.update_parameters(x, sa.arr("xe", len(x)))
        v = [y[i] * L.fractions(i, block(L, th, i)) for i in range(k)]
        sa.check("values", L.st.values(), sum(v))
        for i in range(k):
            sa.check("values %d" % i, L.ts[i].values(), v[i])
            sa.check("errors %d" % i, L.ts[i].errors(), v[i] * L.s[i] / L.c[i])
        sa.check("errors", L.st.errors(), quad_sum([t.errors() for t in L.ts]))
        sa.check("yields", L.st.yield_param_values, y)
        sa.check("errors of the yields", L.st.yield_param_errors, sa.arr("xe", len(x))[:k])
        sa.check("nuisance parameters", L.st.nui_param_values.reshape(-1), th)
        for zero in range(k):
            L.ts[zero].yield_param_values = 0.0
            L.ts[zero].nui_param_values = np.zeros(2)
            sa.check("values without %d" % zero, L.st.values(), sum(v[zero + 1:]) + np.zeros(2))
            sa.check("yields without %d" % zero, L.st.yield_param_values, np.concatenate((np.zeros(zero + 1), y[zero + 1:])))
        L.st.reset_parameters()
        sa.check("values after a reset", L.st.values(), sum(L.c))


def C41_weights_of_any_sign():
    """[conc] Negative weights, bins without entries and bins whose weights cancel."""
    w, u, a = sa.real("w", lo=0, hi=1), sa.real("u", lo=0), sa.real("a", lo=2)
    xs = np.array([0.5, 1.5, 1.5, 3.5])
    t = Template("t", "x", 4, (0.0, 4.0), pd.DataFrame({"x": xs, "weight": np.array([-w, u, -u, a])}))
    v = np.array([w ** 2, 2 * u ** 2, 0, a ** 2])
    sa.check("values", t.values(), [-w, 0, 0, a])
    sa.check("yield", t.yield_param_values, a - w)
    sa.check("error of the yield", t.yield_param_errors, np.sqrt(np.sum(v)))
    sa.check("covariance", t.cov_mat, np.diag(v + np.array([0, 0, 1e-14, 0])))
    sa.check("errors", t.errors(), [w, 0, 0, a])
    th = sa.arr("th", 4, lo=0.01, hi=0.02)
    # the relative error of the first bin is w / -w = -1
    raw = np.array([-w * (1 - th[0]), 0, 0, a * (1 + th[3])])
    sa.check("fractions", t.fractions(th), raw / np.sum(raw))


def C41_stack_with_empty_templates():
    """[conc]"""
    L = Layout(2, 2)
    w = sa.real("w", lo=0)
    t = Template("half", "x", 2, (L.lo, L.hi), pd.DataFrame({"x": L.mids()[1:], "weight": np.array([w])}))
    L.st.add_template("half", t)
    sa.check("values", L.st.values(), L.c[0] + L.c[1] + np.array([0, w]))
    sa.check("errors", L.st.errors(), quad_sum([L.s[0], L.s[1], np.array([0, w])]))
    y, th = sa.arr("y", 3), sa.arr("th", 6)
    L.st.update_parameters(np.concatenate((y, th)), sa.arr("xe", 9))
    v = [y[i] * L.fractions(i, block(L, th, i)) for i in range(2)] + [np.array([0, y[2]])]
    sa.check("changed values", L.st.values(), v[0] + v[1] + v[2])
    d = sa.arr("d", 2, lo=0, zg=True)
    nll = L.st.create_nll(Hist1d.from_binned_data(L.e, d))
    nu = v[0] + v[1] + v[2]
    pos = sa.arr("py", 3, lo=0)
    q = sa.arr("q", 6, lo=0.01, hi=0.02)
    nu = pos[0] * L.fractions(0, q[:2]) + pos[1] * L.fractions(1, q[2:4]) + np.array([0, pos[2]])
    sa.check("likelihood", nll(np.concatenate((pos, q))), np.sum(nu - d - kernel(d, nu)) + np.sum(q ** 2) / 2)
    sa.check("start values", nll.x0, np.concatenate((y, th)))


def C41_values_follow_the_templates():
    """[conc]"""
    L = Layout(2, 2)
    L.st.values()
    L.st.errors()
    L.ts[1].yield_param_values = 5.0
    sa.check("values", L.st.values(), L.c[0] + 5.0 * L.c[1] / np.sum(L.c[1]))
    w = sa.arr("late_w", 2, lo=0)
    L.st.create_template("late", L.frame("late"))
    sa.check("values with one more", L.st.values(), L.c[0] + 5.0 * L.c[1] / np.sum(L.c[1]) + w)
    sa.check("errors with one more", L.st.errors(), quad_sum([L.ts[0].errors(), L.ts[1].errors(), w]))
    sa.check("number of templates", L.st.num_templates, 3)
    sa.check("item", L.st["late"].values(), w)


def C41_updating():
    """[conc]"""
    for k in (1, 3):
        L = Layout(k, 2)
        x, y, th = parameters(L)
        e = sa.arr("xe", len(x), lo=0)
        keep = (x.copy(), e.copy())
        L.st.update_parameters(x, e)
        for i in range(k):
            t = L.ts[i]
            sa.check("yield", t.yield_param_values, y[i])
            sa.check("error of the yield", t.yield_param_errors, e[i])
            sa.check("nuisance parameters", t.nui_param_values, block(L, th, i))
            sa.check("nuisance errors", t.nui_params_errors, e[k + i * 2:k + i * 2 + 2])
        sa.check("all yields", L.st.yield_param_values, y)
        sa.check("all errors of the yields", L.st.yield_param_errors, e[:k])
        sa.check("all nuisance parameters", L.st.nui_param_values.reshape(-1), th)
        sa.check("all nuisance errors", L.st.nui_param_errors.reshape(-1), e[k:])
        sa.check("arguments", (x, e), keep)


def C41_single_settings():
    """[conc] Setting one kind of parameters leaves the others alone."""
    L = Layout(3, 2)
    x, y, th = parameters(L)
    e = sa.arr("xe", len(x), lo=0)
    kinds = (("yield_param_values", "z_y", 3), ("nui_param_values", "z_t", 6), ("yield_param_errors", "z_ye", 3), ("nui_param_errors", "z_te", 6))
    for name, s, n in kinds:
        L.st.update_parameters(x, e)
        v = sa.arr(s, n, lo=0)
        setattr(L.st, name, v)
        for other, _, k in kinds:
            now = getattr(L.st, other).reshape(-1)
            was = {"yield_param_values": y, "nui_param_values": th, "yield_param_errors": e[:3], "nui_param_errors": e[3:]}[other]
            sa.check("%s after setting %s" % (other, name), now, v if other == name else was)
        for i in range(3):
            t = L.ts[i]
            sa.check("%s: yield of template %d" % (name, i), t.yield_param_values, v[i] if name == "yield_param_values" else y[i])
            sa.check("%s: nuisance parameters of template %d" % (name, i), t.nui_param_values,
                     v[2 * i:2 * i + 2] if name == "nui_param_values" else block(L, th, i))


def C41_single_template_settings():
    """[conc]"""
    L = Layout(1, 2)
    t = L.ts[0]
    t.yield_param_values = sa.real("y", lo=0)
    t.yield_param_errors = sa.real("ye", lo=0)
    t.nui_param_values = sa.arr("th", 2, lo=0.01, hi=0.02)
    t.nui_params_errors = sa.arr("te", 2, lo=0)
    sa.check("yield", t.yield_param_values, sa.real("y", lo=0))
    sa.check("error of the yield", t.yield_param_errors, sa.real("ye", lo=0))
    sa.check("nuisance parameters", t.nui_param_values, sa.arr("th", 2, lo=0.01, hi=0.02))
    sa.check("nuisance errors", t.nui_params_errors, sa.arr("te", 2, lo=0))
    t.reset_parameters()
    sa.check("yield after a reset", t.yield_param_values, np.sum(L.c[0]))
    sa.check("error of the yield after a reset", t.yield_param_errors, np.sqrt(np.sum(L.s[0] ** 2)))
    sa.check("nuisance parameters after a reset", t.nui_param_values, np.zeros(2))
    sa.check("nuisance errors after a reset", t.nui_params_errors, np.ones(2))


def C41_reset():
    """[conc]"""
    L = Layout(2, 2)
    for name in ("a", "b"):
        x, y, th = parameters(L, name)
        L.st.update_parameters(x, sa.arr(name + "e", len(x), lo=0))
        L.st.reset_parameters()
        for i in range(2):
            t = L.ts[i]
            sa.check(name + ": yield", t.yield_param_values, np.sum(L.c[i]))
            sa.check(name + ": error of the yield", t.yield_param_errors, np.sqrt(np.sum(L.s[i] ** 2)))
            sa.check(name + ": nuisance parameters", t.nui_param_values, np.zeros(2))
            sa.check(name + ": nuisance errors", t.nui_params_errors, np.ones(2))
        sa.check(name + ": values", L.st.values(), L.c[0] + L.c[1])
        sa.check(name + ": errors", L.st.errors(), quad_sum(L.s))


def _names(L):
    out = [t.name + "_yield" for t in L.ts]
    for t in L.ts:
        for i in range(L.n):
            out.append(t.name + "_nui_" + str(i))
    return out


def _nll(k, n, cov):
    L = Layout(k, n)
    if cov:
        L.ts[k - 1].add_covariance_matrix(sa.symmetric("V", n))
    d = sa.arr("d", n, lo=0, zg=True)
    h = Hist1d.from_binned_data(L.e, d)
    nll = L.st.create_nll(h)
    sa.check("names", nll.param_names, _names(L))
    sa.check("start values", nll.x0, np.concatenate([[np.sum(c) for c in L.c], np.zeros(k * n)]))
    x, y, th = parameters(L)
    nu = 0
    pen = 0
    for i in range(k):
        b = block(L, th, i)
        nu = nu + y[i] * L.ts[i].fractions(b)
        pen = pen + b @ L.ts[i].inv_corr_mat @ b / 2
    sa.check("likelihood", nll(x), np.sum(nu - d - kernel(d, nu)) + pen)
    before = (L.st.values(), L.st.yield_param_values, L.st.nui_param_values)
    nll(x)
    sa.check("templates", (L.st.values(), L.st.yield_param_values, L.st.nui_param_values), before)
    L.st.update_parameters(x, sa.arr("xe", len(x), lo=0))
    sa.check("start values after an update", nll.x0, x)
    x2, y2, th2 = parameters(L, "x2")
    nu = 0
    pen = 0
    for i in range(k):
        b = block(L, th2, i)
        nu = nu + y2[i] * L.ts[i].fractions(b)
        pen = pen + b @ L.ts[i].inv_corr_mat @ b / 2
    sa.check("likelihood after an update", nll(x2), np.sum(nu - d - kernel(d, nu)) + pen)


def C41_likelihood_one_template():
    """[conc]"""
    _nll(1, 3, False)


def C41_likelihood():
    """[conc]"""
    _nll(3, 2, False)


def C41_likelihood_with_covariance():
    """[conc]"""
    _nll(2, 2, True)


def C41_likelihood_at_the_templates():
    """[conc] Data equal to the templates: the likelihood vanishes at the start values."""
    L = Layout(2, 2)
    nll = L.st.create_nll(L.st.generate_asimov_dataset())
    sa.check("likelihood", nll(nll.x0), 0)


def C41_incompatible_templates():
    """[conc]"""
    L = Layout(1, 2)
    f = L.frame("t0")
    for other in (Template("o", "y", 2, (1.0, 4.0), pd.DataFrame({"y": L.mids(), "weight": sa.arr("t0_w", 2, lo=0)})),
                  Template("o", "x", 3, (1.0, 4.0), f), Template("o", "x", 2, (1.0, 5.0), f)):
        r = attempt(L.st.add_template, "o", other)
        sa.check("refused", r.raised, True)
        sa.check("number of templates", L.st.num_templates, 1)
        sa.check("values", L.st.values(), L.c[0])
    sa.check("compatible", attempt(L.st.add_template, "o", L.make("t1")).raised, False)


def C41_two_stacks():
    """[conc]"""
    L, M = Layout(2, 2), Layout(1, 2)
    x, y, th = parameters(L)
    L.st.update_parameters(x, sa.arr("xe", len(x), lo=0))
    sa.check("values of the other stack", M.st.values(), M.c[0])
    sa.check("number of templates", (L.st.num_templates, M.st.num_templates), (2, 1))


# ---------------------------------------------------------------- C15 (legacy)

def C15_legacy_datasets():
    """[conc]"""
    L = Layout(2, 2)
    x, y, th = parameters(L)
    L.st.update_parameters(x, sa.arr("xe", len(x), lo=0))
    for t in (L.st, L.ts[1]):
        v = t.values()
        h = t.generate_asimov_dataset()
        sa.check("asimov", h.bin_counts, v)
        sa.check("asimov edges", h.bin_edges, L.e)
        sa.check("asimov squared errors", h.bin_errors_sq, v)
        sa.check("integers", t.generate_asimov_dataset(integer_values=True).bin_counts, np.rint(v))
        g = t.generate_toy_dataset()
        sa.check("mean of the draws", sa.draw_mean(g.bin_counts), v)
        sa.check("toy edges", g.bin_edges, L.e)
        sa.check("independent toys", sa.same(t.generate_toy_dataset().bin_counts, g.bin_counts), False)


def C15_legacy_negative_contents():
    """[conc] The stack decides about the mean of a toy, not its templates: one may be negative somewhere."""
    n = 2
    lo, hi = 1.0, 4.0
    st = StackedTemplate("stack", "x", n, (lo, hi))
    e = st.bin_edges
    mids = lo + (hi - lo) / n * (np.arange(n) + 0.5)
    small, large = sa.arr("small", n, lo=0.5, hi=1.0), sa.arr("large", n, lo=2.0, hi=4.0)
    ws = (large, np.array([small[0], -small[1]]), np.array([-small[1], large[0]]))
    ts = []
    for i in range(3):
        t = Template("t%d" % i, "x", n, (lo, hi), pd.DataFrame({"x": mids, "weight": ws[i]}))
        ts.append(t)
        st.add_template("t%d" % i, t)
    total = ws[0] + ws[1] + ws[2]
    sa.check("values", st.values(), total)
    sa.check("mean of the draws", sa.draw_mean(st.generate_toy_dataset().bin_counts), total)
    sa.check("asimov", st.generate_asimov_dataset().bin_counts, total)


# ---------------------------------------------------------------- C36, C40 (legacy)

def C36_legacy_likelihood():
    """[conc] The legacy likelihood uses the same kernel, in every bin."""
    L = Layout(1, 3)
    a, b = sa.real("a", lo=0), sa.real("b", lo=0)
    nll = L.st.create_nll(Hist1d.from_binned_data(L.e, np.array([a, 0.0, b])))
    x, y, th = parameters(L)
    nu = y[0] * L.fractions(0, th)
    sa.check("likelihood", nll(x), np.sum(nu) - a - b - a * np.log(nu[0] / a) - b * np.log(nu[2] / b) + th @ th / 2)


def C40_legacy_template():
    """[conc]"""
    L = Layout(1, 3)
    t = L.ts[0]
    t.yield_param_values = sa.real("y", lo=0)
    ax = Axes()
    t.plot_on(ax)
    drawn("template", ax.hists[0], L.e, t.values())
    band("template", ax.bars[0], L.e, t.values(), t.errors())


def C40_legacy_stack():
    """[conc]"""
    L = Layout(3, 2)
    x, y, th = parameters(L)
    L.st.update_parameters(x, sa.arr("xe", len(x), lo=0))
    ax = Axes()
    L.st.plot_on(ax)
    xs, bins, ws, stacked, lab = ax.hists[0]
    sa.check_true("stacked", stacked)
    sa.check("edges", bins, L.e)
    for i in range(3):
        sa.check("layer %d" % i, content(xs[i], bins, ws[i]), L.ts[i].values())
        sa.check("name %d" % i, lab[i], "t%d" % i)
    band("stack", ax.bars[0], L.e, L.st.values(), L.st.errors())
