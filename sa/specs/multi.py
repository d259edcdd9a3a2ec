"""C17-C23: multi channel templates and the likelihood."""
import numpy as np
import sa
from common import attempt
from templatefitter.histograms import Hist1d, Hist2d
from templatefitter.templates import Template1d, Template2d, MultiChannelTemplate
from templatefitter.minimizer import Parameters


class Layout:
    """Channels with templates in an order of their own; efficiencies are symbols.
    channels: list of (name, bins or (bins, bins), [process, ...])
    free: None (all numbers positive), "zeros" (data and the efficiencies after the first of a channel may vanish;
    the likelihood stays defined), "any" (yields, efficiencies, data of any sign)"""

    def __init__(self, processes, channels, data=False, corr=False, signed=False, free=None):
        self.m = MultiChannelTemplate()
        self.free = free
        self.processes = processes
        for p in processes:
            self.m.define_process(p)
        self.blocks = []        # (channel, process, template, efficiency, bins, start, stop)
        self.data = []          # flat
        self.shaped = []        # as added
        self.names = []
        pos = len(processes)
        for name, n, procs in channels:
            two = isinstance(n, tuple)
            if two:
                shape, size = n, n[0] * n[1]
                e = (sa.edges("ex_" + name, n[0]), sa.edges("ey_" + name, n[1]))
                self.m.define_channel(name, n, ((e[0][0], e[0][-1]), (e[1][0], e[1][-1])))
            else:
                shape, size = (n,), n
                e = sa.edges("e_" + name, n)
                self.m.define_channel(name, n, (e[0], e[-1]))
            H = Hist2d if two else Hist1d
            self.names.append(name)
            for p in procs:
                k = name + p
                c = sa.arr(k + "_c", *shape) if signed else sa.arr(k + "_c", *shape, lo=0)
                s = sa.arr(k + "_s", *shape, lo=0)
                # the names of templates mean nothing: another order than that of the templates, or all the same
                tn = "t" if len(self.names) == 2 else "t%d" % (9 - len(self.blocks))
                t = Template2d(tn, ("x", "y"), H.from_binned_data(c, e, s)) if two else Template1d(tn, "x", H.from_binned_data(c, e, s))
                if corr:
                    t.add_cov_mat(sa.symmetric(k + "_m", n))
                if free == "any":
                    f = sa.real("f_" + k)
                elif free == "zeros" and p != procs[0]:
                    f = sa.real("f_" + k, lo=0, zg=True)
                else:
                    f = sa.real("f_" + k, lo=0)
                self.m.add_template(name, p, t, f)
                self.blocks.append((name, p, t, f, size, pos, pos + size))
                pos = pos + size
            if data:
                if free == "any":
                    d = sa.arr("d_" + name, *shape)
                elif free == "zeros":
                    d = sa.arr("d_" + name, *shape, lo=0, zg=True)
                else:
                    d = sa.arr("d_" + name, *shape, lo=0)
                self.m.add_data(**{name: H.from_binned_data(d, e)})
                self.data.append(d.flatten())
                self.shaped.append(d)
        self.size = pos

    def vector(self, name="x", small=True):
        """(parameter vector, yields, nuisance part)"""
        k = len(self.processes)
        y = sa.arr(name + "_y", k) if self.free == "any" else sa.arr(name + "_y", k, lo=0)
        th = sa.arr(name + "_t", self.size - k, lo=0.01, hi=0.02) if small else sa.arr(name + "_t", self.size - k)
        return np.concatenate((y, th)), y, th

    def block(self, b, th):
        k = len(self.processes)
        return th[b[5] - k:b[6] - k]

    def total(self, name, y, th):
        nu = 0
        for b in self.blocks:
            if b[0] == name:
                nu = nu + y[self.processes.index(b[1])] * b[3] * b[2].fractions(self.block(b, th))
        return nu

    def likelihood(self, y, th):
        out = 0
        for i in range(len(self.names)):
            nu = self.total(self.names[i], y, th)
            d = self.data[i]
            if self.free:
                out = out + np.sum(nu - d - np.where(d > 0, d * np.log(nu / np.where(d > 0, d, 1.0)), 0.0))
            else:
                out = out + np.sum(nu - d - d * np.log(nu / d))
        for b in self.blocks:
            x = self.block(b, th)
            out = out + x @ b[2].inv_corr_mat @ x / 2
        return out


def simple(data=False, free=None):
    n = sa.size("n", 2)
    return Layout(["a", "b"], [("u", n, ["a", "b"])], data, free=free)


def mixed(data=False, signed=False, free=None):
    """Two channels of different binning; the templates of each are in another order than the processes."""
    n, m = sa.size("n", 2), sa.size("m", 3)
    return Layout(["a", "b", "c"], [("u", n, ["b", "a"]), ("v", m, ["c", "a", "b"])], data, signed=signed, free=free)


def three(data=False, free=None):
    n, m, k = sa.size("n", 2), sa.size("m", 3), sa.size("k", 1)
    return Layout(["b", "a"], [("w", n, ["a"]), ("u", m, ["b", "a"]), ("v", k, ["b"])], data, free=free)


def four(data=False, free=None):
    """Four channels of one, two and three templates, none with all processes."""
    n, m, k, j = sa.size("n", 2), sa.size("m", 1), sa.size("k", 2), sa.size("j", 1)
    return Layout(["c", "a", "d", "b"], [("z", n, ["a"]), ("x", m, ["d", "c", "b"]), ("y", k, ["b", "a"]), ("w", j, ["c", "d"])], data, free=free)


def odd(data=False, free=None):
    """No order is alphabetical, no two orders are the same; correlated templates; a process of one channel only."""
    n, m = sa.size("n", 2), sa.size("m", 3)
    return Layout(["t", "z", "b", "k"], [("w", m, ["z", "k", "t"]), ("d", n, ["k", "z"]), ("o", n, ["b", "t"])], data, True, free=free)


def strange(data=False, signed=False, free=None):
    """Names with blanks, dots, underscores, different only in case; a two dimensional channel comes first;
    the channel names are no prefixes of the parameter names of one channel only."""
    nx, ny, n, m = sa.size("nx", 2), sa.size("ny", 2), sa.size("n", 3), sa.size("m", 2)
    return Layout(["t t", "_b", "T", "b_yield"],
                  [("_P.1", (nx, ny), ["T", "t t"]), ("u ", n, ["_b", "b_yield", "T", "t t"]), ("_P", m, ["t t"]), ("U_", n, ["_b", "T"])],
                  data, signed=signed, free=free)


def single(data=False, free=None):
    n = sa.size("n", 3)
    return Layout(["a"], [("u", n, ["a"])], data, free=free)


def _counts(L):
    k = 0
    for b in L.blocks:
        k = k + b[4]
    return k


def _names(L):
    out = [p + "_yield" for p in L.processes]
    for b in L.blocks:
        out.extend([b[0] + "_" + b[1] + "_bin_" + str(i) for i in range(b[4])])
    return out


# ---------------------------------------------------------------- C17 layout

def _c17(L):
    nll = L.m.create_nll()
    for i in range(len(L.processes)):
        sa.check("index of process %d" % i, L.m.process_to_index(L.processes[i]), i)
    sa.check("number of processes", L.m.num_processes, len(L.processes))
    sa.check("processes", tuple(L.m.processes), tuple(L.processes))
    sa.check("number of channels", L.m.num_channels, len(L.names))
    sa.check("number of nuisance parameters", L.m.num_nui_params, _counts(L))
    names = nll.param_names
    sa.check("number of names", len(names), L.size)
    sa.check("names", names, _names(L))
    sa.check("number of start values", len(nll.x0), L.size)
    x, y, th = L.vector()
    ys, ths = L.m.generate_per_channel_parameters(x)
    sa.check("number of yield groups", len(ys), len(L.names))
    sa.check("number of nuisance groups", len(ths), len(L.names))
    for i in range(len(L.names)):
        mine = [b for b in L.blocks if b[0] == L.names[i]]
        sa.check("yields of channel " + str(i), ys[i], np.array([y[L.processes.index(b[1])] for b in mine]))
        sa.check("nuisance parameters of channel " + str(i), ths[i], np.concatenate([L.block(b, th) for b in mine]))
        sa.check("nuisance parameters counted in channel " + str(i), L.m.channels[L.names[i]].num_nui_params, len(ths[i]))
    L.m.update_parameters(x)
    x0 = nll.x0
    for i in range(len(L.processes)):
        tot = 0
        for b in L.blocks:
            if b[1] == L.processes[i]:
                tot = tot + y[i] * b[3]
        sa.check("start yield %d after an update" % i, x0[i], tot)
    sa.check("start nuisance parameters after an update", x0[len(L.processes):], th)
    sa.check("names after an update", nll.param_names, names)


def C17_one_template():
    _c17(single())


def C17_one_channel():
    _c17(simple())


def C17_no_common_order():
    _c17(odd())


def C17_two_channels():
    _c17(mixed())


def C17_three_channels():
    _c17(three())


def C17_four_channels():
    _c17(four())


def C17_strange_names():
    _c17(strange())


def C17_start_values():
    L = mixed()
    nll = L.m.create_nll()
    x0 = nll.x0
    for i in range(3):
        tot = 0
        for b in L.blocks:
            if b[1] == L.processes[i]:
                tot = tot + np.sum(b[2].values)
        sa.check("start yield " + str(i), x0[i], tot)
    sa.check("start nuisance parameters", x0[3:], np.zeros(_counts(L)))


def C17_any_numbers():
    """Yields and efficiencies may vanish or be negative."""
    for L in (mixed(free="any"), single(free="any")):
        _c17(L)


def C17_empty_and_missing_templates():
    """[conc] Start yields of empty templates, of contents between zero and one and of processes of no channel."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    m = MultiChannelTemplate()
    for p in ("a", "b", "c"):
        m.define_process(p)
    m.define_channel("u", n, (e[0], e[-1]))
    m.define_channel("v", n, (e[0], e[-1]))
    small = sa.arr("small", n, lo=0, hi=0.25)
    ts = (Template1d("t", "x", Hist1d.from_binned_data(small, e)), Template1d("w", "x", Hist1d.from_binned_data(np.zeros(n), e)),
          Template1d("r", "x", Hist1d.from_binned_data(np.zeros(n), e)))
    m.add_template("u", "b", ts[0])
    m.add_template("u", "a", ts[1])
    m.add_template("v", "a", ts[2], 0.5)
    x0 = m.create_nll().x0
    sa.check("start yields", x0[:3], np.array([0, np.sum(small), 0]))
    sa.check("start nuisance parameters", x0[3:], np.zeros(3 * n))


def C17_many_bins():
    """[conc] More than ten bins, processes and channels."""
    for channels in ([("u", 12, ["a"])], [("u", 11, ["b", "a"])], [("c%d" % i, 1, ["b", "a"] if i % 2 else ["a"]) for i in range(11)]):
        L = Layout(["b", "a"], channels)
        nll = L.m.create_nll()
        sa.check("names", nll.param_names, _names(L))
        sa.check("number of start values", len(nll.x0), L.size)
        x = np.arange(1.0, L.size + 1)
        ys, ths = L.m.generate_per_channel_parameters(x)
        for i in range(len(L.names)):
            mine = [b for b in L.blocks if b[0] == L.names[i]]
            sa.check("yields of channel %d" % i, ys[i], [1.0 + L.processes.index(b[1]) for b in mine])
            sa.check("nuisance parameters of channel %d" % i, ths[i], np.concatenate([x[b[5]:b[6]] for b in mine]))
    L = Layout(["p%d" % i for i in range(11)], [("u", 1, ["p10", "p2", "p0"])])
    sa.check("names", L.m.create_nll().param_names, _names(L))
    ys, ths = L.m.generate_per_channel_parameters(np.arange(1.0, L.size + 1))
    sa.check("yields", ys[0], [11.0, 3.0, 1.0])
    sa.check("nuisance parameters", ths[0], [12.0, 13.0, 14.0])


def C17_two_dimensional_templates():
    nx, ny = sa.size("nx", 2), sa.size("ny", 2)
    ex, ey = sa.edges("ex", nx), sa.edges("ey", ny)
    m = MultiChannelTemplate()
    m.define_process("a")
    m.define_process("b")
    m.define_channel("u", (nx, ny), ((ex[0], ex[-1]), (ey[0], ey[-1])))
    for p in ("b", "a"):
        t = Template2d(p, ("x", "y"), Hist2d.from_binned_data(sa.arr(p + "_c", nx, ny, lo=0), (ex, ey), sa.arr(p + "_s", nx, ny, lo=0)))
        m.add_template("u", p, t)
    nll = m.create_nll()
    names = ["a_yield", "b_yield"]
    for p in ("b", "a"):
        names.extend(["u_" + p + "_bin_" + str(i) for i in range(nx * ny)])
    sa.check("names", nll.param_names, names)
    sa.check("number of nuisance parameters", m.num_nui_params, 2 * nx * ny)
    sa.check("number of start values", len(nll.x0), 2 + 2 * nx * ny)


# ---------------------------------------------------------------- C18 update

def _c18(L):
    x, y, th = L.vector("x", False)
    L.m.update_parameters(x)
    for i in range(len(L.blocks)):
        b = L.blocks[i]
        sa.check("yield " + str(i), b[2].yield_param, y[L.processes.index(b[1])] * b[3])
        sa.check("nuisance parameters " + str(i), b[2].nui_params, L.block(b, th))
    sa.check("nuisance parameters", L.m.nui_params, th)
    sa.check("nuisance part of the start values", L.m.create_nll().x0[len(L.processes):], th)


def C18_one_template():
    _c18(single())


def C18_one_channel():
    _c18(simple())


def C18_no_common_order():
    _c18(odd())


def C18_two_channels():
    _c18(mixed())


def C18_three_channels():
    _c18(three())


def C18_four_channels():
    _c18(four())


def C18_strange_names():
    _c18(strange())


def C18_any_numbers():
    """Yields and efficiencies may vanish or be negative."""
    for L in (mixed(free="any"), simple(free="any"), single(free="any")):
        _c18(L)


def C18_zeros():
    """[conc] Yields and parameters that vanish."""
    L = mixed(free="any")
    k = _counts(L)
    x, y, th = L.vector("x", False)
    L.m.update_parameters(x)
    for v, w in ((np.zeros(3), th), (np.array([0.0, y[1], 0.0]), np.zeros(k)), (y, th), (np.zeros(3), np.zeros(k))):
        L.m.update_parameters(np.concatenate((v, w)))
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("yield %d" % i, b[2].yield_param, v[L.processes.index(b[1])] * b[3])
            sa.check("nuisance parameters %d" % i, b[2].nui_params, L.block(b, w))


def _twice(L):
    x, y, th = L.vector("x", False)
    L.m.update_parameters(x)
    z, w, ph = L.vector("z", False)
    L.m.update_parameters(z)
    for i in range(len(L.blocks)):
        b = L.blocks[i]
        sa.check("yield " + str(i), b[2].yield_param, w[L.processes.index(b[1])] * b[3])
        sa.check("nuisance parameters " + str(i), b[2].nui_params, L.block(b, ph))
    sa.check("first vector", x, np.concatenate((y, th)))


def C18_twice():
    _twice(mixed())


def C18_twice_any_numbers():
    _twice(mixed(free="any"))


def C18_part_of_the_vector_changes():
    """The same yields with other nuisance parameters and the other way round."""
    L = mixed()
    y, z = sa.arr("y", 3, lo=0), sa.arr("z", 3, lo=0)
    t, w = sa.arr("t", _counts(L)), sa.arr("w", _counts(L))
    steps = ((y, t), (y, w), (z, w), (z, t), (z, t), (y, t), (y, np.zeros(_counts(L))), (y, t))
    for k in range(len(steps)):
        v, th = steps[k]
        L.m.update_parameters(np.concatenate((v, th)))
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("step %d yield %d" % (k, i), b[2].yield_param, v[L.processes.index(b[1])] * b[3])
            sa.check("step %d nuisance parameters %d" % (k, i), b[2].nui_params, L.block(b, th))


def C18_after_other_operations():
    """What set the templates before does not matter."""
    L = mixed()
    x, y, th = L.vector("x", False)
    for k in range(4):
        L.m.update_parameters(x)
        if k == 0:
            L.m.reset_parameters()
        if k == 1:
            L.m.set_yield("a", sa.real("q", lo=0))
        if k == 2:
            for b in L.blocks:
                b[2].reset()
        if k == 3:
            L.blocks[1][2].nui_params = np.ones(L.blocks[1][4])
            L.blocks[2][2].yield_param = sa.real("q", lo=0)
        L.m.update_parameters(x)
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("%d yield %d" % (k, i), b[2].yield_param, y[L.processes.index(b[1])] * b[3])
            sa.check("%d nuisance parameters %d" % (k, i), b[2].nui_params, L.block(b, th))


def C18_values_follow():
    """Bin values after an update."""
    L = mixed()
    x, y, th = L.vector("x")
    L.m.update_parameters(x)
    for i in range(len(L.blocks)):
        b = L.blocks[i]
        sa.check("values " + str(i), b[2].values, y[L.processes.index(b[1])] * b[3] * b[2].fractions(L.block(b, th)))


def C18_later_change_of_the_vector():
    """[conc]"""
    L = simple()
    x, y, th = L.vector("x", False)
    keep = x.copy()
    L.m.update_parameters(x)
    for i in range(len(keep)):
        x[i] = -5.0
    for i in range(len(L.blocks)):
        b = L.blocks[i]
        sa.check("yield " + str(i), b[2].yield_param, y[L.processes.index(b[1])] * b[3])
        sa.check("nuisance parameters " + str(i), b[2].nui_params, L.block(b, th))


def C18_template_added_after_an_update():
    n = sa.size("n", 2)
    L = Layout(["a", "b"], [("u", n, ["b"])])
    x, y, th = L.vector("x", False)
    L.m.update_parameters(x)
    c = sa.arr("q_c", n, lo=0)
    t = Template1d("q", "x", Hist1d.from_binned_data(c, sa.edges("e_u", n)))
    f = sa.real("f_q", lo=0)
    L.m.add_template("u", "a", t, f)
    z, w = sa.arr("z", 2, lo=0), sa.arr("w", 2 * n)
    L.m.update_parameters(np.concatenate((z, w)))
    sa.check("yield of the new template", t.yield_param, z[0] * f)
    sa.check("yield of the old template", L.blocks[0][2].yield_param, z[1] * L.blocks[0][3])
    sa.check("parameters of the old template", L.blocks[0][2].nui_params, w[:n])
    sa.check("parameters of the new template", t.nui_params, w[n:])


# ---------------------------------------------------------------- C19 constraints

def C19_penalty():
    L = mixed(True)
    nll = L.m.create_nll()
    x, y, th = L.vector()
    base = nll(x)
    v, s = sa.real("v", lo=0), sa.real("s", lo=0)
    L.m.add_gaussian_constraint_on_yield("b", v, s)
    one = (y[1] - v) ** 2 / (2 * s ** 2)
    sa.check("one constraint", nll(x) - base, one)
    sa.check("constrained", tuple(L.m.constrained_yields), ("b",))
    w, r = sa.real("w", lo=0), sa.real("r", lo=0)
    L.m.add_gaussian_constraint_on_yield("a", w, r)
    two = one + (y[0] - w) ** 2 / (2 * r ** 2)
    sa.check("two constraints", nll(x) - base, two)
    sa.check("new likelihood", L.m.create_nll()(x) - base, two)


def C19_any_numbers():
    """Constraints at zero and at negative values; yields of any sign."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    m = MultiChannelTemplate()
    for p in ("a", "b"):
        m.define_process(p)
    m.define_channel("u", n, (e[0], e[-1]))
    ts = []
    for p in ("a", "b"):
        ts.append(Template1d(p, "x", Hist1d.from_binned_data(sa.arr(p + "_c", n, lo=0), e)))
        m.add_template("u", p, ts[-1])
    d = sa.arr("d", n, lo=0)
    m.add_data(u=Hist1d.from_binned_data(d, e))
    nll = m.create_nll()
    y = sa.arr("y", 2, lo=0)
    x = np.concatenate((y, np.zeros(2 * n)))
    base = nll(x)
    for v in (sa.real("v"), 0.0, 0, -1.5, sa.real("v")):
        m.add_gaussian_constraint_on_yield("b", v, sa.real("s", lo=0))
        sa.check("constraint", nll(x) - base, (y[1] - v) ** 2 / (2 * sa.real("s", lo=0) ** 2))
    m.add_gaussian_constraint_on_yield("a", 0.0, sa.real("r", lo=0))
    sa.check("two constraints", nll(x) - base,
             (y[1] - sa.real("v")) ** 2 / (2 * sa.real("s", lo=0) ** 2) + y[0] ** 2 / (2 * sa.real("r", lo=0) ** 2))


def C19_yields_of_any_sign():
    """[conc] Data without entries: the likelihood is defined for any yields."""
    n = 2
    L = Layout(["a", "b"], [("u", n, ["b", "a"])])
    L.m.add_data(u=Hist1d.from_binned_data(np.zeros(n), sa.edges("e_u", n)))
    nll = L.m.create_nll()
    v, s = sa.real("v"), sa.real("s", lo=0)
    th = sa.arr("t", 2 * n, lo=0.01, hi=0.02)
    for y in (sa.arr("y", 2), np.array([0.0, -1.5]), np.zeros(2), np.array([-3.0, 2.0])):
        x = np.concatenate((y, th))
        m = L.m
        base = np.sum(L.total("u", y, th))
        for b in L.blocks:
            base = base + L.block(b, th) @ b[2].inv_corr_mat @ L.block(b, th) / 2
        m.add_gaussian_constraint_on_yield("b", v, s)
        sa.check("constraint", nll(x) - base, (y[1] - v) ** 2 / (2 * s ** 2))
        m.add_gaussian_constraint_on_yield("b", -2.0, 0.5)
        sa.check("other constraint", nll(x) - base, 2 * (y[1] + 2.0) ** 2)


def C19_redefinition():
    L = simple(True)
    nll = L.m.create_nll()
    x, y, th = L.vector()
    base = nll(x)
    for k in range(2):
        for p in ("a", "b"):
            L.m.add_gaussian_constraint_on_yield(p, sa.real("v%s%d" % (p, k), lo=0), sa.real("s%s%d" % (p, k), lo=0))
    tot = 0
    for i in range(2):
        p = ("a", "b")[i]
        tot = tot + (y[i] - sa.real("v%s1" % p, lo=0)) ** 2 / (2 * sa.real("s%s1" % p, lo=0) ** 2)
    sa.check("last values count once", nll(x) - base, tot)


def C19_undefined_process():
    L = simple(True)
    nll = L.m.create_nll()
    x, y, th = L.vector()
    base = nll(x)
    r = attempt(L.m.add_gaussian_constraint_on_yield, "q", 1.0, 2.0)
    sa.check("refused", r.kind, "RuntimeError")
    sa.check("likelihood", nll(x), base)
    sa.check("constraints", len(L.m.constrained_yields), 0)
    v, s = sa.real("v", lo=0), sa.real("s", lo=0)
    L.m.add_gaussian_constraint_on_yield("a", v, s)
    r = attempt(L.m.add_gaussian_constraint_on_yield, "a_yield", 1.0, 2.0)
    sa.check("refused", r.kind, "RuntimeError")
    sa.check("likelihood with one constraint", nll(x) - base, (y[0] - v) ** 2 / (2 * s ** 2))


def C19_constraint_before_templates():
    n = sa.size("n", 2)
    m = MultiChannelTemplate()
    m.define_process("a")
    m.define_process("b")
    v, s = sa.real("v", lo=0), sa.real("s", lo=0)
    m.add_gaussian_constraint_on_yield("b", v, s)
    e = sa.edges("e", n)
    m.define_channel("u", n, (e[0], e[-1]))
    c, d = sa.arr("c", n, lo=0), sa.arr("d", n, lo=0)
    t = Template1d("t", "x", Hist1d.from_binned_data(c, e))
    m.add_template("u", "b", t)
    m.add_data(u=Hist1d.from_binned_data(d, e))
    y = sa.arr("y", 2, lo=0)
    nu = y[1] * t.fractions(np.zeros(n))
    sa.check("likelihood", m.create_nll()(np.concatenate((y, np.zeros(n)))),
             np.sum(nu - d - d * np.log(nu / d)) + (y[1] - v) ** 2 / (2 * s ** 2))


def C19_constraints_of_two_models_do_not_mix():
    L = simple(True)
    x, y, th = L.vector()
    base = L.m.create_nll()(x)
    o = MultiChannelTemplate()
    o.define_process("a")
    o.add_gaussian_constraint_on_yield("a", 1.0, 2.0)
    sa.check("other model", L.m.create_nll()(x), base)
    sa.check("no constraints", len(L.m.constrained_yields), 0)


# ---------------------------------------------------------------- C20 yields

def _c20(L):
    for p in L.processes:
        tot = 0
        for b in L.blocks:
            if b[1] == p:
                tot = tot + b[2].yield_param
        sa.check("yield of " + p, L.m.get_yield(p), tot)
        sa.check("listed yield of " + p, L.m.process_yields[L.processes.index(p)], tot)
    x, y, th = L.vector("x", False)
    L.m.update_parameters(x)
    cur = [b[2].yield_param for b in L.blocks]
    for p in L.processes:
        v = sa.real("v_" + p) if L.free else sa.real("v_" + p, lo=0)
        L.m.set_yield(p, v)
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            if b[1] == p:
                cur[i] = v * b[3]
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("yield %d after setting %s" % (i, p), b[2].yield_param, cur[i])
            sa.check("nuisance parameters %d after setting %s" % (i, p), b[2].nui_params, L.block(b, th))
        for q in L.processes:
            tot = 0
            for i in range(len(L.blocks)):
                if L.blocks[i][1] == q:
                    tot = tot + cur[i]
            sa.check("yield of %s after setting %s" % (q, p), L.m.get_yield(q), tot)
    sa.check("number of yields", len(L.m.process_yields), len(L.processes))


def C20_one_channel():
    _c20(simple())


def C20_no_common_order():
    _c20(odd())


def C20_two_channels():
    _c20(mixed())


def C20_three_channels():
    _c20(three())


def C20_strange_names():
    _c20(strange())


def C20_any_numbers():
    """Yields and efficiencies may vanish or be negative."""
    for L in (mixed(free="any"), single(free="any")):
        _c20(L)


def C20_zeros():
    """[conc]"""
    L = mixed(free="any")
    x, y, th = L.vector("x", False)
    for p in L.processes:
        L.m.update_parameters(x)
        L.m.set_yield(p, 0.0)
        sa.check("yield of " + p, L.m.get_yield(p), 0)
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("yield %d" % i, b[2].yield_param, 0 if b[1] == p else y[L.processes.index(b[1])] * b[3])
        L.m.set_yield(p, sa.real("v"))
        for i in range(len(L.blocks)):
            b = L.blocks[i]
            sa.check("yield %d" % i, b[2].yield_param, (sa.real("v") if b[1] == p else y[L.processes.index(b[1])]) * b[3])


def C20_yield_errors():
    L = mixed()
    out = []
    for p in L.processes:
        tot = 0
        for b in L.blocks:
            if b[1] == p:
                tot = tot + np.sum(b[2].errors ** 2)
        out.append(tot)
    sa.check("yield errors", L.m.process_yield_errors ** 2, np.array(out))


def C10_all_templates_of_a_model():
    """Resetting brings every template back to its nominal state."""
    L = mixed()
    first = [(b[2].yield_param, b[2].values, b[2].errors) for b in L.blocks]
    x, y, th = L.vector("x")
    L.m.update_parameters(x)
    L.m.reset_parameters()
    for i in range(len(L.blocks)):
        b = L.blocks[i]
        sa.check("yield " + str(i), b[2].yield_param, first[i][0])
        sa.check("nuisance parameters " + str(i), b[2].nui_params, np.zeros(b[4]))
        sa.check("values " + str(i), b[2].values, first[i][1])
        sa.check("errors " + str(i), b[2].errors, first[i][2])


# ---------------------------------------------------------------- C21 names

def _model_state(L):
    m = L.m
    return ([k for k in m.channels.keys()], tuple(m.processes), tuple(m.constrained_yields),
            [k for k in m.constrained_yield_values.keys()], [k for k in m.constrained_yield_errors.keys()],
            [[p for p in ch.processes] for ch in m.channels.values()], [ch.has_data for ch in m.channels.values()],
            [[f for f in ch.efficiencies.values()] for ch in m.channels.values()],
            [b[2].yield_param for b in L.blocks], [b[2].nui_params for b in L.blocks])


def C21_undefined_names():
    L = mixed()
    n = L.blocks[0][4]
    e = sa.edges("e_u", n)
    before = _model_state(L)
    t = Template1d("q", "x", Hist1d.from_binned_data(sa.arr("q", n, lo=0), e))
    h = Hist1d.from_binned_data(sa.arr("d", n, lo=0), e)
    L.m.define_process("d")
    before = _model_state(L)
    tries = [lambda: L.m.add_template("z", "d", t), lambda: L.m.add_template("u", "z", t), lambda: L.m.add_template("a", "u", t),
             lambda: L.m.add_data(z=h), lambda: L.m.add_data(a=h), lambda: L.m.set_yield("z", 1.0), lambda: L.m.set_yield("u", 1.0),
             lambda: L.m.get_yield("z"), lambda: L.m.get_yield("u"), lambda: L.m.define_process("a"), lambda: L.m.define_process("d"),
             lambda: L.m.add_gaussian_constraint_on_yield("z", 1.0, 1.0), lambda: L.m.add_gaussian_constraint_on_yield("u", 1.0, 1.0)]
    for i in range(len(tries)):
        r = attempt(tries[i])
        sa.check("call %d refused" % i, r.kind, "RuntimeError")
        sa.check("state after call %d" % i, _model_state(L), before)


def C21_empty_model():
    n = sa.size("n", 2)
    m = MultiChannelTemplate()
    e = sa.edges("e", n)
    t = Template1d("q", "x", Hist1d.from_binned_data(sa.arr("q", n, lo=0), e))
    h = Hist1d.from_binned_data(sa.arr("d", n, lo=0), e)
    sa.check("template", attempt(lambda: m.add_template("u", "a", t)).kind, "RuntimeError")
    sa.check("data", attempt(lambda: m.add_data(u=h)).kind, "RuntimeError")
    m.define_channel("u", n, (e[0], e[-1]))
    sa.check("template without a process", attempt(lambda: m.add_template("u", "a", t)).kind, "RuntimeError")
    sa.check("no template", m.channels["u"].num_templates, 0)
    m.define_process("a")
    m.add_template("u", "a", t)
    sa.check_is("template added", m.channels["u"]["a"], t)
    sa.check("second template", attempt(lambda: m.add_template("u", "a", t)).kind, "RuntimeError")
    sa.check("one process", m.num_processes, 1)


def C21_undefined_among_defined_data():
    for data in (False, True):
        for first in (True, False):
            L = mixed(data)
            n = L.blocks[0][4]
            h = Hist1d.from_binned_data(sa.arr("other", n, lo=0), sa.edges("e_u", n))
            sets = {"u": h, "z": h} if first else {"z": h, "u": h}
            r = attempt(lambda: L.m.add_data(**sets))
            sa.check("refused", r.kind, "RuntimeError")
            sa.check("data", [ch.has_data for ch in L.m.channels.values()], [data, data])
            if data:
                for k in range(2):
                    sa.check("data of channel %d" % k, L.m.channels[L.names[k]].data_bin_counts, L.shaped[k])


# ---------------------------------------------------------------- C22 total likelihood

def _c22(L):
    nll = L.m.create_nll()
    x, y, th = L.vector()
    sa.check("likelihood", nll(x), L.likelihood(y, th))
    parts = 0
    ys, ths = L.m.generate_per_channel_parameters(x)
    for i in range(len(L.names)):
        parts = parts + L.m.channels[L.names[i]].nll_contribution(ys[i], ths[i])
    sa.check("sum of the channels", nll(x), parts)


def C22_one_template():
    _c22(single(True))


def C22_one_channel():
    _c22(simple(True))


def C22_no_common_order():
    _c22(odd(True))


def C22_two_channels():
    _c22(mixed(True))


def C22_three_channels():
    _c22(three(True))


def C22_four_channels():
    _c22(four(True))


def C22_strange_names():
    _c22(strange(True))


def C22_zeros():
    """Data bins and efficiencies that vanish."""
    for L in (mixed(True, free="zeros"), single(True, free="zeros")):
        _c22(L)


def C22_channel_without_data_entries():
    """[conc]"""
    for empty in ("u", "v"):
        L = mixed(True)
        k = L.names.index(empty)
        L.m.add_data(**{empty: Hist1d.from_binned_data(np.zeros(len(L.data[k])), sa.edges("e_" + empty, len(L.data[k])))})
        x, y, th = L.vector()
        out = np.sum(L.total(empty, y, th))
        for i in range(2):
            if i != k:
                nu, d = L.total(L.names[i], y, th), L.data[i]
                out = out + np.sum(nu - d - d * np.log(nu / d))
        for b in L.blocks:
            out = out + L.block(b, th) @ b[2].inv_corr_mat @ L.block(b, th) / 2
        sa.check("likelihood", L.m.create_nll()(x), out)


def C22_yields_of_any_sign():
    """[conc] Channels without entries: every yield counts, and so does every nuisance parameter."""
    def empty():
        L = Layout(["a", "b", "c"], [("u", 2, ["b"]), ("v", 1, ["c", "a"])])
        for name, n in (("u", 2), ("v", 1)):
            L.m.add_data(**{name: Hist1d.from_binned_data(np.zeros(n), sa.edges("e_" + name, n))})
        return L
    L = empty()
    th = sa.arr("t", 4, lo=0.01, hi=0.02)
    for y in (sa.arr("y", 3), np.zeros(3), np.array([0.0, 2.0, 0.0]), np.array([1.0, 0.0, 3.0]), np.array([2.0, -1.0, -2.0])):
        for z in (th, np.zeros(4), np.array([0.5, -0.5, 0.25, 0.0])):
            if z is not th and isinstance(y[1], float) is False:
                continue
            out = 0
            for name in L.names:
                out = out + np.sum(L.total(name, y, z))
            for b in L.blocks:
                out = out + L.block(b, z) @ b[2].inv_corr_mat @ L.block(b, z) / 2
            sa.check("likelihood", L.m.create_nll()(np.concatenate((y, z))), out)


def C22_with_constraints():
    L = mixed(True)
    L.m.add_gaussian_constraint_on_yield("c", 3.0, 2.0)
    x, y, th = L.vector()
    sa.check("likelihood", L.m.create_nll()(x), L.likelihood(y, th) + (y[2] - 3.0) ** 2 / 8)


def C22_negative_nuisance_parameters():
    """[conc]"""
    n = 2
    L = Layout(["a"], [("u", n, ["a"])], True)
    y, th = sa.arr("y", 1, lo=0), sa.arr("t", n, lo=-0.02, hi=-0.01)
    nll = L.m.create_nll()
    L.m.update_parameters(np.concatenate((y, th)))
    sa.check("penalty", nll(np.concatenate((y, np.zeros(n)))),
             np.sum(L.total("u", y, np.zeros(n)) - L.data[0] - L.data[0] * np.log(L.total("u", y, np.zeros(n)) / L.data[0])))


# ---------------------------------------------------------------- C14 growing models

def C14_model_grows_after_the_likelihood():
    """A likelihood created first follows processes, channels, templates, covariances and data added later."""
    n, k = sa.size("n", 2), sa.size("k", 3)
    L = Layout(["b"], [("v", n, ["b"])], True)
    nll = L.m.create_nll()
    x, y, th = L.vector("x")
    sa.check("one process", nll(x), L.likelihood(y, th))
    nll.x0, nll.param_names, L.m.nui_params, L.m.process_yields, L.m.num_nui_params
    # another process in the first channel
    L.m.define_process("a")
    L.processes.append("a")
    c, f = sa.arr("va_c", n, lo=0), sa.real("f_va", lo=0)
    t = Template1d("va", "x", Hist1d.from_binned_data(c, sa.edges("e_v", n), sa.arr("va_s", n, lo=0)))
    L.m.add_template("v", "a", t, f)
    L.blocks = [("v", "b", L.blocks[0][2], L.blocks[0][3], n, 2, 2 + n), ("v", "a", t, f, n, 2 + n, 2 + n + n)]
    L.size = 2 + n + n
    x, y, th = L.vector("z")
    sa.check("two processes", nll(x), L.likelihood(y, th))
    sa.check("names of two processes", nll.param_names, _names(L))
    sa.check("start values of two processes", len(nll.x0), L.size)
    # another channel
    e = sa.edges("e_u", k)
    L.m.define_channel("u", k, (e[0], e[-1]))
    L.names.append("u")
    c, g = sa.arr("ua_c", k, lo=0), sa.real("f_ua", lo=0)
    r = Template1d("ua", "x", Hist1d.from_binned_data(c, e, sa.arr("ua_s", k, lo=0)))
    L.m.add_template("u", "a", r, g)
    d = sa.arr("d_u", k, lo=0)
    L.m.add_data(u=Hist1d.from_binned_data(d, e))
    L.data.append(d)
    L.blocks.append(("u", "a", r, g, k, L.size, L.size + k))
    L.size = L.size + k
    x, y, th = L.vector("w")
    sa.check("two channels", nll(x), L.likelihood(y, th))
    sa.check("names of two channels", nll.param_names, _names(L))
    sa.check("start values of two channels", nll.x0[2:], np.zeros(n + n + k))
    sa.check("start yields of two channels", nll.x0[:2], [L.blocks[0][2].yield_param, t.yield_param + r.yield_param])
    sa.check("new likelihood", L.m.create_nll()(x), nll(x))
    # a covariance and other data
    r.add_cov_mat(sa.symmetric("m", k))
    d = sa.arr("other", n, lo=0)
    L.m.add_data(v=Hist1d.from_binned_data(d, sa.edges("e_v", n)))
    L.data[0] = d
    sa.check("other data and a covariance", nll(x), L.likelihood(y, th))
    L.m.update_parameters(x)
    for i in range(3):
        b = L.blocks[i]
        sa.check("yield %d" % i, b[2].yield_param, y[L.processes.index(b[1])] * b[3])
        sa.check("nuisance parameters %d" % i, b[2].nui_params, L.block(b, th))


# ---------------------------------------------------------------- C23 purity

def _state(L):
    out = []
    for b in L.blocks:
        t = b[2]
        out.append((t.yield_param, t.nui_params, t.values, t.errors, t.bin_edges, t.inv_corr_mat, t.cov_mat, t.fractions(np.zeros(b[4]))))
    chans = []
    for ch in L.m.channels.values():
        chans.append((ch.num_templates, [p for p in ch.processes], [f for f in ch.efficiencies.values()], ch.data_bin_counts,
                      ch.data_bin_errors_sq if hasattr(ch, "data_bin_errors_sq") else 0))
    return out, chans, L.m.process_yields, L.m.nui_params, tuple(L.m.processes), tuple(L.m.constrained_yields)


def _prepared():
    L = mixed(True)
    z, w, ph = L.vector("z")
    L.m.update_parameters(z)
    L.m.add_gaussian_constraint_on_yield("b", 3.0, 2.0)
    return L


def C23_likelihood():
    L = _prepared()
    before = _state(L)
    nll = L.m.create_nll()
    x, y, th = L.vector()
    first = nll(x)
    sa.check("state", _state(L), before)
    sa.check("parameter vector", x, np.concatenate((y, th)))
    sa.check("second evaluation", nll(x), first)
    z = nll.x0
    nll(z)
    sa.check("state", _state(L), before)
    sa.check("start values", nll.x0, z)


def C23_reports():
    L = _prepared()
    before = _state(L)
    m = L.m
    m.process_yields
    m.process_yield_errors
    m.nui_params
    m.num_nui_params
    nll = m.create_nll()
    nll.param_names
    nll.x0
    m.get_yield("a")
    x, y, th = L.vector()
    m.generate_per_channel_parameters(x)
    m.process_to_index("b")
    for ch in m.channels.values():
        ch.process_indices(m.processes)
        ch.num_nui_params
    sa.check("state", _state(L), before)
    sa.check("parameter vector", x, np.concatenate((y, th)))


def C23_data_sets():
    L = _prepared()
    before = _state(L)
    for i in range(2):
        L.m.generate_toy_dataset()
        L.m.generate_asimov_dataset()
        L.m.generate_asimov_dataset(integer_values=True)
    sa.check("state", _state(L), before)


def C23_generated_data_are_independent():
    """[conc]"""
    L = simple(True)
    before = _state(L)
    h = L.m.generate_asimov_dataset()["u"]
    h.fill(sa.arr("px", 2), sa.arr("pw", 2, lo=0))
    sa.check("state", _state(L), before)
    g = L.m.generate_toy_dataset()["u"]
    g.fill(sa.arr("px", 2), sa.arr("pw", 2, lo=0))
    sa.check("state", _state(L), before)


def C23_returned_arrays_are_copies():
    """[conc] Changing what a read operation returned does not reach the model."""
    for L in (simple(True), single(True), mixed(True)):
        before = _state(L)
        nll = L.m.create_nll()
        for a in (L.m.process_yields, L.m.nui_params, nll.x0, L.m.process_yield_errors):
            for i in range(len(a)):
                a[i] = 7.5
            sa.check("state", _state(L), before)


def C23_channel_reports():
    """[conc]"""
    L = simple(True)
    ch = L.m.channels["u"]
    before = _state(L)
    x, y, th = L.vector()
    p = Parameters(nll_names(L))
    p.values = x
    p.covariance = sa.symmetric("V", 6)
    p.errors = np.sqrt(np.diag(p.covariance))
    ch.propagate_parameter_uncertainties(p)
    ch.get_post_fit_bin_uncertainty(p)
    ch.bin_counts_from_param_values(x)
    sa.check("state", _state(L), before)
    sa.check("parameters", p.values, np.concatenate((y, th)))
    sa.check("covariance", p.covariance, sa.symmetric("V", 6))


def nll_names(L):
    return L.m.create_nll().param_names


def C23_data_histograms():
    """Adding data and templates leaves the histograms passed in alone."""
    n = sa.size("n", 2)
    e = sa.edges("e", n)
    m = MultiChannelTemplate()
    m.define_process("a")
    m.define_channel("u", n, (e[0], e[-1]))
    c, s, d = sa.arr("c", n, lo=0), sa.arr("s", n, lo=0), sa.arr("d", n, lo=0)
    h = Hist1d.from_binned_data(c, e, s)
    g = Hist1d.from_binned_data(d, e)
    t = Template1d("t", "x", h)
    m.add_template("u", "a", t)
    m.add_data(u=g)
    y, th = sa.arr("y", 1, lo=0), sa.arr("t", n, lo=0.01, hi=0.02)
    x = np.concatenate((y, th))
    m.update_parameters(x)
    m.create_nll()(x)
    m.generate_toy_dataset()
    sa.check("template histogram", (h.bin_counts, h.bin_errors, h.bin_edges), (c, s, e))
    sa.check("data histogram", (g.bin_counts, g.bin_edges), (d, e))
