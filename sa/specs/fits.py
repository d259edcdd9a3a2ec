"""C28-C31: the template fitter."""
import numpy as np
import sa
from common import attempt, outcomes
from multi import Layout
from templatefitter.histograms import Hist1d
from templatefitter.fitter import TemplateFitter

BACKENDS = ("scipy", "iminuit")


def model():
    return Layout(["t", "b"], [("u", 2, ["b", "t"])], True)


def model2():
    return Layout(["t", "b", "c"], [("u", 1, ["c", "t"]), ("v", 2, ["b"])], True)


def model3():
    """A process in two channels, names with blanks, dots and underscores, differing in case."""
    return Layout(["_t", "B 1", "T"], [("V", 1, ["_t"]), ("u.", 1, ["B 1", "_t"]), ("v", 1, ["T"])], True)


def tiny():
    return Layout(["t", "b"], [("u", 1, ["b", "t"])], True)


def fits():
    return sa.global_list("fits")


def nuis(L):
    return [i for i in range(len(L.processes), L.size)]


def pair(b):
    return (None, None) if b is None else (b[0], b[1])


def settings(label, ev, L, fixed, bounds):
    n = L.size
    sa.check(label + ": fixed parameters", ev["fixed"], [1 if i in fixed else 0 for i in range(n)])
    sa.check(label + ": other constraints", len(ev["odd"]), 0)
    sa.check(label + ": constraints on the same parameter", ev["double"], 0)
    sa.check(label + ": bounds", [pair(b) for b in ev["limits"]], [bounds[i] if i in bounds else (None, None) for i in range(n)])


# ---------------------------------------------------------------- C28

def _fresh(backend, make=model):
    L = make()
    return L, TemplateFitter(L.m, backend)


def _configured(backend):
    """A parameter fixed by name, one by index, one bounded."""
    L, f = _fresh(backend)
    f.set_parameter_fixed("u_b_bin_1")
    f.set_parameter_fixed(4)
    f.set_parameter_bounds("b_yield", (0.0, 50.0))
    f.set_parameter_bounds(5, (-1.0, None))
    return L, f, [3, 4], {1: (0.0, 50.0), 5: (-1.0, None)}


def C28_fit():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        f.do_fit(verbose=0)
        settings(backend + " nothing set", fits()[-1], L, [], {})
        L, f, fixed, bounds = _configured(backend)
        f.do_fit(verbose=0)
        settings(backend, fits()[-1], L, fixed, bounds)
        f.do_fit(update_templates=False, get_hesse=False, verbose=0)
        settings(backend + " again", fits()[-1], L, fixed, bounds)
        f.set_parameter_fixed("t_yield")
        f.do_fit(verbose=0)
        settings(backend + " one more", fits()[-1], L, [0] + fixed, bounds)


def C28_fit_with_fixed_nuisance_parameters():
    """[conc]"""
    for backend in BACKENDS:
        for make in (model, model2, model3):
            L, f = _fresh(backend, make)
            f.do_fit(verbose=0, fix_nui_params=True)
            settings(backend + " one call", fits()[-1], L, nuis(L), {})
            f.do_fit(verbose=0)
            settings(backend + " next call", fits()[-1], L, [], {})
            f.fix_nui_params()
            f.do_fit(verbose=0)
            settings(backend + " fitter", fits()[-1], L, nuis(L), {})
            f.set_parameter_fixed(L.processes[0] + "_yield")
            f.set_parameter_fixed(L.size - 1)
            f.do_fit(verbose=0)
            settings(backend + " fitter and parameters", fits()[-1], L, [0] + nuis(L), {})


def C28_fit_with_nuisance_limits():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        lim = (-2.5, 2.5)
        f.do_fit(verbose=0, nui_param_limits=lim)
        settings(backend, fits()[-1], L, [], {i: lim for i in nuis(L)})
        f.set_parameter_bounds("t_yield", (1.0, 9.0))
        f.do_fit(verbose=0, nui_param_limits=lim)
        b = {i: lim for i in nuis(L)}
        b[0] = (1.0, 9.0)
        settings(backend + " and a yield", fits()[-1], L, [], b)
        f.do_fit(verbose=0)
        settings(backend + " without limits", fits()[-1], L, [], {0: (1.0, 9.0)})
        f.set_parameter_bounds("u_b_bin_1", (-0.5, 0.5))
        f.set_parameter_bounds(4, (None, 0.25))
        f.set_parameter_fixed("u_b_bin_0")
        f.do_fit(verbose=0, nui_param_limits=lim)
        b[3] = (-0.5, 0.5)
        b[4] = (None, 0.25)
        settings(backend + " and single nuisance parameters", fits()[-1], L, [2], b)


def C28_significance():
    """[conc]"""
    for backend in BACKENDS:
        L, f, fixed, bounds = _configured(backend)
        k = len(fits())
        f.set_parameter_fixed("t_yield")
        f.get_significance("b", verbose=0)
        settings(backend + " nominal", fits()[k], L, [0] + fixed, bounds)
        if fits()[k]["values"][1] >= 0:
            sa.check(backend + " number of fits", len(fits()) - k, 2)
            settings(backend + " background", fits()[k + 1], L, [0, 1] + fixed, bounds)


def C28_significance_with_fixed_nuisance_parameters():
    """[conc]"""
    for backend in BACKENDS:
        for on_fitter in (False, True):
            L, f = _fresh(backend, model2)
            f.set_parameter_bounds("c_yield", (0.0, None))
            if on_fitter:
                f.fix_nui_params()
            k = len(fits())
            f.get_significance("c", verbose=0, fix_nui_params=not on_fitter)
            settings(backend + " nominal", fits()[k], L, nuis(L), {2: (0.0, None)})
            if fits()[k]["values"][2] >= 0:
                settings(backend + " background", fits()[k + 1], L, [2] + nuis(L), {2: (0.0, None)})


def C28_profile():
    """[conc]"""
    for backend in BACKENDS:
        L, f, fixed, bounds = _configured(backend)
        k = len(fits())
        f.profile("t_yield", num_cpu=2, num_points=3)
        sa.check(backend + " number of fits", len(fits()) - k, 4)
        settings(backend + " nominal", fits()[k], L, fixed, bounds)
        for i in range(3):
            settings(backend + " scan %d" % i, fits()[k + 1 + i], L, [0] + fixed, bounds)


def C28_profile_with_fixed_nuisance_parameters():
    """[conc]"""
    for backend in BACKENDS:
        for on_fitter in (False, True):
            L, f = _fresh(backend, model2)
            if on_fitter:
                f.fix_nui_params()
            k = len(fits())
            f.profile(1, num_cpu=1, num_points=2, fix_nui_params=not on_fitter)
            settings(backend + " nominal", fits()[k], L, nuis(L), {})
            for i in range(2):
                settings(backend + " scan %d" % i, fits()[k + 1 + i], L, [1] + nuis(L), {})


def _with_nuis(backend, L):
    """A fitter with a fixed and a bounded yield, a fixed and a bounded nuisance parameter."""
    f = TemplateFitter(L.m, backend)
    k = len(L.processes)
    f.set_parameter_fixed(L.processes[0] + "_yield")
    f.set_parameter_fixed(k)
    f.set_parameter_bounds(1, (0.5, 8.0))
    f.set_parameter_bounds(L.size - 1, (-3.0, 3.0))
    return f, [0] + nuis(L), {1: (0.5, 8.0), L.size - 1: (-3.0, 3.0)}


def C28_fixed_nuisance_parameters_of_one_call():
    """[conc] Together with settings of single parameters."""
    for backend in BACKENDS:
        L = tiny()
        f, fixed, bounds = _with_nuis(backend, L)
        f.do_fit(verbose=0, fix_nui_params=True)
        settings(backend + " fit", fits()[-1], L, fixed, bounds)
        k = len(fits())
        f.profile(1, num_cpu=1, num_points=1, fix_nui_params=True)
        settings(backend + " nominal fit of the profile", fits()[k], L, fixed, bounds)
        settings(backend + " scan", fits()[k + 1], L, [1] + fixed, bounds)
        k = len(fits())
        f.get_significance("b", verbose=0, fix_nui_params=True)
        settings(backend + " nominal fit of the significance", fits()[k], L, fixed, bounds)
        if len(fits()) > k + 1:
            settings(backend + " background", fits()[k + 1], L, [1] + fixed, bounds)
        f.do_fit(verbose=0)
        settings(backend + " fit without", fits()[-1], L, [0, 2], bounds)


def C28_first_parameter():
    """[conc] Settings of the first and of the last parameter, by index."""
    for backend in BACKENDS:
        L, f = _fresh(backend, tiny)
        last = L.size - 1
        f.set_parameter_bounds(0, (0.5, 7.0))
        f.set_parameter_bounds(last, (0.0, 0.0))
        f.set_parameter_fixed(2)
        b = {0: (0.5, 7.0)}
        f.do_fit(verbose=0)
        ev = fits()[-1]
        sa.check(backend + " bounds of the first", pair(ev["limits"][0]), (0.5, 7.0))
        sa.check(backend + " bounds of the others", [pair(ev["limits"][i]) for i in range(1, last)], [(None, None) for i in range(1, last)])
        L, f = _fresh(backend, tiny)
        f.set_parameter_bounds(0, (0.5, 7.0))
        f.set_parameter_fixed(0)
        f.do_fit(verbose=0)
        settings(backend + " fixed first", fits()[-1], L, [0], b)
        k = len(fits())
        f.profile("b_yield", num_cpu=1, num_points=1)
        settings(backend + " scan", fits()[k + 1], L, [0, 1], b)
        k = len(fits())
        f.get_significance("b", verbose=0)
        settings(backend + " nominal", fits()[k], L, [0], b)


def C28_two_fitters():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        g = TemplateFitter(L.m, backend)
        f.set_parameter_fixed(0)
        f.set_parameter_bounds(1, (0.0, 1.0))
        f.fix_nui_params()
        g.do_fit(verbose=0)
        settings(backend, fits()[-1], L, [], {})


def C28_after_failed_fits():
    """[conc] A fit that fails leaves the settings as they were."""
    L, f, fixed, bounds = _configured("scipy")
    for what in ("fit", "nominal", "background", "profile"):
        if what == "fit":
            outcomes(False)
            r = attempt(f.do_fit, verbose=0, fix_nui_params=True, nui_param_limits=(-1.0, 1.0))
            sa.check(what, r.raised, True)
        elif what == "nominal":
            outcomes(False)
            sa.check(what, attempt(f.get_significance, "b", verbose=0, fix_nui_params=True).raised, True)
        elif what == "background":
            outcomes(True, False)
            attempt(f.get_significance, "b", verbose=0, fix_nui_params=True)
        else:
            outcomes(True, False, True)
            f.profile("t_yield", num_cpu=2, num_points=2, fix_nui_params=True)
        outcomes()
        f.do_fit(verbose=0)
        settings("fit after a failed " + what, fits()[-1], L, fixed, bounds)


def C28_fits_after_scans():
    """[conc] A significance or a profile fixes and bounds nothing for the fits after it."""
    for backend in BACKENDS:
        L, f, fixed, bounds = _configured(backend)
        f.get_significance("b", verbose=0, fix_nui_params=True)
        f.do_fit(verbose=0)
        settings(backend + " after a significance", fits()[-1], L, fixed, bounds)
        f.profile("t_yield", num_cpu=1, num_points=2, fix_nui_params=True)
        f.do_fit(verbose=0)
        settings(backend + " after a profile", fits()[-1], L, fixed, bounds)
        k = len(fits())
        f.profile(1, num_cpu=1, num_points=2)
        settings(backend + " nominal fit of the next profile", fits()[k], L, fixed, bounds)
        for i in range(2):
            settings(backend + " scan %d of the next profile" % i, fits()[k + 1 + i], L, [1] + fixed, bounds)


# ---------------------------------------------------------------- C29

def _state(L):
    return ([(b[2].yield_param, b[2].nui_params, b[2].values, b[2].errors) for b in L.blocks],
            [ch.data_bin_counts for ch in L.m.channels.values()])


def _start(L):
    """Vector of the current parameters, in the layout of the likelihood."""
    ys = []
    for p in L.processes:
        t = 0
        for b in L.blocks:
            if b[1] == p:
                t = t + b[2].yield_param
        ys.append(t)
    return np.concatenate([np.array(ys)] + [b[2].nui_params for b in L.blocks])


def _likelihood(L, x):
    k = len(L.processes)
    return L.likelihood(x[:k], x[k:])


def C29_updating_fit():
    """[conc]"""
    for backend in BACKENDS:
        for make in (model, model2, model3):
            L, f = _fresh(backend, make)
            data = [ch.data_bin_counts for ch in L.m.channels.values()]
            r = f.do_fit(verbose=0)
            v = r.params.values
            for i in range(len(L.blocks)):
                b = L.blocks[i]
                sa.check(backend + " yield", b[2].yield_param, v[L.processes.index(b[1])] * b[3])
                sa.check(backend + " nuisance parameters", b[2].nui_params, v[b[5]:b[6]])
            sa.check(backend + " data", [ch.data_bin_counts for ch in L.m.channels.values()], data)


def C29_fit_without_update():
    """[conc]"""
    for backend, make in (("scipy", model), ("iminuit", model), ("iminuit", model3)):
        L, f = _fresh(backend, make)
        L.m.update_parameters(L.vector("z")[0])
        before = _state(L)
        f.do_fit(update_templates=False, verbose=0)
        sa.check(backend, _state(L), before)
        f.do_fit(update_templates=False, verbose=0, fix_nui_params=True, nui_param_limits=(-1.0, 1.0))
        sa.check(backend + " fixed", _state(L), before)


def C29_profile():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        L.m.update_parameters(L.vector("z")[0])
        before = _state(L)
        f.profile("b_yield", num_cpu=1, num_points=2)
        sa.check(backend, _state(L), before)


def C29_significance():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        L.m.update_parameters(L.vector("z")[0])
        before = _state(L)
        f.get_significance("b", verbose=0)
        sa.check(backend, _state(L), before)


def _c29_start(backend):
    L, f = _fresh(backend)
    L.m.update_parameters(L.vector("z")[0])
    s = _start(L)
    f.do_fit(update_templates=False, verbose=0)
    sa.check(backend + " start", fits()[-1]["start"], s)
    sa.check(backend + " objective", fits()[-1]["objective"], _likelihood(L, fits()[-1]["probe"]))
    d = sa.arr("dn", 2, lo=0)
    L.m.add_data(u=Hist1d.from_binned_data(d, sa.edges("e_u", 2)))
    L.data = [d]
    L.m.set_yield("b", 7.0)
    s = _start(L)
    f.do_fit(update_templates=False, verbose=0)
    sa.check(backend + " start of the next fit", fits()[-1]["start"], s)
    sa.check(backend + " objective of the next fit", fits()[-1]["objective"], _likelihood(L, fits()[-1]["probe"]))
    k = len(fits())
    f.profile(0, num_cpu=1, num_points=2)
    sa.check(backend + " start of a profile", fits()[k]["start"], s)
    for i in range(k, len(fits())):
        sa.check(backend + " objective of a profile", fits()[i]["objective"], _likelihood(L, fits()[i]["probe"]))
    k = len(fits())
    f.get_significance("t", verbose=0)
    sa.check(backend + " start of a significance", fits()[k]["start"], s)
    sa.check(backend + " objective of a significance", fits()[k]["objective"], _likelihood(L, fits()[k]["probe"]))


def C29_start_values_and_data_scipy():
    """[conc]"""
    _c29_start("scipy")


def C29_start_values_and_data_iminuit():
    """[conc]"""
    _c29_start("iminuit")


def C29_constraint_after_the_fitter():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        L.m.add_gaussian_constraint_on_yield("b", 4.0, 2.0)
        f.do_fit(update_templates=False, verbose=0)
        p = fits()[-1]["probe"]
        sa.check(backend, fits()[-1]["objective"], _likelihood(L, p) + (p[1] - 4.0) ** 2 / 8)


def C29_fit_after_fit():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        r = f.do_fit(verbose=0)
        v = r.params.values.copy()
        s = _start(L)
        q = f.do_fit(verbose=0)
        sa.check(backend + " start", fits()[-1]["start"], s)
        sa.check(backend + " first result", r.params.values, v)
        w = q.params.values
        for b in L.blocks:
            sa.check(backend + " yield", b[2].yield_param, w[L.processes.index(b[1])] * b[3])


def C29_failing_fits():
    """[conc] A fit that fails changes no template."""
    L, f = _fresh("scipy")
    L.m.update_parameters(L.vector("z")[0])
    before = _state(L)
    s = _start(L)
    outcomes(False)
    sa.check("fit", attempt(f.do_fit, verbose=0).kind, "RuntimeError")
    sa.check("after a failed fit", _state(L), before)
    outcomes(False)
    sa.check("significance", attempt(f.get_significance, "b", verbose=0).raised, True)
    sa.check("after a failed significance", _state(L), before)
    outcomes(False)
    sa.check("profile", attempt(f.profile, "b_yield", num_cpu=1, num_points=2).raised, True)
    sa.check("after a failed profile", _state(L), before)
    outcomes(True, False, True)
    f.profile("b_yield", num_cpu=1, num_points=2)
    sa.check("after a profile with a failed point", _state(L), before)
    f.do_fit(update_templates=False, verbose=0)
    sa.check("start", fits()[-1]["start"], s)


# ---------------------------------------------------------------- C30

def _profile(backend, pid, idx, num, sigma, sub, fix, cpus=2, make=model, setup=None):
    L, f = _fresh(backend, make)
    if setup is not None:
        setup(f)
    L.m.update_parameters(L.vector("z")[0])
    k = len(fits())
    x, y, h = f.profile(pid, num_cpu=cpus, num_points=num, sigma=sigma, subtract_min=sub, fix_nui_params=fix)
    label = backend + " " + str(pid)
    ev = fits()
    nom = ev[k]
    v = nom["values"][idx]
    if backend == "iminuit":
        err = nom["errors"][idx]
    else:
        import numdifftools as ndt
        cov = np.linalg.inv(ndt.Hessian(nom["fcn"])(nom["values"]))
        err = np.sqrt(cov[idx, idx])
    sa.check(label + ": number of points", (len(x), len(y), len(h)), (num, num, num))
    low = nom["min"] if sub else 0.0
    for i in range(num):
        at = v - sigma * err + 2 * sigma * err * i / (num - 1)
        sa.check(label + ": point %d" % i, x[i], at)
        sa.check(label + ": parabola %d" % i, h[i], nom["min"] - low + (at - v) ** 2 / (2 * err ** 2))
        hit = None
        for e in ev[k + 1:]:
            if e["fixed"][idx] == 1 and sa.same(e["start"][idx], at):
                hit = e
        sa.check(label + ": a fit held at point %d" % i, hit is not None, True)
        if hit is not None:
            sa.check(label + ": value %d" % i, y[i], hit["min"] - low)
            sa.check(label + ": objective %d" % i, hit["objective"], _likelihood(L, hit["probe"]))


def C30_yield_iminuit():
    """[conc]"""
    _profile("iminuit", "b_yield", 1, 3, 2.0, True, False)


def C30_index_iminuit():
    """[conc]"""
    _profile("iminuit", 0, 0, 4, 1.5, True, True)


def C30_nuisance_iminuit():
    """[conc]"""
    _profile("iminuit", "u_b_bin_1", 3, 3, 3.0, False, False, 1)


def C30_yield_scipy():
    """[conc]"""
    _profile("scipy", "b_yield", 1, 3, 2.0, True, True)


def C30_index_scipy():
    """[conc]"""
    _profile("scipy", 0, 0, 2, 1.0, False, False, 1)


def C30_shared_process():
    """[conc]"""
    _profile("iminuit", "_t_yield", 0, 3, 2.0, True, False, 2, model3)
    _profile("iminuit", "u._B 1_bin_0", 4, 2, 1.0, True, False, 2, model3)


def C30_bounded_parameters():
    """[conc] Bounds and fixed parameters do not move the points."""
    def bounds(f):
        f.set_parameter_bounds("b_yield", (0.25, 0.75))
        f.set_parameter_bounds(0, (0.0, None))

    def others(f):
        f.set_parameter_fixed("t_yield")
        f.set_parameter_bounds(1, (None, 0.5))
        f.set_parameter_bounds("u_b_bin_0", (-1.0, 1.0))
    for backend in BACKENDS:
        _profile(backend, "b_yield", 1, 3, 2.0, True, True, 2, tiny, bounds)
        _profile(backend, 1, 1, 2, 1.0, False, True, 1, tiny, others)


def C30_schedule_of_failures():
    """[conc] Any point may fail, the others keep their own minimum."""
    for plan in ((True, False, True, True), (True, True, True, False), (True, False, False, True), (True, False, False, False)):
        for cpus in (1, 3):
            L, f = _fresh("scipy", lambda: Layout(["t", "b"], [("u", 1, ["t", "b"])], True))
            k = len(fits())
            outcomes(*plan)
            x, y, h = f.profile("b_yield", num_cpu=cpus, num_points=3, subtract_min=False, fix_nui_params=True)
            ev = fits()[k:]
            sa.check("number of fits", len(ev), 4)
            for i in range(3):
                sa.check("held at %d" % i, ev[1 + i]["start"][1], x[i])
                if plan[1 + i]:
                    sa.check("value %d" % i, y[i], ev[1 + i]["min"])
                else:
                    sa.check_true("no value %d" % i, np.isnan(y[i]))


def C30_failing_fits():
    """[conc] With the scipy backend a failing scan fit gives nan, and only there."""
    sa.global_list("fits may fail").append(1)
    L, f = _fresh("scipy", lambda: Layout(["t"], [("u", 1, ["t"])], True))
    r = attempt(f.profile, "t_yield", num_cpu=1, num_points=2, fix_nui_params=True)
    if not r.raised:
        ev = fits()
        x, y, h = r.value
        sa.check("number of fits", len(ev), 3)
        for i in range(2):
            e = ev[1 + i]
            sa.check("value %d" % i, y[i], np.where(e["valid"], e["min"], np.nan) - ev[0]["min"])
        sa.check_true("nominal fit", ev[0]["valid"])
    else:
        sa.check("error", r.kind, "RuntimeError")
        sa.check_true("nominal fit failed", not fits()[0]["valid"])


# ---------------------------------------------------------------- C31

def _significance(backend, make, process, idx, fix):
    L, f = _fresh(backend, make)
    L.m.update_parameters(L.vector("z")[0])
    s = _start(L)
    k = len(fits())
    out = f.get_significance(process, verbose=0, fix_nui_params=fix)
    ev = fits()
    label = backend + " " + process
    nom = ev[k]
    if nom["values"][idx] < 0:
        sa.check(label + ": zero for a negative yield", out, 0.0)
        sa.check(label + ": objective", nom["objective"], _likelihood(L, nom["probe"]))
    else:
        b = ev[len(ev) - 1]
        sa.check(label + ": significance", out, np.sqrt(2 * (b["min"] - nom["min"])))
        fixed = [idx] + (nuis(L) if fix else [])
        sa.check(label + ": background fit", b["fixed"], [1 if i in fixed else 0 for i in range(L.size)])
        sa.check(label + ": yield held at zero", b["start"][idx], 0.0)
        sa.check(label + ": objective of the background fit", b["objective"], _likelihood(L, b["probe"]))
    sa.check(label + ": nominal fit", nom["fixed"], [1 if (fix and i >= len(L.processes)) else 0 for i in range(L.size)])
    sa.check(label + ": start of the nominal fit", nom["start"], s)
    sa.check(label + ": objective of the nominal fit", nom["objective"], _likelihood(L, nom["probe"]))


def C31_iminuit():
    """[conc]"""
    _significance("iminuit", model, "b", 1, False)


def C31_iminuit_fixed():
    """[conc]"""
    _significance("iminuit", model2, "c", 2, True)


def C31_scipy():
    """[conc]"""
    _significance("scipy", model, "t", 0, True)


def C31_scipy_two_channels():
    """[conc]"""
    _significance("scipy", model2, "b", 1, False)


def C31_shared_process():
    """[conc]"""
    _significance("iminuit", model3, "_t", 0, False)
    _significance("scipy", model3, "_t", 0, True)


def C31_other_processes():
    """[conc]"""
    _significance("iminuit", model3, "B 1", 1, True)
    _significance("iminuit", model3, "T", 2, False)


def C31_unknown_process():
    """[conc]"""
    for backend in BACKENDS:
        L, f = _fresh(backend)
        sa.check(backend, attempt(f.get_significance, "z", verbose=0).raised, True)
