"""C32-C34: toy studies."""
import numpy as np
import numdifftools as ndt
import sa
from common import attempt, outcomes
from multi import Layout
from fits import BACKENDS, fits, model, model2, model3, nuis, settings, _start, _state
from templatefitter.toy_study import ToyStudy


def _expectation(L, name):
    nu = 0
    for b in L.blocks:
        if b[0] == name:
            nu = nu + b[2].values
    return nu


def _toy_likelihood(L, x):
    """Likelihood of data drawn from the current expectation."""
    k = len(L.processes)
    y, th = x[:k], x[k:]
    out = 0
    for name in L.names:
        d = np.random.poisson(_expectation(L, name))
        nu = L.total(name, y, th)
        out = out + np.sum(nu - d - np.where(d > 0, d * np.log(nu / np.where(d > 0, d, 1)), 0))
    for b in L.blocks:
        t = L.block(b, th)
        out = out + t @ b[2].inv_corr_mat @ t / 2
    return out


def _experiment(label, L, ev, start):
    """One fit of the study: to toy data of the expectation the templates have now."""
    settings(label, ev, L, nuis(L), {})
    sa.check(label + ": start", ev["start"], start)
    sa.check(label + ": toy likelihood", sa.undrawn(ev["objective"]), sa.undrawn(_toy_likelihood(L, ev["probe"])))


def _errors(ev):
    if ev["backend"] == "iminuit":
        return ev["errors"]
    return np.sqrt(np.diag(np.linalg.inv(ndt.Hessian(ev["fcn"])(ev["values"]))))


# ---------------------------------------------------------------- C32

def small():
    return Layout(["t"], [("u", 1, ["t"])], True)


def _study(backend, make, n_exp):
    L = make()
    L.m.update_parameters(L.vector("z")[0])
    before = [(b[2].yield_param, b[2].nui_params, b[2].values) for b in L.blocks]
    s = _start(L)
    t = ToyStudy(L.m, backend)
    t.do_experiments(n_exp)
    ev = fits()
    label = backend
    sa.check(label + ": number of fits", len(ev), n_exp)
    p, u = t.result_parameters, t.result_uncertainties
    sa.check(label + ": shape", (p.shape, u.shape), ((n_exp, L.size), (n_exp, L.size)))
    for i in range(n_exp):
        _experiment(label + " experiment %d" % i, L, ev[i], s)
        sa.check(label + ": parameters %d" % i, p[i], ev[i]["values"])
        for j in range(i):
            sa.check(label + ": experiments %d and %d have the same data" % (i, j),
                     sa.same(ev[i]["objective"], ev[j]["objective"]), False)
    if backend == "iminuit":
        for i in range(n_exp):
            sa.check(label + ": uncertainties %d" % i, u[i], _errors(ev[i]))
    sa.check(label + ": templates", [(b[2].yield_param, b[2].nui_params, b[2].values) for b in L.blocks], before)
    return L, t


def C32_study_iminuit():
    """[conc]"""
    _study("iminuit", model, 3)


def C32_study_iminuit_two_channels():
    """[conc]"""
    _study("iminuit", model2, 2)


def C32_study_shared_process():
    """[conc]"""
    _study("iminuit", model3, 2)


def C32_study_scipy():
    """[conc]"""
    _study("scipy", small, 2)


def C32_uncertainties_scipy():
    """[conc]"""
    L = Layout(["t"], [("u", 1, ["t"])], True)
    t = ToyStudy(L.m, "scipy")
    t.do_experiments(1)
    sa.check("uncertainties", t.result_uncertainties[0], _errors(fits()[0]))


def C32_second_study_replaces_the_first():
    """[conc]"""
    for backend in BACKENDS:
        L = small() if backend == "scipy" else model()
        t = ToyStudy(L.m, backend)
        t.do_experiments(2)
        k = len(fits())
        t.do_experiments(1)
        p, u = t.result_parameters, t.result_uncertainties
        sa.check(backend + ": number of fits", len(fits()), k + 1)
        sa.check(backend + ": shape", (p.shape, u.shape), ((1, L.size), (1, L.size)))
        sa.check(backend + ": parameters", p[0], fits()[-1]["values"])


def C32_two_studies():
    """[conc]"""
    L = model()
    t, q = ToyStudy(L.m, "iminuit"), ToyStudy(L.m, "iminuit")
    t.do_experiments(2)
    q.do_experiments(1)
    sa.check("first", t.result_parameters, [e["values"] for e in fits()[:2]])
    sa.check("second", q.result_parameters, [e["values"] for e in fits()[2:]])


def C32_retries():
    """[conc] A failing fit is repeated with new data, at most max_tries times in all."""
    sa.global_list("fits may fail").append(1)
    for tries in (1, 2):
        L = small()
        t = ToyStudy(L.m, "scipy")
        k = len(fits())
        r = attempt(t.do_experiments, 1, tries)
        ev = fits()
        if not r.raised:
            sa.check("shape", t.result_parameters.shape, (1, L.size))
            if ev[k]["valid"]:
                sa.check("%d: first fit" % tries, t.result_parameters[0], ev[k]["values"])
                sa.check("%d: no more fits" % tries, len(ev), k + 1)
            else:
                sa.check("%d: tries" % tries, tries, 2)
                sa.check_true("%d: second fit succeeded" % tries, ev[k + 1]["valid"])
                sa.check("%d: second fit" % tries, t.result_parameters[0], ev[k + 1]["values"])
                sa.check("%d: new data" % tries, sa.same(ev[k]["objective"], ev[k + 1]["objective"]), False)
        else:
            sa.check("%d: error" % tries, r.kind, "RuntimeError")
            sa.check("%d: number of fits" % tries, len(ev), k + tries)
            for i in range(tries):
                sa.check_true("%d: fit %d failed" % (tries, i), not ev[k + i]["valid"])
                for j in range(i):
                    sa.check("%d: new data for fit %d" % (tries, i), sa.same(ev[k + i]["objective"], ev[k + j]["objective"]), False)


def C32_schedule_of_failures():
    """[conc] Failures at the beginning, in the middle and at the end."""
    for plan, tries, good in (((False, True, False, False, True, True), 3, (1, 4, 5)), ((True, False, True, False, True), 2, (0, 2, 4)),
                              ((True, True, True), 1, (0, 1, 2)), ((False, False, True, True, False, False, True), 3, (2, 3, 6))):
        L = small()
        s = _start(L)
        t = ToyStudy(L.m, "scipy")
        outcomes(*plan)
        k = len(fits())
        t.do_experiments(3, tries)
        ev = fits()[k:]
        sa.check("number of fits", len(ev), len(plan))
        p, u = t.result_parameters, t.result_uncertainties
        sa.check("shape", (p.shape, u.shape), ((3, L.size), (3, L.size)))
        for i in range(3):
            sa.check("parameters %d" % i, p[i], ev[good[i]]["values"])
        for i in range(len(ev)):
            _experiment("fit %d" % i, L, ev[i], s)
            for j in range(i):
                sa.check("fits %d and %d have the same data" % (i, j), sa.same(ev[i]["objective"], ev[j]["objective"]), False)


def C32_all_tries_fail():
    """[conc] Also after experiments that succeeded; a new study starts anew."""
    L = small()
    t = ToyStudy(L.m, "scipy")
    for plan, tries in (((True, False, False), 2), ((False,), 1), ((True, True, False, False, False), 3)):
        outcomes(*plan)
        k = len(fits())
        r = attempt(t.do_experiments, 3, tries)
        sa.check("error", r.kind, "RuntimeError")
        sa.check("number of fits", len(fits()), k + len(plan))
        sa.check("results", attempt(lambda: t.result_parameters).kind, "RuntimeError")
        t.do_experiments(1, 1)
        sa.check("shape of the next study", (t.result_parameters.shape, t.result_uncertainties.shape), ((1, L.size), (1, L.size)))
        sa.check("parameters of the next study", t.result_parameters[0], fits()[-1]["values"])


def C32_pairs_of_a_linearity_test():
    """[conc] The pairs recorded at the end of a linearity test are those of its last point."""
    L = model()
    t = ToyStudy(L.m, "iminuit")
    t.do_experiments(1)
    k = len(fits())
    t.do_linearity_test("b", (1.0, 2.0), 2, 3)
    ev = fits()[k + 3:]
    p, u = t.result_parameters, t.result_uncertainties
    sa.check("shape", (p.shape, u.shape), ((3, L.size), (3, L.size)))
    for i in range(3):
        sa.check("parameters %d" % i, p[i], ev[i]["values"])
        sa.check("uncertainties %d" % i, u[i], ev[i]["errors"])
    t.do_experiments(2)
    p, u = t.result_parameters, t.result_uncertainties
    sa.check("shape after another study", (p.shape, u.shape), ((2, L.size), (2, L.size)))
    sa.check("parameters after another study", p[1], fits()[-1]["values"])


def C32_changed_templates():
    """[conc] Each study uses the templates as they are when it runs."""
    L = model()
    t = ToyStudy(L.m, "iminuit")
    t.do_experiments(1)
    z = L.vector("z")[0]
    L.m.update_parameters(z)
    s = _start(L)
    k = len(fits())
    t.do_experiments(2)
    for i in range(2):
        _experiment("experiment %d" % i, L, fits()[k + i], s)
        sa.check("parameters %d" % i, t.result_parameters[i], fits()[k + i]["values"])


def C32_no_try():
    """[conc]"""
    for backend in BACKENDS:
        L = small()
        t = ToyStudy(L.m, backend)
        r = attempt(t.do_experiments, 1, 0)
        sa.check(backend + " error", r.kind, "RuntimeError")


# ---------------------------------------------------------------- C33

def _unavailable(label, t):
    sa.check(label + ": parameters", attempt(lambda: t.result_parameters).kind, "RuntimeError")
    sa.check(label + ": uncertainties", attempt(lambda: t.result_uncertainties).kind, "RuntimeError")
    sa.check(label + ": results", attempt(t.get_toy_results, "t").kind, "RuntimeError")
    sa.check(label + ": pulls", attempt(t.get_toy_result_pulls, "t").kind, "RuntimeError")


def C33_before_a_study():
    """[conc]"""
    for backend in BACKENDS:
        _unavailable(backend, ToyStudy(model().m, backend))


def C33_after_a_failed_study():
    """[conc]"""
    for backend in BACKENDS:
        L = small()
        t = ToyStudy(L.m, backend)
        attempt(t.do_experiments, 2, 0)
        _unavailable(backend, t)
        t.do_experiments(1)
        sa.check(backend + " study", t.result_parameters.shape, (1, L.size))
        attempt(t.do_experiments, 1, 0)
        _unavailable(backend + " again", t)


def C33_failures_after_successes():
    """[conc] A study or linearity test that could not be finished has no results."""
    L = small()
    t = ToyStudy(L.m, "scipy")
    t.do_experiments(2)
    outcomes(True, False, False)
    sa.check("study", attempt(t.do_experiments, 2, 2).kind, "RuntimeError")
    _unavailable("study", t)
    t.do_experiments(1)
    sa.check("next study", t.result_parameters.shape, (1, L.size))
    outcomes(True, *[False for _ in range(10)])
    sa.check("linearity test", attempt(t.do_linearity_test, "t", (1.0, 2.0), 2, 1).kind, "RuntimeError")
    _unavailable("second point of a linearity test", t)


def C33_results_after_a_linearity_test():
    """[conc]"""
    L = model()
    t = ToyStudy(L.m, "iminuit")
    t.do_linearity_test("b", (1.0, 2.0), 2, 2)
    ev = fits()[2:]
    y = L.m.get_yield("b")
    v, u = t.get_toy_results("b")
    sa.check("parameters", v, [e["values"][1] for e in ev])
    sa.check("uncertainties", u, [e["errors"][1] for e in ev])
    sa.check("pulls", t.get_toy_result_pulls("b"), [(e["values"][1] - y) / e["errors"][1] for e in ev])
    v, u = t.get_toy_results("t")
    sa.check("parameters of the other process", v, [e["values"][0] for e in ev])


def C33_failing_fits():
    """[conc]"""
    sa.global_list("fits may fail").append(1)
    t = ToyStudy(small().m, "scipy")
    r = attempt(t.do_experiments, 1, 1)
    if r.raised:
        _unavailable("scipy", t)


def _toy_results(make, n_exp):
    L = make()
    L.m.update_parameters(L.vector("z")[0])
    ys = [L.m.get_yield(p) for p in L.processes]
    t = ToyStudy(L.m, "iminuit")
    t.do_experiments(n_exp)
    ev = fits()
    for i in range(len(L.processes)):
        p = L.processes[i]
        v, u = t.get_toy_results(p)
        q = t.get_toy_result_pulls(p)
        sa.check(p + ": parameters", v, [e["values"][i] for e in ev])
        sa.check(p + ": uncertainties", u, [e["errors"][i] for e in ev])
        sa.check(p + ": pulls", q, [(e["values"][i] - ys[i]) / e["errors"][i] for e in ev])
    sa.check("unknown process", attempt(t.get_toy_results, "zz").raised, True)
    sa.check("pulls of an unknown process", attempt(t.get_toy_result_pulls, "zz").raised, True)


def C33_results():
    """[conc]"""
    _toy_results(model, 3)


def C33_results_two_channels():
    """[conc]"""
    _toy_results(model2, 2)


def C33_results_shared_process():
    """[conc]"""
    _toy_results(model3, 2)


# ---------------------------------------------------------------- C34

def _linearity(backend, make, process, idx, limits, n_points, n_exp):
    L = make()
    nominal = _start(L)
    L.m.update_parameters(L.vector("z")[0])
    t = ToyStudy(L.m, backend)
    label = backend + " " + process
    x, m, s = t.do_linearity_test(process, limits, n_points, n_exp)
    ev = fits()
    sa.check(label + ": number of fits", len(ev), n_points * n_exp)
    sa.check(label + ": number of points", (len(x), len(m), len(s)), (n_points, n_points, n_points))
    lo, hi = limits
    for i in range(n_points):
        at = lo + (hi - lo) * i / (n_points - 1)
        sa.check(label + ": point %d" % i, x[i], at)
        L.m.reset_parameters()
        L.m.set_yield(process, at)
        start = nominal.copy()
        start[idx] = sum([at * b[3] for b in L.blocks if b[1] == process])
        k = i * n_exp
        for j in range(n_exp):
            _experiment(label + " point %d experiment %d" % (i, j), L, ev[k + j], start)
            for h in range(k + j):
                sa.check(label + ": fits %d and %d have the same data" % (k + j, h),
                         sa.same(ev[k + j]["objective"], ev[h]["objective"]), False)
        v = np.array([e["values"][idx] for e in ev[k:k + n_exp]])
        sa.check(label + ": mean %d" % i, m[i], np.mean(v))
        sa.check(label + ": standard deviation %d" % i, s[i], np.std(v))


def C34_iminuit():
    """[conc]"""
    _linearity("iminuit", model, "b", 1, (2.0, 6.0), 3, 2)


def C34_scipy():
    """[conc]"""
    _linearity("scipy", model, "t", 0, (5.0, 1.0), 2, 2)


def C34_two_channels():
    """[conc]"""
    _linearity("iminuit", model2, "c", 2, (1.0, 3.0), 2, 1)


def C34_shared_process():
    """[conc]"""
    _linearity("iminuit", model3, "_t", 0, (1.0, 3.0), 2, 1)


def C34_limits_from_zero():
    """[conc]"""
    _linearity("iminuit", small, "t", 0, (0.0, 2.0), 2, 1)


def C34_limits_to_zero():
    """[conc]"""
    _linearity("iminuit", small, "t", 0, (2.0, 0.0), 2, 1)


def C34_limits_around_zero():
    """[conc]"""
    _linearity("iminuit", small, "t", 0, (-1.0, 1.0), 3, 1)


def C34_single_point():
    """[conc]"""
    L = small()
    nominal = _start(L)
    t = ToyStudy(L.m, "iminuit")
    x, m, s = t.do_linearity_test("t", (3.0, 4.0), 1, 4)
    ev = fits()
    sa.check("number of fits", len(ev), 4)
    sa.check("point", x, [3.0])
    v = np.array([e["values"][0] for e in ev])
    sa.check("mean", m, [np.mean(v)])
    sa.check("standard deviation", s, [np.std(v)])


def C34_after_a_study():
    """[conc]"""
    L = small()
    t = ToyStudy(L.m, "iminuit")
    t.do_experiments(1)
    k = len(fits())
    x, m, s = t.do_linearity_test("t", (1.0, 2.0), 2, 2)
    ev = fits()[k:]
    sa.check("number of fits", len(ev), 4)
    for i in range(2):
        v = np.array([e["values"][0] for e in ev[2 * i:2 * i + 2]])
        sa.check("mean %d" % i, m[i], np.mean(v))
        sa.check("standard deviation %d" % i, s[i], np.std(v))


def C34_two_linearity_tests():
    """[conc]"""
    L = model()
    nominal = _start(L)
    t = ToyStudy(L.m, "iminuit")
    t.do_linearity_test("t", (1.0, 2.0), 2, 1)
    k = len(fits())
    t.do_linearity_test("b", (3.0, 4.0), 2, 1)
    for i in range(2):
        start = nominal.copy()
        start[1] = (3.0 + i) * sum([b[3] for b in L.blocks if b[1] == "b"])
        sa.check("start %d" % i, fits()[k + i]["start"], start)


def C34_failing_experiments():
    """[conc] Failed fits are repeated and do not enter the mean."""
    L = small()
    t = ToyStudy(L.m, "scipy")
    outcomes(False, True, True, True, False, False, True)
    x, m, s = t.do_linearity_test("t", (1.0, 2.0), 2, 2)
    ev = fits()
    sa.check("number of fits", len(ev), 7)
    for i, good in ((0, (1, 2)), (1, (3, 6))):
        v = np.array([ev[j]["values"][0] for j in good])
        sa.check("mean %d" % i, m[i], np.mean(v))
        sa.check("standard deviation %d" % i, s[i], np.std(v))


def C34_unknown_process():
    """[conc]"""
    L = model()
    before = _start(L)
    t = ToyStudy(L.m, "iminuit")
    sa.check("refused", attempt(t.do_linearity_test, "zz", (1.0, 2.0), 2, 1).raised, True)
    sa.check("no fit", len(fits()), 0)
