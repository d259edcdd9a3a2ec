"""C24-C27: minimizers, parameters and fit results."""
import numpy as np
import numdifftools as ndt
import sa
from common import attempt, outcomes
from templatefitter.minimizer import Parameters, IMinuitMinimizer, ScipyMinimizer, minimizer_factory
from templatefitter.utility import cov2corr, id_to_index

BACKENDS = ("scipy", "iminuit")


def objective(n, tag=""):
    a, w = sa.arr("a" + tag, n), sa.arr("w" + tag, n, lo=0)

    def f(x):
        return np.sum(w * (x - a) ** 2)
    return f


def names(n):
    return ["par%d" % i for i in range(n)]


def fits():
    return sa.global_list("fits")


def pair(b):
    return (None, None) if b is None else (b[0], b[1])


def settings(label, ev, n, start, fixed, bounds):
    """The fit of event ev held exactly the parameters in fixed and bounded exactly those in bounds."""
    sa.check(label + ": start values", ev["start"], start)
    sa.check(label + ": fixed parameters", ev["fixed"], [1 if i in fixed else 0 for i in range(n)])
    sa.check(label + ": other constraints", len(ev["odd"]), 0)
    sa.check(label + ": constraints on the same parameter", ev["double"], 0)
    sa.check(label + ": bounds", [pair(b) for b in ev["limits"]], [bounds[i] if i in bounds else (None, None) for i in range(n)])
    sa.check(label + ": objective", ev["objective"], objective(n)(ev["probe"]))


def make(backend, f, n):
    if len(sa.global_list("objective defined everywhere")) == 0:
        sa.global_list("objective defined everywhere").append(1)
    return minimizer_factory(backend, f, names(n))


# ---------------------------------------------------------------- C24

def C24_nothing_set():
    """[conc]"""
    for backend in BACKENDS:
        for n in (1, 3):
            s = sa.arr("s", n)
            make(backend, objective(n), n).minimize(s)
            settings(backend, fits()[-1], n, s, [], {})


def C24_fixing():
    """[conc]"""
    n = 4
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        m.set_param_fixed("par2")
        s = sa.arr("s", n)
        m.minimize(s)
        settings(backend + " one by name", fits()[-1], n, s, [2], {})
        m.set_param_fixed(0)
        t = sa.arr("t", n)
        m.minimize(t)
        settings(backend + " one more by index", fits()[-1], n, t, [0, 2], {})
        m.set_param_fixed("par3")
        m.minimize(s)
        settings(backend + " three", fits()[-1], n, s, [0, 2, 3], {})
        m.release_params()
        m.minimize(t)
        settings(backend + " released", fits()[-1], n, t, [], {})
        m.set_param_fixed(1)
        m.minimize(s)
        settings(backend + " after the release", fits()[-1], n, s, [1], {})


def C24_fixing_at_zero_and_below():
    """[conc] Start values of any sign, zero included, in repeated minimizations."""
    n = 4
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        m.minimize(sa.arr("s", n))
        m.set_param_fixed("par1")
        m.set_param_fixed("par2")
        z = np.array([sa.real("z0"), 0.0, 0.0, 0.0])
        r = m.minimize(z)
        settings(backend + " zero", fits()[-1], n, z, [1, 2], {})
        sa.check(backend + " held at zero", r.params.values[1:3], np.zeros(2))
        b = np.array([0.0, sa.real("b1", hi=-0.1), 0.0, sa.real("b3", hi=-0.1)])
        r = m.minimize(b)
        settings(backend + " below", fits()[-1], n, b, [1, 2], {})
        sa.check(backend + " held below", r.params.values[1:3], b[1:3])


def C24_fixing_all_and_twice():
    """[conc]"""
    n = 3
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        for p in ("par1", 1, "par0", 2, 0):
            m.set_param_fixed(p)
        s = sa.arr("s", n)
        r = m.minimize(s)
        settings(backend + " all", fits()[-1], n, s, [0, 1, 2], {})
        sa.check(backend + " held", r.params.values, s)


def C24_bounds():
    """[conc]"""
    n = 4
    lo, hi = sa.real("lo"), sa.real("hi")
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        m.set_param_bounds("par1", (lo, hi))
        s = sa.arr("s", n)
        m.minimize(s)
        settings(backend + " one", fits()[-1], n, s, [], {1: (lo, hi)})
        m.set_param_bounds(3, (0.0, None))
        m.set_param_fixed("par0")
        m.minimize(s)
        settings(backend + " two", fits()[-1], n, s, [0], {1: (lo, hi), 3: (0.0, None)})
        m.set_param_bounds(1, (None, hi))
        m.minimize(s)
        settings(backend + " replaced", fits()[-1], n, s, [0], {1: (None, hi), 3: (0.0, None)})
        m.release_params()
        m.minimize(s)
        settings(backend + " released", fits()[-1], n, s, [], {1: (None, hi), 3: (0.0, None)})


def C24_two_minimizers_do_not_share_settings():
    """[conc]"""
    n = 2
    for backend in BACKENDS:
        f = objective(n)
        m, k = make(backend, f, n), make(backend, f, n)
        m.set_param_fixed(0)
        m.set_param_bounds(1, (1.0, 2.0))
        s = sa.arr("s", n)
        k.minimize(s)
        settings(backend, fits()[-1], n, s, [], {})
        m.release_params()
        k.set_param_fixed(1)
        m.minimize(s)
        settings(backend, fits()[-1], n, s, [], {1: (1.0, 2.0)})


def C24_unknown_parameters():
    """[conc]"""
    n = 3
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        for p in ("par3", "par", 3, -1, 1.0, None):
            sa.check(backend + " fixing refused", attempt(m.set_param_fixed, p).kind, "ValueError")
            sa.check(backend + " bounds refused", attempt(m.set_param_bounds, p, (0.0, 1.0)).kind, "ValueError")
        s = sa.arr("s", n)
        m.minimize(s)
        settings(backend, fits()[-1], n, s, [], {})


def C24_list_of_start_values():
    """[conc]"""
    n = 2
    m = make("scipy", objective(n), n)
    m.set_param_fixed("par1")
    x, y = sa.real("x"), sa.real("y")
    m.minimize([x, y])
    settings("scipy", fits()[-1], n, np.array([x, y]), [1], {})


def C24_factory():
    """[conc]"""
    f = objective(2)
    for name in ("scipy", "Scipy", "SCIPY", "iminuit", "iMinuit"):
        m = minimizer_factory(name, f, names(2))
        m.minimize(sa.arr("s", 2))
        sa.check(name, fits()[-1]["backend"], name.lower())
        sa.check(name + " objective", fits()[-1]["objective"], f(fits()[-1]["probe"]))


# ---------------------------------------------------------------- C25

def result_check(label, backend, f, r, ev, n, hesse=True, errordef=0.5):
    sa.check(label + ": minimum", r.fcn_min_val, ev["min"])
    sa.check(label + ": values", r.params.values, ev["values"])
    sa.check(label + ": names", [p for p in r.params.names], names(n))
    sa.check(label + ": objective", ev["objective"], f(ev["probe"]))
    if backend == "iminuit":
        sa.check(label + ": error definition", ev["errordef"], errordef)
        cov, cor, err = ev["cov"], ev["cor"], ev["errors"]
        fx = ev["fixed"]
        cov = np.array([[0.0 if fx[i] or fx[j] else cov[i, j] for j in range(n)] for i in range(n)])
        cor = np.array([[0.0 if fx[i] or fx[j] else cor[i, j] for j in range(n)] for i in range(n)])
    elif hesse:
        cov = np.linalg.inv(ndt.Hessian(f)(ev["values"]))
        err = np.sqrt(np.diag(cov))
        cor = cov2corr(cov)
    else:
        cov, cor, err = np.zeros((n, n)), np.zeros((n, n)), np.zeros(n)
    sa.check(label + ": covariance", r.params.covariance, cov)
    sa.check(label + ": correlation", r.params.correlation, cor)
    sa.check(label + ": errors", r.params.errors, err)


def C25_result():
    """[conc]"""
    for backend in BACKENDS:
        for n in (1, 2, 3):
            f = objective(n, str(n))
            m = make(backend, f, n)
            r = m.minimize(sa.arr("s", n))
            result_check(backend + str(n), backend, f, r, fits()[-1], n)
            sa.check(backend + " stored minimum", m.fcn_min_val, r.fcn_min_val)
            sa.check(backend + " stored values", m.param_values, r.params.values)
            sa.check(backend + " stored errors", m.param_errors, r.params.errors)
            sa.check(backend + " stored covariance", m.param_covariance, r.params.covariance)
            sa.check(backend + " stored correlation", m.param_correlation, r.params.correlation)


def C25_error_definition():
    """[conc]"""
    n = 2
    f = objective(n)
    m = make("iminuit", f, n)
    for d in (1.0, 0.5, sa.real("d", lo=0)):
        r = m.minimize(sa.arr("s", n), errordef=d)
        result_check("error definition", "iminuit", f, r, fits()[-1], n, True, d)
    r = m.minimize(sa.arr("s", n))
    result_check("default", "iminuit", f, r, fits()[-1], n)


def C25_fixed_parameters():
    """[conc]"""
    n = 3
    for backend in BACKENDS:
        f = objective(n)
        m = make(backend, f, n)
        m.set_param_fixed("par1")
        s = sa.arr("s", n)
        r = m.minimize(s)
        result_check(backend, backend, f, r, fits()[-1], n)
        sa.check(backend + " fixed value", r.params.values[1], s[1])
        sa.check(backend + " shape", (len(r.params.covariance), len(r.params.covariance[0])), (n, n))
        sa.check(backend + " error", r.params["par2"][1], r.params.errors[2])


def C25_without_hesse():
    """[conc]"""
    n = 2
    f = objective(n)
    m = make("scipy", f, n)
    s = sa.arr("s", n)
    r = m.minimize(s, get_hesse=False)
    result_check("first", "scipy", f, r, fits()[-1], n, False)
    r = m.minimize(s)
    result_check("with", "scipy", f, r, fits()[-1], n)
    r = m.minimize(sa.arr("t", n), get_hesse=False)
    result_check("after one with", "scipy", f, r, fits()[-1], n, False)


def _keep(r):
    p = r.params
    return (r.fcn_min_val, p.values.copy(), p.errors.copy(), p.covariance.copy(), p.correlation.copy(), r.succes)


def _now(r):
    p = r.params
    return (r.fcn_min_val, p.values, p.errors, p.covariance, p.correlation, r.succes)


def C25_earlier_results():
    """[conc]"""
    n = 2
    for backend in BACKENDS:
        f = objective(n)
        m = make(backend, f, n)
        r1 = m.minimize(sa.arr("s", n))
        k1 = _keep(r1)
        m.set_param_fixed(0)
        r2 = m.minimize(sa.arr("t", n))
        k2 = _keep(r2)
        sa.check(backend + " first after the second", _now(r1), k1)
        m.release_params()
        r3 = m.minimize(sa.arr("u", n), get_hesse=False)
        sa.check(backend + " first after the third", _now(r1), k1)
        sa.check(backend + " second after the third", _now(r2), k2)
        k3 = _keep(r3)
        sa.check(backend + " names", [p for p in r1.params.names], names(n))
        m2 = make(backend, f, n)
        m2.minimize(sa.arr("v", n))
        sa.check(backend + " third", _now(r3), k3)


def C25_start_values_untouched():
    """[conc]"""
    n = 3
    for backend in BACKENDS:
        m = make(backend, objective(n), n)
        s = sa.arr("s", n)
        keep = s.copy()
        m.set_param_fixed(1)
        r = m.minimize(s)
        sa.check(backend, s, keep)
        k = _keep(r)
        for i in range(n):
            s[i] = 9.5
        sa.check(backend + " result", _now(r), k)


def C25_additional_arguments():
    """[conc]"""
    n = 2
    a = sa.arr("a", n)

    def f(x, p, q):
        return np.sum(p * (x - a) ** 2) + q * np.sum(x ** 4)
    p, q = sa.real("p", lo=0), sa.real("q", lo=0)
    m = make("scipy", f, n)
    r = m.minimize(sa.arr("s", n), additional_args=(p, q))
    ev = fits()[-1]
    sa.check("objective", ev["objective"], f(ev["probe"], p, q))
    sa.check("covariance", r.params.covariance, np.linalg.inv(ndt.Hessian(f)(ev["values"], p, q)))


def C25_bounded_and_fixed_parameters():
    """[conc] Bounds restrict the fit, not the point the Hesse matrix is taken at."""
    n = 3
    lo, hi = sa.real("lo", lo=0.25, hi=0.5), sa.real("hi", lo=2.0, hi=3.0)
    for bounds in ((lo, hi), (lo, None), (None, hi), (0.0, None), (None, None)):
        f = objective(n)
        m = make("scipy", f, n)
        m.set_param_bounds(1, bounds)
        r = m.minimize(sa.arr("s", n))
        v = fits()[-1]["values"]
        sa.check("values", r.params.values, v)
        sa.check("covariance", r.params.covariance, np.linalg.inv(ndt.Hessian(f)(v)))


def C25_hesse_matrix():
    """[conc]"""
    n = 2
    f = objective(n)
    g = objective(n, "g")
    x = sa.arr("x", n)
    sa.check("matrix", ScipyMinimizer.calculate_hesse_matrix(f, x, ()), ndt.Hessian(f)(x))
    sa.check("matrix of another function", ScipyMinimizer.calculate_hesse_matrix(g, x, ()), ndt.Hessian(g)(x))


# ---------------------------------------------------------------- C26

def C26_scipy_failure():
    """[conc]"""
    sa.global_list("fits may fail").append(1)
    n = 2
    f = objective(n)
    m = make("scipy", f, n)
    r = attempt(m.minimize, sa.arr("s", n))
    ok = fits()[-1]["valid"]
    sa.check_true("raised exactly if unsuccessful", r.raised != ok)
    if r.raised:
        sa.check("error", r.kind, "RuntimeError")
        sa.check("values untouched", m.param_values, np.zeros(n))
        sa.check("errors untouched", m.param_errors, np.zeros(n))
        sa.check("covariance untouched", m.param_covariance, np.zeros((n, n)))
    else:
        sa.check("flag", r.value.succes, True)
        sa.check("values", r.value.params.values, fits()[-1]["values"])


def C26_scipy_failure_after_a_fit():
    """[conc]"""
    sa.global_list("fits may fail").append(1)
    n = 2
    f = objective(n)
    m = make("scipy", f, n)
    a = attempt(m.minimize, sa.arr("s", n))
    if not a.raised:
        keep = _keep(a.value)
        b = attempt(m.minimize, sa.arr("t", n))
        sa.check_true("raised exactly if unsuccessful", b.raised != fits()[-1]["valid"])
        if b.raised:
            sa.check("stored values", m.param_values, keep[1])
            sa.check("stored errors", m.param_errors, keep[2])
            sa.check("stored covariance", m.param_covariance, keep[3])
            sa.check("stored correlation", m.param_correlation, keep[4])
            sa.check("stored minimum", m.fcn_min_val, keep[0])
        sa.check("first result", _now(a.value), keep)


def C26_scipy_failures_and_successes():
    """[conc] Failures before, between and after successful minimizations."""
    n = 2
    f = objective(n)
    for hesse in (True, False):
        m = make("scipy", f, n)
        keep = (np.zeros(n), np.zeros(n), np.zeros((n, n)), np.zeros((n, n)))
        last = None
        k = 0
        for ok in (False, False, True, False, True, True, False):
            outcomes(ok)
            s = sa.arr("s%d" % k, n)
            r = attempt(m.minimize, s, get_hesse=hesse)
            ev = fits()[-1]
            label = "%s, minimization %d" % (hesse, k)
            sa.check(label + ": raised", r.raised, not ok)
            if ok:
                sa.check(label + ": flag", r.value.succes, True)
                result_check(label, "scipy", f, r.value, ev, n, hesse)
                p = r.value.params
                keep = (p.values.copy(), p.errors.copy(), p.covariance.copy(), p.correlation.copy())
                last = (r.value, _keep(r.value))
            else:
                sa.check(label + ": error", r.kind, "RuntimeError")
            sa.check(label + ": stored parameters", (m.param_values, m.param_errors, m.param_covariance, m.param_correlation), keep)
            sa.check(label + ": names", [x for x in m.params.names], names(n))
            if last is not None:
                sa.check(label + ": last result", _now(last[0]), last[1])
                sa.check(label + ": stored minimum", m.fcn_min_val, last[0].fcn_min_val)
            k = k + 1


def C26_settings_after_a_failure():
    """[conc] A failed minimization holds, bounds and releases nothing for the next one."""
    n = 3
    f = objective(n)
    m = make("scipy", f, n)
    m.set_param_fixed(1)
    m.set_param_bounds(2, (0.0, 1.0))
    for ok in (False, True, False, True):
        outcomes(ok)
        s = sa.arr("s", n)
        r = attempt(m.minimize, s)
        sa.check("raised", r.raised, not ok)
        settings("settings", fits()[-1], n, s, [1], {2: (0.0, 1.0)})


def C26_iminuit_flag():
    """[conc]"""
    n = 2
    m = make("iminuit", objective(n), n)
    r = m.minimize(sa.arr("s", n))
    ev = fits()[-1]
    sa.check_true("flag", r.succes == (ev["valid"] and ev["valid_params"] and ev["has_cov"]))
    m.set_param_fixed(0)
    q = m.minimize(sa.arr("t", n))
    ew = fits()[-1]
    sa.check_true("second flag", q.succes == (ew["valid"] and ew["valid_params"] and ew["has_cov"]))
    sa.check_true("first flag", r.succes == (ev["valid"] and ev["valid_params"] and ev["has_cov"]))


# ---------------------------------------------------------------- C27

def C27_identifiers():
    """[conc]"""
    for n in (1, 3):
        p = Parameters(names(n))
        sa.check("number", p.num_params, n)
        for i in range(n):
            sa.check("index", p.param_id_to_index(i), i)
            sa.check("name", p.param_id_to_index("par%d" % i), i)
            sa.check("function", (id_to_index(names(n), i), id_to_index(names(n), "par%d" % i)), (i, i))
        for bad in ("par%d" % n, "", "PAR0", "par", n, n + 5, -1, -n, 0.0, 1.5, None, (0,), "0"):
            sa.check("refused", attempt(p.param_id_to_index, bad).kind, "ValueError")
            sa.check("refused by the function", attempt(id_to_index, names(n), bad).kind, "ValueError")


def C27_index_of_any_length():
    n = sa.size("n", 3)
    p = Parameters(["p" + str(i) for i in range(n)])
    sa.check("number", p.num_params, n)
    k = sa.integer("k")
    r = attempt(p.param_id_to_index, k)
    sa.check_true("refused exactly outside of the range", r.raised == (k < 0 or k >= n))
    if not r.raised:
        sa.check("index", r.value, k)
    else:
        sa.check("error", r.kind, "ValueError")


def C27_numbers_that_are_no_index():
    """[conc]"""
    p = Parameters(names(3))
    for bad in (0.0, 1.0, 2.0, 0.5, sa.real("r"), np.array([1.0])[0], (1, 2)):
        sa.check("refused", attempt(p.param_id_to_index, bad).kind, "ValueError")
        sa.check("refused by the function", attempt(id_to_index, names(3), bad).kind, "ValueError")
        sa.check("value refused", attempt(p.get_param_value, bad).kind, "ValueError")


def C27_look_up():
    """[conc]"""
    n = 3
    p = Parameters(names(n))
    sa.check("values at first", p.values, np.zeros(n))
    sa.check("errors at first", p.errors, np.zeros(n))
    v, e = sa.arr("v", n), sa.arr("e", n, lo=0)
    p.values = v
    p.errors = e
    sa.check("values", p.values, v)
    sa.check("errors", p.errors, e)
    for i in range(n):
        for k in (i, "par%d" % i):
            sa.check("value", p.get_param_value(k), v[i])
            sa.check("error", p.get_param_error(k), e[i])
            sa.check("both", p[k], (v[i], e[i]))
    for bad in ("x", 3, -1):
        sa.check("value refused", attempt(p.get_param_value, bad).kind, "ValueError")
        sa.check("error refused", attempt(p.get_param_error, bad).kind, "ValueError")
        sa.check("refused", attempt(lambda: p[bad]).kind, "ValueError")


def _set(p, name, v):
    if name == "values":
        p.values = v
    else:
        p.errors = v


def C27_lengths():
    n = sa.size("n", 3)
    p = Parameters(["p" + str(i) for i in range(n)])
    v, e = sa.arr("v", n), sa.arr("e", n, lo=0)
    p.values = v
    p.errors = e
    k = sa.size("k", 4)
    w = sa.arr("w", k)
    for name in ("values", "errors"):
        r = attempt(_set, p, name, w)
        sa.check_true(name + " refused exactly for another length", r.raised == (k != n))
        if r.raised:
            sa.check("error", r.kind, "ValueError")
            sa.check("values kept", p.values, v)
            if name == "errors":
                sa.check("errors kept", p.errors, e)
        else:
            sa.check("taken", p.values if name == "values" else p.errors, w)
            p.values = v


def C27_two_containers():
    """[conc]"""
    p, q = Parameters(names(2)), Parameters(names(2))
    p.values[0] = 5.0
    p.errors[1] = 4.0
    p.covariance[0, 1] = 3.0
    p.correlation[0, 1] = 2.0
    sa.check("other container", (q.values, q.errors, q.covariance, q.correlation),
             (np.zeros(2), np.zeros(2), np.zeros((2, 2)), np.zeros((2, 2))))
