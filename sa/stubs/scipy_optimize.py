"""Model of scipy.optimize.minimize as the package uses it (see iminuit.py)."""
import numpy as np
import sa


# exit modes of SLSQP; the order in which the planned failures report them
MESSAGES = {0: "Optimization terminated successfully", 1: "Function evaluation required (f & c)",
            2: "More equality constraints than independent variables", 3: "More than 3*n iterations in LSQ subproblem",
            4: "Inequality constraints incompatible", 5: "Singular matrix E in LSQ subproblem",
            6: "Singular matrix C in LSQ subproblem", 7: "Rank-deficient equality constraint subproblem HFTI",
            8: "Positive directional derivative for linesearch", 9: "Iteration limit reached"}
FAILURES = (9, 8, 4, 3, 6, 5, 7, 2, 1)


class OptimizeResult:
    def __init__(self, x, fun, success, status, message):
        self.x = x
        self.fun = fun
        self.success = success
        self.status = status
        self.message = message
        self.nit = sa.opaque("fit_nit", x, fun)
        self.nfev = sa.opaque("fit_nfev", x, fun)
        self.njev = sa.opaque("fit_njev", x, fun)

    def __getitem__(self, k):
        return getattr(self, k)

    def get(self, k, default=None):
        return getattr(self, k, default)


class Bounds:
    """Limits of all parameters; infinite ones are none."""

    def __init__(self, lb=-np.inf, ub=np.inf, keep_feasible=False):
        self.lb, self.ub, self.keep_feasible = lb, ub, keep_feasible

    def pairs(self, n):
        out = []
        for a, b in zip(np.broadcast_to(self.lb, (n,)), np.broadcast_to(self.ub, (n,))):
            out.append((None if a == -np.inf else a, None if b == np.inf else b))
        return out


class NonlinearConstraint:
    """Equations only."""

    def __init__(self, fun, lb, ub, jac="2-point", hess=None, keep_feasible=False, finite_diff_rel_step=None, finite_diff_jac_sparsity=None):
        self.fun, self.lb, self.ub = fun, lb, ub

    def as_equation(self, n):
        kind = "eq" if sa.same(self.lb, self.ub) else "range"
        return {"type": kind, "fun": lambda x: self.fun(x) - self.lb}


class LinearConstraint:
    """Equations only."""

    def __init__(self, A, lb=-np.inf, ub=np.inf, keep_feasible=False):
        self.A, self.lb, self.ub = A, lb, ub

    def as_equation(self, n):
        kind = "eq" if sa.same(self.lb, self.ub) else "range"
        return {"type": kind, "fun": lambda x: np.atleast_2d(self.A) @ x - self.lb}


def minimize(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(),
             tol=None, callback=None, options=None):
    start = np.array(x0)
    n = len(start)
    probe = sa.arr("point", n) if len(sa.global_list("objective defined everywhere")) else sa.arr("probe", n, lo=0.5, hi=2.0)
    obj = fun(probe, *args)
    lims = []
    if bounds is None:
        bl = [None for _ in range(n)]
    elif isinstance(bounds, Bounds):
        bl = bounds.pairs(n)
    else:
        bl = [b for b in bounds]
    if len(bl) != n:
        raise ValueError("The number of bounds is not compatible with the length of `x0`.")
    if isinstance(constraints, (dict, LinearConstraint, NonlinearConstraint)):
        constraints = [constraints]
    # a parameter is held if an equality constraint is x[j] - start[j] or both bounds are its start value
    held = [0 for _ in range(n)]
    odd = []
    for c in constraints:
        if isinstance(c, (LinearConstraint, NonlinearConstraint)):
            c = c.as_equation(n)
        more = c.get("args", ())
        vals = c["fun"](probe, *more)
        if not isinstance(vals, np.ndarray) or vals.ndim == 0:
            vals = [vals]
        for v in vals:
            hit = -1
            for j in range(n):
                if sa.same(v, probe[j] - start[j]) or sa.same(v, start[j] - probe[j]):
                    hit = j
            if hit < 0 or c["type"] != "eq":
                odd.append(v)
            else:
                held[hit] = held[hit] + 1
    double = len([h for h in held if h > 1])
    for j in range(n):
        b = bl[j]
        if b is not None and b[0] is not None and b[1] is not None and sa.same(b[0], start[j]) and sa.same(b[1], start[j]):
            held[j] = held[j] + 1
            bl[j] = None
        lims.append(sa.limit_key(bl[j]))
    fix = [1 if h > 0 else 0 for h in held]
    okey = 0 if len(odd) == 0 else np.array(odd)
    key = [start, np.array(fix), np.array(lims), obj, okey]
    free = sa.opaque_arr("fit_value", (n,), *key)
    x = np.where(np.array(fix) == 1, start, free)
    val = sa.opaque("fit_min", *key)
    plan = sa.global_list("outcomes of fits")
    plan0 = [o for o in plan]
    if len(plan) > 0:
        success = plan.pop(0)
    else:
        success = sa.opaque_flag("fit_valid", *key) if len(sa.global_list("fits may fail")) else True
    sa.global_list("fits").append(
        {"backend": "scipy", "fcn": fun, "objective": obj, "start": start, "fixed": fix, "limits": bl, "probe": probe,
         "odd": odd, "double": double, "min": val, "values": x.copy(), "valid": success, "args": args, "method": method})
    if len(plan0) == 0:
        return OptimizeResult(x, val, success, sa.opaque("fit_status", *key), "message")
    if success:
        return OptimizeResult(x, val, True, 0, MESSAGES[0])
    failed = sa.global_list("failures of fits")
    failed.append(1)
    status = FAILURES[(len(failed) - 1) % len(FAILURES)]
    return OptimizeResult(x, val, False, status, MESSAGES[status])
