"""Model of the parts of iminuit 1.x the package uses.

A minimization is an unknown but deterministic function of what is handed over:
the objective (represented by its value at a generic point), the start values,
the fixed flags and the limits. Parameters that are fixed keep their start value.
Every minimization is recorded in the event list "fits"."""
import numpy as np
import sa


class FMin:
    def __init__(self, **kw):
        self._d = kw
        self.fval = kw["fval"]
        self.is_valid = kw["is_valid"]
        self.has_valid_parameters = kw["has_valid_parameters"]
        self.has_covariance = kw["has_covariance"]
        for name in ("is_above_max_edm", "has_made_posdef_covar", "has_posdef_covar", "has_accurate_covar", "hesse_failed",
                     "has_reached_call_limit"):
            kw[name] = sa.opaque_flag("fit_" + name, kw["fval"])
            setattr(self, name, kw[name])
        for name in ("edm", "ncalls", "nfcn", "tolerance", "up"):
            kw[name] = sa.opaque("fit_" + name, kw["fval"])
            setattr(self, name, kw[name])

    def __getitem__(self, k):
        return self._d[k]

    def get(self, k, default=None):
        return self._d.get(k, default)


class Minuit:
    @classmethod
    def from_array_func(cls, fcn, start, error=None, limit=None, fix=None, name=None, errordef=None,
                        print_level=0, pedantic=True, throw_nan=False, use_array_call=True, grad=None):
        m = cls()
        m._fcn = fcn
        m._start = np.array(start)
        n = len(m._start)
        m._n = n
        m._error = error
        m._errordef = errordef
        if fix is None:
            m._fix = [False for _ in range(n)]
        else:
            m._fix = [f for f in fix]
        if limit is None:
            m._limit = [None for _ in range(n)]
        else:
            m._limit = [b for b in limit]
        m._name = name
        m._count = 0
        m._event = None
        return m

    def fixed_or_held(self):
        """Fixed parameters, including those whose limits leave no room."""
        out = []
        for j in range(self._n):
            b = self._limit[j]
            f = 1 if self._fix[j] else 0
            if b is not None and b[0] is not None and b[1] is not None:
                if sa.same(b[0], self._start[j]) and sa.same(b[1], self._start[j]):
                    f = 1
            out.append(f)
        return out

    def migrad(self, ncall=None, resume=True, precision=None, iterate=5, **kw):
        self._count += 1
        n = self._n
        probe = sa.arr("point", n) if len(sa.global_list("objective defined everywhere")) else sa.arr("probe", n, lo=0.5, hi=2.0)
        obj = self._fcn(probe)
        lims = []
        for b in self._limit:
            lims.append(sa.limit_key(b))
        fix = self.fixed_or_held()
        if len(fix) != n or len(lims) != n or (self._name is not None and len(self._name) != n):
            raise RuntimeError("lengths of the parameter settings")
        cnt = self._count
        key = [self._start, np.array(fix), np.array(lims), obj, cnt, sa.num_or_zero(self._errordef)]
        free = sa.opaque_arr("fit_value", (n,), *key)
        self._values = np.where(np.array(fix) == 1, self._start, free)
        self._errors = sa.opaque_arr("fit_error", (n,), *key)
        self._cov = sa.opaque_arr("fit_cov", (n, n), *key)
        self._cor = sa.opaque_arr("fit_cor", (n, n), *key)
        self.fval = sa.opaque("fit_min", *key)
        valid = sa.opaque_flag("fit_valid", *key)
        vpar = sa.opaque_flag("fit_valid_params", *key)
        hcov = sa.opaque_flag("fit_has_cov", *key)
        self.fmin = FMin(fval=self.fval, is_valid=valid, has_valid_parameters=vpar, has_covariance=hcov)
        self.valid = valid
        self._fixf = fix
        event = {"backend": "iminuit", "fcn": self._fcn, "objective": obj, "start": self._start, "fixed": fix,
                 "limits": [b for b in self._limit], "odd": [], "double": 0, "probe": probe, "names": self._name, "errordef": self._errordef,
                 "min": self.fval, "values": self._values.copy(), "errors": self._errors.copy(),
                 "cov": self._cov.copy(), "cor": self._cor.copy(),
                 "valid": valid, "valid_params": vpar, "has_cov": hcov, "count": cnt}
        log = sa.global_list("fits")
        if cnt == 1:
            log.append(event)
        else:
            log[-1] = event
        return self.fmin, None

    def hesse(self, *a, **k):
        sa.undecided("explicit hesse call")

    def migrad_ok(self):
        return self.fmin.is_valid

    def get_fmin(self):
        return self.fmin

    def np_values(self):
        return self._values.copy()

    def np_errors(self):
        return self._errors.copy()

    def np_matrix(self, correlation=False, skip_fixed=True):
        m = self._cor.copy() if correlation else self._cov.copy()
        free = []
        for i in range(self._n):
            if self._fixf[i] == 0:
                free.append(i)
        if len(free) == self._n:
            return m
        if skip_fixed:
            return np.array([[m[i, j] for j in free] for i in free])
        return np.array([[m[i, j] if i in free and j in free else 0.0 for j in range(self._n)] for i in range(self._n)])

    def matrix(self, correlation=False, skip_fixed=True):
        return self.np_matrix(correlation=correlation, skip_fixed=skip_fixed)
