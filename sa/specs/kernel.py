"""C35-C37: numerical helpers."""
import numpy as np
from scipy.stats import chi2
from scipy.integrate import quad
import sa
from templatefitter.utility import cov2corr, corr2cov, xlogyx
from templatefitter.stats import default_chi2_test, pearson_chi2_test, cowan_binned_likelihood_gof


# ---------------------------------------------------------------- C35

def C35_correlation():
    n = sa.size("n", 3)
    V = sa.symmetric("V", n)
    s = np.sqrt(np.diag(V))
    keep = V.copy()
    sa.check("correlation", cov2corr(V), V / np.outer(s, s))
    sa.check("argument", V, keep)


def C35_covariance():
    n = sa.size("n", 3)
    R, v = sa.arr("R", n, n), sa.arr("v", n, lo=0)
    keep, kv = R.copy(), v.copy()
    sa.check("covariance", corr2cov(R, v), R * np.outer(np.sqrt(v), np.sqrt(v)))
    sa.check("arguments", (R, v), (keep, kv))


def C35_inverse():
    n = sa.size("n", 3)
    V = sa.symmetric("V", n)
    sa.check("covariance of the correlation", corr2cov(cov2corr(V), np.diag(V)), V)


def C35_vanishing_variance():
    """[conc] A variable that does not vary has no correlations."""
    a, b, c = sa.real("a", lo=0), sa.real("b", lo=0), sa.real("c")
    V = np.array([[a, 0.0, c], [0.0, 0.0, 0.0], [c, 0.0, b]])
    r = c / np.sqrt(a * b)
    sa.check("correlation", cov2corr(V), [[1, 0, r], [0, 0, 0], [r, 0, 1]])
    sa.check("one variable", cov2corr(np.array([[0.0]])), [[0]])
    sa.check("first of two", cov2corr(np.array([[0.0, 0.0], [0.0, b]])), [[0, 0], [0, 1]])


def C35_given_zero_variance():
    """[conc]"""
    R = sa.arr("R", 2, 2)
    b = sa.real("b", lo=0)
    sa.check("covariance", corr2cov(R, np.array([0.0, b])), [[0, 0], [0, R[1, 1] * b]])


def C35_two():
    """[conc] Every size up to four."""
    for n in (1, 2, 4):
        V = sa.symmetric("V%d" % n, n)
        s = np.sqrt(np.diag(V))
        R = cov2corr(V)
        for i in range(n):
            for j in range(n):
                sa.check("%d: element %d %d" % (n, i, j), R[i, j], V[i, j] / (s[i] * s[j]))


# ---------------------------------------------------------------- C36

def C36_positive():
    n = sa.size("n", 3)
    x, y = sa.arr("x", n, lo=0), sa.arr("y", n, lo=0)
    sa.check("arrays", xlogyx(x, y), x * np.log(y / x))
    a, b = sa.real("a", lo=0), sa.real("b", lo=0)
    sa.check("numbers", xlogyx(a, b), a * np.log(b / a))
    sa.check("array and number", xlogyx(x, b), x * np.log(b / x))


def C36_one_side():
    """[conc]"""
    a, d = sa.real("a", lo=0), sa.real("d", lo=0)
    sa.check("larger", xlogyx(a, a + d), a * np.log((a + d) / a))
    sa.check("smaller", xlogyx(a + d, a), (a + d) * np.log(a / (a + d)))
    sa.check("equal", xlogyx(a, a), 0)
    sa.check("literal", xlogyx(2.0, 3.0), 2 * np.log(1.5))
    sa.check("literal smaller", xlogyx(3.0, 2.0), 3 * np.log(2.0 / 3.0))


def C36_empty():
    n = sa.size("n", 3)
    y = sa.arr("y", n, lo=0)
    sa.check("empty bins", xlogyx(np.zeros(n), y), np.zeros(n))
    sa.check("zero", xlogyx(0.0, sa.real("b", lo=0)), 0)


def C36_empty_or_not():
    n = sa.size("n", 3)
    x, y = sa.arr("x", n, lo=0, zg=True), sa.arr("y", n, lo=0)
    one = np.where(x > 0, x, 1)
    sa.check("arrays", xlogyx(x, y), np.where(x > 0, x * np.log(y / one), 0))


def C36_undefined():
    """[conc]"""
    b = sa.real("b", lo=0)
    a = sa.real("a", lo=0)
    sa.check("undefined", xlogyx(np.nan, b), 0)
    sa.check("in an array", xlogyx(np.array([a, np.nan, 0.0]), np.array([b, b, b])), [a * np.log(b / a), 0, 0])


# ---------------------------------------------------------------- C37

def _pvalue(x, dof):
    return quad(chi2.pdf, x, np.inf, args=(dof,))[0]


def _result(label, got, chi, dof):
    sa.check(label + ": number of results", len(got), 3)
    sa.check(label + ": statistic", got[0], chi)
    sa.check(label + ": reduced statistic", got[1], chi / dof)
    sa.check(label + ": p value", got[2], _pvalue(chi, dof))


def C37_general():
    n = sa.size("n", 3)
    d, e, s = sa.arr("d", n, lo=0, zg=True), sa.arr("e", n), sa.arr("s", n, lo=0)
    k = sa.integer("dof", lo=1)
    keep = (d.copy(), e.copy(), s.copy())
    _result("chi square", default_chi2_test(d, e, s, k), np.sum(((d - e) / s) ** 2), k)
    sa.check("arguments", (d, e, s), keep)


def C37_pearson():
    n = sa.size("n", 3)
    d, e = sa.arr("d", n, lo=0, zg=True), sa.arr("e", n, lo=0)
    k = sa.integer("dof", lo=1)
    keep = (d.copy(), e.copy())
    _result("pearson", pearson_chi2_test(d, e, k), np.sum((d - e) ** 2 / e), k)
    sa.check("arguments", (d, e), keep)


def C37_likelihood_ratio():
    n = sa.size("n", 3)
    d, e = sa.arr("d", n, lo=0), sa.arr("e", n, lo=0)
    k = sa.integer("dof", lo=1)
    keep = (d.copy(), e.copy())
    _result("likelihood ratio", cowan_binned_likelihood_gof(d, e, k), 2 * np.sum(e - d + d * np.log(d / e)), k)
    sa.check("arguments", (d, e), keep)


def C37_likelihood_ratio_empty_bins():
    """[conc]"""
    e = sa.arr("e", 3, lo=0)
    a, b = sa.real("a", lo=0), sa.real("b", lo=0)
    k = sa.integer("dof", lo=1)
    chi = 2 * (np.sum(e) - a - b + a * np.log(a / e[0]) + b * np.log(b / e[2]))
    _result("one empty bin", cowan_binned_likelihood_gof(np.array([a, 0.0, b]), e, k), chi, k)
    _result("no data", cowan_binned_likelihood_gof(np.zeros(3), e, k), 2 * np.sum(e), k)


def C37_likelihood_ratio_any_bins():
    n = sa.size("n", 3)
    d, e = sa.arr("d", n, lo=0, zg=True), sa.arr("e", n, lo=0)
    k = sa.integer("dof", lo=1)
    one = np.where(d > 0, d, 1)
    chi = 2 * np.sum(e - d + np.where(d > 0, d * np.log(one / e), 0))
    _result("likelihood ratio", cowan_binned_likelihood_gof(d, e, k), chi, k)


def C37_perfect_agreement():
    n = sa.size("n", 3)
    d = sa.arr("d", n, lo=0)
    for f in (pearson_chi2_test, cowan_binned_likelihood_gof):
        r = f(d, d, 5)
        sa.check("statistic", r[0], 0)
        sa.check("p value", r[2], 1)


def C37_one_bin():
    """[conc]"""
    d, e = sa.arr("d", 1, lo=0), sa.arr("e", 1, lo=0)
    _result("pearson", pearson_chi2_test(d, e, 1), (d[0] - e[0]) ** 2 / e[0], 1)
    _result("likelihood ratio", cowan_binned_likelihood_gof(d, e, 1), 2 * (e[0] - d[0] + d[0] * np.log(d[0] / e[0])), 1)
