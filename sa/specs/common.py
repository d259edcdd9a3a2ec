"""Helpers shared by the drivers."""
import numpy as np
import sa


class Outcome:
    def __init__(self, raised, kind, value):
        self.raised = raised
        self.kind = kind
        self.value = value


def attempt(f, *a, **k):
    try:
        v = f(*a, **k)
    except RuntimeError:
        return Outcome(True, "RuntimeError", None)
    except ValueError:
        return Outcome(True, "ValueError", None)
    except TypeError:
        return Outcome(True, "TypeError", None)
    except Exception:
        return Outcome(True, "Exception", None)
    return Outcome(False, "", v)


def hist1(e, x, w=None):
    """Expected contents of a histogram (numpy's own definition)."""
    c, _ = np.histogram(x, bins=e, weights=w)
    if w is None:
        return c, c
    v, _ = np.histogram(x, bins=e, weights=w * w)
    return c, v


def outcomes(*flags):
    """Whether the next scipy minimizations succeed."""
    plan = sa.global_list("outcomes of fits")
    while len(plan) > 0:
        plan.pop(0)
    for x in flags:
        plan.append(x)
