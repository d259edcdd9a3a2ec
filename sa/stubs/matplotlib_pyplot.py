"""Colours have no effect on what is drawn."""
import numpy as np
import sa


class Colormap:
    def __init__(self, *a, **k):
        pass

    def __call__(self, x, *a, **k):
        return sa.opaque_arr("colour", (len(x), 4), x)

    def resampled(self, n):
        return self

    def copy(self):
        return self


def get_cmap(name=None, lut=None):
    return Colormap()
