"""Functions of scipy in terms of those the analyser knows natively."""
import numpy as np


def linalg_det(a):
    return np.linalg.det(a)


def ndimage_sum(values, labels, index):
    return np.array([np.sum(np.where(labels == i, values, 0.0)) for i in index])
