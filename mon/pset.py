"""Helpers to drive ParameterSets."""
import numpy as np

from openscm.core.parameterset import ParameterSet
from openscm.core.time import ExtrapolationType, InterpolationType
from openscm.core.parameters import ParameterType
from openscm import errors

from . import gen, ref

TYPES = {"point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}


def type_arg(rng, kind):
    return rng.choice([kind, TYPES[kind]])


def ex_arg(rng, ex):
    return rng.choice([ex, ExtrapolationType[ex.upper()]])


def name_arg(rng, path):
    """one of the spellings of a hierarchical name"""
    k = rng.randrange(3)
    if k == 0:
        return "|".join(path)
    return tuple(path) if k == 1 else list(path)


def nvalues(kind, axis):
    return len(axis) - (1 if kind == "average" else 0)


def arr(h):
    """values of a handle as a fresh float array, via iteration"""
    return np.array([float(x) for x in h], dtype=float)
