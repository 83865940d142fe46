"""Reference model of one time series parameter and its views."""
import numpy as np

from . import gen, ref
from .pset import ParameterSet, errors, ex_arg, name_arg, nvalues, type_arg, arr


def conv_tol(kind, src, d, axis, ex):
    """absolute tolerance (stored unit) for a conversion of d from src to axis"""
    m = max([abs(x) for x in d] or [0.0])
    tol = 1e-10 * m
    if ex == "linear":
        reach = max(src[0] - axis[0], axis[-1] - src[-1], 0)
        seg = min(src[1] - src[0], src[-1] - src[-2])
        tol += 1e-9 * m * reach / seg
    if kind == "average":
        # integrals over short target periods inside long source periods
        tol *= 10
    return tol


class View:
    def __init__(self, view, unit, axis, ex, role):
        self.view, self.unit, self.axis, self.ex, self.role = view, unit, axis, ex, role
        self.handles = []  # (handle, slice or None)


class Series:
    """one parameter: stored data in the first view's unit and axis"""

    def __init__(self, pset, path, region, family, kind, axis):
        self.pset, self.path, self.region, self.kind, self.axis = pset, path, region, kind, axis
        self.units = ref.FAMILIES[family]
        self.stored = None
        self.d = None
        self.views = []
        self.version = 0
        self.peak = 0.0

    @property
    def n(self):
        return nvalues(self.kind, self.axis)

    def new_view(self, rng, o, role=None, axis=None, unit=None, ex=None):
        if self.stored is None:
            role = "same"
        role = role or rng.choice(["same", "same", "same", "refine", "within", "beyond"])
        if role == "same":
            axis = axis or list(self.axis)
            ex = ex or rng.choice(["none", "constant", "linear"])
        elif role == "refine":
            axis, ex = axis or gen.refine(rng, self.axis), ex or rng.choice(["none", "constant", "linear"])
        elif role == "within":
            axis, ex = axis or gen.within(rng, self.axis), ex or rng.choice(["none", "constant", "linear"])
        else:
            axis, ex = axis or gen.beyond(rng, self.axis), ex or rng.choice(["constant", "linear"])
        if len(axis) < 4:
            role, axis = "same", list(self.axis)
        u = unit or rng.choice(self.units)
        res = rng.choice(["s", "s", "ms", "us"])
        times = gen.as_dt64(axis, res)
        label = "timeseries({} {} {} axis={} ex={} res={})".format("|".join(self.path), u, self.kind, role, ex, res)
        v = o.returns(
            label,
            self.pset.timeseries,
            name_arg(rng, self.path),
            u.name,
            times,
            region=name_arg(rng, self.region),
            timeseries_type=type_arg(rng, self.kind),
            extrapolation=ex_arg(rng, ex),
        )
        if rng.random() < 0.5:
            times[...] = times[0]  # the caller's array is the caller's
        if self.stored is None:
            self.stored = u
        w = View(v, u, axis, ex, role)
        self.views.append(w)
        o.check(v.unit == u.name and v.length == nvalues(self.kind, axis), "view reports other unit/length", unit=v.unit, length=v.length)
        return w

    # ---- expectation --------------------------------------------------------------
    def expected(self, w):
        """(values, tolerance) in w's unit on w's axis"""
        x = ref.convert(self.kind, self.axis, self.d, w.axis, w.ex)
        t = conv_tol(self.kind, self.axis, [self.peak], w.axis, w.ex)
        exp = np.array([ref.uconv(a, self.stored, w.unit) for a in x])
        m = self.peak
        tol = t * self.stored.scale / w.unit.scale + ref.utol(m, self.stored, w.unit, self.stored)
        return exp, tol

    def to_stored(self, vals, unit):
        out = [float(ref.uconv(float(a), unit, self.stored)) for a in vals]
        # rounding errors scale with the largest values the buffers ever held
        self.peak = max([self.peak, (abs(unit.offset) + abs(self.stored.offset)) / self.stored.scale] + [abs(a) for a in out])
        return out

    def same_views(self):
        return [w for w in self.views if w.role == "same"]

    def check_view(self, o, w, how="values"):
        exp, tol = self.expected(w)
        got = arr(w.view.values)
        o.events["read"] += 1
        o.close(got, exp, "{}: view ({}, {}, {}) does not show the latest data".format("|".join(self.path), w.unit, w.role, w.ex), rtol=0, atol=tol)
        return exp, tol
