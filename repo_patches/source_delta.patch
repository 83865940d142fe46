From 3aa89e69dba19bf1d94dc2fddf711f5701b599d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:15 +0000
Subject: [PATCH 01/63] fix: define sulfur as a base unit so that S, SO2 and
 SOx units can be used

"S": ["sulfur"] declared S as a unit derived from the undefined unit sulfur,
hence every unit containing S, SO2 or SOx raised UndefinedUnitError.
---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..3f01a78 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From 8f4f9a2774c5f8a1a37b7f2efbc6c5c7ca5c35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 02/63] fix: convert between time axes of different datetime64
 resolutions

The raw integers behind datetime64 arrays of different resolutions (e.g. years and
seconds) were compared with each other, giving wrong values or InsufficientDataError.
---
 openscm/core/time.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..b1d7911 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -288,6 +288,26 @@ def create_time_points(  # TODO: replace by simpler function
     )
 
 
+def _to_comparable_times(time_points: np.ndarray) -> np.ndarray:
+    """
+    Convert time points to numbers which can be compared with each other.
+
+    Parameters
+    ----------
+    time_points
+        Time points, either :class:`np.datetime64` of any resolution or numbers
+
+    Returns
+    -------
+    np.ndarray
+        Copy of the time points as numbers (in seconds for :class:`np.datetime64`)
+    """
+    time_points = np.array(time_points)
+    if time_points.dtype.kind == "M":
+        time_points = time_points.astype("datetime64[s]")
+    return time_points.astype(_TARGET_TYPE, copy=True)
+
+
 def _calc_interval_averages(
     continuous_representation: Callable[[float], float], target_intervals: np.ndarray
 ) -> np.ndarray:
@@ -416,8 +436,8 @@ class TimeseriesConverter:
         InsufficientDataError
             Timeseries too short to extrapolate
         """
-        self._source = np.array(source_time_points).astype(_TARGET_TYPE, copy=True)
-        self._target = np.array(target_time_points).astype(_TARGET_TYPE, copy=True)
+        self._source = _to_comparable_times(source_time_points)
+        self._target = _to_comparable_times(target_time_points)
         self._timeseries_type = timeseries_type
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
-- 
2.43.0


From e9b4e47ddec152b4b02d82706e34d08a458060c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 03/63] fix: integrate average timeseries exactly between their
 nodes

Adaptive quadrature over a whole target period misses the kinks (and narrow spikes) of
the piecewise linear representation, so long target periods did not conserve the
integral of the source data.
---
 openscm/core/time.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b1d7911..6678706 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -14,7 +14,6 @@ from typing import Any, Callable, Dict, Sequence, Union
 
 import numpy as np
 import pandas as pd
-import scipy.integrate as integrate
 import scipy.interpolate as interpolate
 from dateutil import parser
 
@@ -309,10 +308,10 @@ def _to_comparable_times(time_points: np.ndarray) -> np.ndarray:
 
 
 def _calc_interval_averages(
-    continuous_representation: Callable[[float], float], target_intervals: np.ndarray
+    continuous_representation: interpolate.interp1d, target_intervals: np.ndarray
 ) -> np.ndarray:
     """
-    Calculate the interval averages of a continuous function.
+    Calculate the interval averages of a continuous, piecewise linear function.
 
     Here interval average is calculated as the integral over the period divided by
     the period length.
@@ -331,13 +330,16 @@ def _calc_interval_averages(
     np.ndarray
         Array of the interval/period averages
     """
-    # TODO: numerical integration here could be very expensive
-    # TODO: update to include caching and/or analytic solutions depending on interpolation choice
+    nodes = continuous_representation.x  # the function is linear between its nodes
     int_averages = [np.nan] * len(target_intervals[:-1])
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
-        y, _ = integrate.quad(continuous_representation, l, u)
-        int_averages[i] = y / (u - l)
+        edges = np.concatenate(([l], nodes[(nodes > l) & (nodes < u)], [u]))
+        # the mean over a piece on which the function is linear is its mid value
+        int_averages[i] = np.average(
+            continuous_representation((edges[1:] + edges[:-1]) / 2),
+            weights=np.diff(edges),
+        )
 
     return np.array(int_averages)
 
-- 
2.43.0


From cb3916821731d408c08906dd3f682aa1f7d496cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:17 +0000
Subject: [PATCH 04/63] fix: publish on unlock only what was written while the
 view was locked

Unlocking a view without pending writes failed (nothing read so far) or overwrote newer
data of other views with its stale cache; reading a parameter first written to while
locked raised AttributeError.
---
 openscm/core/views.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..3e434d2 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -259,6 +259,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Has this view been written to while it was locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -312,7 +315,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
+        self._version = parameter.version
         self._writable = False
 
         def get_data_views_for_children_or_parameter(
@@ -346,7 +351,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif self._version != self._parameter.version and not self._pending:
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
@@ -360,6 +365,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._writable = True
 
     def _write(self):
+        self._pending = self._locked
         if not self._locked:
             self._parameter.data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
@@ -451,10 +457,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if this view has been written to since it was
+        locked.
         """
         self._locked = False
-        self._write()
+        if self._pending:
+            self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From bbfc87e244609ad50a2e33e1e5713d52af4e1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 05/63] fix: leave parameters as they were when a write fails

Writes of wrong length, of non-numeric values or to time axes which cannot be converted
back marked an empty parameter as written and stayed in the view's cache.
---
 openscm/core/views.py | 69 ++++++++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 3e434d2..3fef1af 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -4,13 +4,19 @@ and time information.
 """
 
 import numbers
+from contextlib import contextmanager
+from copy import copy
 from typing import Any, Optional, Sequence, Tuple, cast
 
 import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterReadonlyError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -103,8 +109,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
-        self._ndarray[key] = val
-        self.__write__()
+        with self._parameter_view._revert_on_error():
+            self._ndarray[key] = val
+            self.__write__()
 
     def __iter__(self):
         self.__read__()
@@ -220,12 +227,13 @@ class ScalarView(ParameterInfo):
         """
         Value of scalar parameter
         """
+        data = self._unit_converter.convert_to(v)
         if not self._writable:
             self._parameter.attempt_write(
                 ParameterType.SCALAR, self._unit_converter.target
             )
             self._writable = True
-        self._parameter.data = self._unit_converter.convert_to(v)
+        self._parameter.data = data
         self._parameter.version += 1
 
     @property
@@ -356,6 +364,18 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._version = self._parameter.version
 
     def _check_write(self):
+        if self._parameter.children:
+            raise ParameterReadonlyError
+
+    def _write(self):
+        self._pending = True
+        if not self._locked:
+            self._publish()
+
+    def _publish(self):
+        data = self._timeseries_converter.convert_to(
+            self._unit_converter.convert_to(self._data)
+        )
         if not self._writable:
             self._parameter.attempt_write(
                 self._timeseries_converter._timeseries_type,
@@ -363,15 +383,23 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._timeseries_converter._target,
             )
             self._writable = True
+        self._parameter.data = data
+        self._parameter.version += 1
+        self._version = self._parameter.version
+        self._pending = False
 
-    def _write(self):
-        self._pending = self._locked
-        if not self._locked:
-            self._parameter.data = self._timeseries_converter.convert_to(
-                self._unit_converter.convert_to(self._data)
-            )
-            self._parameter.version += 1
-            self._version = self._parameter.version
+    @contextmanager
+    def _revert_on_error(self):
+        data, pending = copy(self._data), self._pending
+        try:
+            yield
+        except Exception:
+            if data is None:
+                self._data = self._timeseries = None
+            else:
+                self._data[...] = data
+            self._pending = pending
+            raise
 
     def _get_values(self) -> np.ndarray:
         if self._parameter.children:
@@ -420,12 +448,13 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         self._check_write()
         if len(v) != self._timeseries_converter.target_length:
             raise TimeseriesPointsValuesMismatchError
-        if self._data is None:
-            self._data = np.asarray(v).copy()
-            self._timeseries = _Timeseries(self._data, self)
-        else:
-            np.copyto(self._data, np.asarray(v))
-        self._write()
+        with self._revert_on_error():
+            if self._data is None:
+                self._data = np.asarray(v).copy()
+                self._timeseries = _Timeseries(self._data, self)
+            else:
+                np.copyto(self._data, np.asarray(v))
+            self._write()
 
     @property
     def unit(self) -> Optional[str]:
@@ -460,9 +489,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         Updates the underlying parameter if this view has been written to since it was
         locked.
         """
-        self._locked = False
         if self._pending:
-            self._write()
+            self._publish()
+        self._locked = False
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 070b1ed85e429f8f7ab03c1ed1e4cf7a3ce6f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 06/63] fix: check and refresh timeseries handles on every
 write and read through them

Element, slice and in-place writes bypassed the read-only check of parent parameters,
and, like arithmetic, comparisons, numpy conversion and repr, worked on outdated data if
another view had been written to, which lost the other view's update.
---
 openscm/core/views.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 3fef1af..bd29cf1 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -4,7 +4,7 @@ and time information.
 """
 
 import numbers
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from copy import copy
 from typing import Any, Optional, Sequence, Tuple, cast
 
@@ -42,13 +42,17 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
-            results = self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
-            if results is NotImplemented:
-                return NotImplemented  # pragma: no cover
+            with ExitStack() as stack:
+                for output in outputs:
+                    if isinstance(output, type(self)):
+                        stack.enter_context(output.__writing__())
+                results = self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
+                if results is NotImplemented:
+                    return NotImplemented  # pragma: no cover
             if ufunc.nout == 1:
                 results = (results,)
             results = tuple(
-                (output.__write__() if isinstance(output, type(self)) else result)
+                (output if isinstance(output, type(self)) else result)
                 for result, output in zip(results, outputs)
             )
             return results[0] if len(results) == 1 else results
@@ -64,8 +68,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     @classmethod
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
+            self.__read__()
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
                 return op(self._ndarray, other)
@@ -101,6 +106,14 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         self._parameter_view._write()
         return self
 
+    @contextmanager
+    def __writing__(self):
+        self._parameter_view._check_write()
+        self.__read__()
+        with self._parameter_view._revert_on_error():
+            yield
+            self.__write__()
+
     def __getitem__(self, item):
         self.__read__()
         result = self._ndarray[item]
@@ -109,9 +122,8 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
-        with self._parameter_view._revert_on_error():
+        with self.__writing__():
             self._ndarray[key] = val
-            self.__write__()
 
     def __iter__(self):
         self.__read__()
@@ -119,9 +131,10 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             yield i
 
     def __repr__(self):
-        return "timeseries({})".format(repr(self._ndarray))
+        return "timeseries({})".format(repr(self.__read__()._ndarray))
 
     def __array__(self, dtype=None):
+        self.__read__()
         return np.asarray(self._ndarray, dtype=dtype)
 
     def __len__(self):
-- 
2.43.0


From 2d1a5fb4989e2e294cb91dc8fae2655da2123be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 07/63] fix: let timeseries views hold floats after integers
 were written through them

The buffer kept the integer type of the first array written: element writes were
truncated and reading after another view had written floats raised TypeError.
---
 openscm/core/views.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index bd29cf1..65fb286 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -84,7 +84,12 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     _create_comparison_method = _create_arithmetic_method
 
-    def __init__(self, input_array: np.ndarray, parameter_view: "TimeseriesView"):
+    def __init__(
+        self,
+        input_array: np.ndarray,
+        parameter_view: "TimeseriesView",
+        base: Optional[Tuple["_Timeseries", slice]] = None,
+    ):
         """
         Initialize.
 
@@ -94,12 +99,18 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             Array to handle
         parameter_view
             :class:`TimeseriesView` this timeseries belongs to
+        base
+            Timeseries and slice thereof this timeseries represents (if it does)
         """
         self._ndarray = np.asarray(input_array)
         self._parameter_view = parameter_view
+        self._base = base
 
     def __read__(self):
         self._parameter_view._read()
+        if self._base is not None:
+            base, item = self._base
+            self._ndarray = base.__read__()._ndarray[item]
         return self
 
     def __write__(self):
@@ -118,12 +129,14 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         self.__read__()
         result = self._ndarray[item]
         if not isinstance(item, int):
-            result = type(self)(result, self._parameter_view)
+            base = (self, item) if isinstance(item, slice) else None
+            result = type(self)(result, self._parameter_view, base)
         return result
 
     def __setitem__(self, key, val):
         with self.__writing__():
-            self._ndarray[key] = val
+            self._parameter_view._ensure_can_hold(val)
+            self.__read__()._ndarray[key] = val
 
     def __iter__(self):
         self.__read__()
@@ -373,9 +386,18 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = self._get_values()
             self._version = self._parameter.version
         elif self._version != self._parameter.version and not self._pending:
-            np.copyto(self._data, self._get_values())
+            data = self._get_values()
+            self._ensure_can_hold(data)
+            np.copyto(self._data, data)
             self._version = self._parameter.version
 
+    def _ensure_can_hold(self, values):
+        dtype = np.result_type(self._data.dtype, np.asarray(values).dtype)
+        if dtype != self._data.dtype and dtype.kind in "iuf":
+            self._data = self._data.astype(dtype)
+            if self._timeseries is not None:
+                self._timeseries._ndarray = self._data
+
     def _check_write(self):
         if self._parameter.children:
             raise ParameterReadonlyError
@@ -466,6 +488,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                 self._data = np.asarray(v).copy()
                 self._timeseries = _Timeseries(self._data, self)
             else:
+                self._ensure_can_hold(v)
                 np.copyto(self._data, np.asarray(v))
             self._write()
 
-- 
2.43.0


From f8c77df437a03e1ed60cf63edc0833c88038b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:00 +0000
Subject: [PATCH 08/63] fix: refresh aggregated timeseries when a child has
 been rewritten

The cache of a parent's view was tied to the version of the parent itself, which never
changes, so the sum read first was returned forever.
---
 openscm/core/views.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 65fb286..6be24b1 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -380,16 +380,23 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._child_data_views = get_data_views_for_children_or_parameter(
                 self._parameter
             )
+        self._version = self._get_version()
+
+    def _get_version(self) -> int:
+        if self._parameter.children:
+            # versions only ever increase, hence so does their sum on every write
+            return sum(v._get_version() for v in self._child_data_views)
+        return self._parameter.version
 
     def _read(self):
         if self._data is None:
             self._data = self._get_values()
-            self._version = self._parameter.version
-        elif self._version != self._parameter.version and not self._pending:
+            self._version = self._get_version()
+        elif self._version != self._get_version() and not self._pending:
             data = self._get_values()
             self._ensure_can_hold(data)
             np.copyto(self._data, data)
-            self._version = self._parameter.version
+            self._version = self._get_version()
 
     def _ensure_can_hold(self, values):
         dtype = np.result_type(self._data.dtype, np.asarray(values).dtype)
-- 
2.43.0


From 46c9d4dff7bc110da9c956d42863ed38f3c9253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 09/63] fix: refuse new child parameters below any aggregate
 that has been read

Only the direct parent was checked, so a view of a grandparent silently missed children
added to an intermediate level after it had been created.
---
 openscm/core/parameters.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..96fbbe0 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -184,8 +184,9 @@ class _Parameter:
         Raises
         ------
         ParameterReadError
-            If the child parameter would need to be added, but this parameter has
-            already been read from. In this case a child parameter cannot be added.
+            If the child parameter would need to be added, but this parameter or one it
+            is part of has already been read from. In this case a child parameter cannot
+            be added.
         ParameterWrittenError
             If the child parameter would need to be added, but this parameter has
             already been written to. In this case a child parameter cannot be added.
@@ -194,8 +195,11 @@ class _Parameter:
         if res is None:
             if self.has_been_written_to:
                 raise ParameterWrittenError
-            if self.has_been_read_from:
-                raise ParameterReadError
+            ancestor: Optional["_Parameter"] = self
+            while ancestor is not None:
+                if ancestor.has_been_read_from:
+                    raise ParameterReadError
+                ancestor = ancestor.parent
             res = _Parameter(name, self.region)
             res.parent = self
             self.children[name] = res
-- 
2.43.0


From 0726eb97f8a4a97a03fe3cc37271f66bca0eb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:14 +0000
Subject: [PATCH 10/63] fix: raise ParameterTypeError when aggregating children
 of another type

Views of a parent parameter were granted whatever the type of its children, and then
failed with TypeError or returned data of the wrong kind when read.
---
 openscm/core/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 6be24b1..18d0b59 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -219,6 +219,7 @@ class ScalarView(ParameterInfo):
                     ),
                     [],
                 )
+            parameter.attempt_read(ParameterType.SCALAR, self._unit_converter.target)
             return [ScalarView(parameter, self._unit_converter.target)]
 
         if self._parameter.children:
@@ -365,6 +366,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                     ),
                     [],
                 )
+            parameter.attempt_read(
+                timeseries_type, self._unit_converter.target, time_points
+            )
             return [
                 TimeseriesView(
                     parameter,
-- 
2.43.0


From aa48471aeef93ccbfe51ad0b0141fcd785ff1810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 11/63] fix: do not let refused scalar and timeseries requests
 fix a parameter's type

A request with an undefined or incompatible unit or unusable time points raised but
left the parameter with that unit and type, so valid requests failed from then on.
---
 openscm/core/parameters.py   | 31 ++++++++++++++++++++++++++++++-
 openscm/core/parameterset.py | 20 ++++++++++++++------
 2 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 96fbbe0..be3a192 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -2,8 +2,9 @@
 Parameter handling.
 """
 
+from contextlib import contextmanager
 from enum import Enum
-from typing import TYPE_CHECKING, Dict, Optional, Sequence, Tuple, Union
+from typing import TYPE_CHECKING, Dict, Iterator, Optional, Sequence, Tuple, Union
 
 import numpy as np
 
@@ -281,6 +282,34 @@ class _Parameter:
                 self.time_points = np.array(time_points, copy=True)
         self.has_been_read_from = True
 
+    @contextmanager
+    def requested(
+        self,
+        parameter_type: ParameterType,
+        unit: str,
+        time_points: Optional[np.ndarray] = None,
+    ) -> Iterator[None]:
+        """
+        Attempt to read (see :meth:`attempt_read`) but leave this parameter as it was if
+        an exception is raised in the context, i.e. while creating a view.
+
+        Parameters
+        ----------
+        parameter_type
+            Parameter type to be read
+        unit
+            Unit to be read
+        time_points
+            Timeseries time points; only for timeseries parameters
+        """
+        state = dict(self.__dict__)
+        try:
+            self.attempt_read(parameter_type, unit, time_points)
+            yield
+        except Exception:
+            self.__dict__.update(state)
+            raise
+
     def attempt_write(
         self,
         parameter_type: ParameterType,
diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 6dd69a7..3234265 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -14,6 +14,7 @@ from .parameters import (
 )
 from .regions import _Region
 from .time import ExtrapolationType, InterpolationType
+from .units import UnitConverter
 from .views import GenericView, ScalarView, TimeseriesView
 
 
@@ -164,12 +165,13 @@ class ParameterSet:
         ValueError
             Name not given or invalid region
         """
+        UnitConverter(unit, unit)  # raises before anything gets created
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
 
-        parameter.attempt_read(ParameterType.SCALAR, unit)
-        return ScalarView(parameter, unit)
+        with parameter.requested(ParameterType.SCALAR, unit):
+            return ScalarView(parameter, unit)
 
     def timeseries(  # pylint: disable=too-many-arguments
         self,
@@ -218,14 +220,20 @@ class ParameterSet:
         timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
         interpolation = InterpolationType.from_interpolation_type(interpolation)
         extrapolation = ExtrapolationType.from_extrapolation_type(extrapolation)
+        UnitConverter(unit, unit)  # raises before anything gets created
         parameter = self._get_or_create_parameter(
             name, self._get_or_create_region(region)
         )
 
-        parameter.attempt_read(timeseries_type, unit, time_points)
-        return TimeseriesView(
-            parameter, unit, time_points, timeseries_type, interpolation, extrapolation
-        )  # TimeseriesView
+        with parameter.requested(timeseries_type, unit, time_points):
+            return TimeseriesView(
+                parameter,
+                unit,
+                time_points,
+                timeseries_type,
+                interpolation,
+                extrapolation,
+            )
 
     def generic(
         self, name: HierarchicalName, region: HierarchicalName = ("World",)
-- 
2.43.0


From d2ce79d426c751be738be37094ce4e71277f768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 12/63] fix: match characters other than * literally in
 metadata filters

Brackets, braces, ?, ^ and backslashes in filter strings were interpreted as regular
expression syntax, so that such metadata did not match itself.
---
 openscm/scmdataframe/filters.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..c09065c 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,16 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            # only "*" has a special meaning in pseudo-regexps
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From e1e2d7cd4b3cd31c623fdb5088e9a66bca17678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 13/63] fix: treat None like NaN when filtering metadata

E.g. after converting the units of some timeseries only, unit_context is None for the
others, and filtering by it raised TypeError.
---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index c09065c..71a273e 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -164,7 +164,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     _meta_col = meta_col.copy()
     if has_nan:
         _meta_col.loc[
-            [np.isnan(i) if not isinstance(i, str) else False for i in _meta_col]
+            [pd.api.types.is_scalar(i) and pd.isnull(i) for i in _meta_col]
         ] = ""
 
     for s in _values:
-- 
2.43.0


From ca6fe1e97d52bc4057c9aa8b036b440d3743c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:04 +0000
Subject: [PATCH 14/63] fix: support lists of several month or weekday ranges
 in time filters

Removing the ranges from the list shifted the positions of the remaining ones
(IndexError, or the wrong entry removed) and modified the caller's list.
---
 openscm/scmdataframe/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 71a273e..032f9af 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -338,7 +338,7 @@ def time_match(
         increasing integers (i.e. "Nov-Feb" will not work, one must use ["Nov-Dec",
         "Jan-Feb"] instead)
     """
-    times_list = [times] if isinstance(times, (int, str)) else times
+    times_list = [times] if isinstance(times, (int, str)) else list(times)
 
     def conv_strs(strs_to_convert, conv_codes, name):
         res = None
@@ -377,7 +377,7 @@ def time_match(
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
                 to_delete.append(i)
 
-        for i in to_delete:
+        for i in reversed(to_delete):
             del times_list[i]
 
         times_list = conv_strs(times_list, conv_codes, name)
-- 
2.43.0


From 81c0723636a88ff460f4171f9ae54cf97cdd8456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 15/63] fix: allow mixing abbreviated and full month or weekday
 names in time filters

All strings of a list or range had to match the same format, e.g. ["Jan", "March"]
raised ValueError.
---
 openscm/scmdataframe/filters.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 032f9af..5c5027e 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -341,18 +341,16 @@ def time_match(
     times_list = [times] if isinstance(times, (int, str)) else list(times)
 
     def conv_strs(strs_to_convert, conv_codes, name):
-        res = None
-        for conv_code in conv_codes:
-            try:
-                res = [
-                    getattr(time.strptime(t, conv_code), strptime_attr)
-                    for t in strs_to_convert
-                ]
-                break
-            except ValueError:
-                continue
-
-        if res is None:
+        res = []
+        for t in strs_to_convert:
+            for conv_code in conv_codes:
+                try:
+                    res.append(getattr(time.strptime(t, conv_code), strptime_attr))
+                    break
+                except ValueError:
+                    continue
+
+        if len(res) != len(strs_to_convert):
             error_msg = "Could not convert {} '{}' to integer".format(
                 name, strs_to_convert
             )
-- 
2.43.0


From ea34bbb96b8bf90aaecd739005c788bdeebc1be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 16/63] fix: keep timeseries and metadata aligned when setting
 metadata by index

The outer merge reordered the metadata but not the data (attaching values to the
metadata of other timeseries), duplicated columns which already existed and added rows
for index entries which do not match any timeseries.
---
 openscm/scmdataframe/base.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..0dc907b 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -894,7 +894,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ------
         ValueError
             No name can be determined from inputs or index cannot be coerced to
-            :class:`pd.MultiIndex`
+            :class:`pd.MultiIndex` or the index contains duplicates or entries which do
+            not match any timeseries
         """
         # check that name is valid and doesn't conflict with data columns
         # mypy doesn't recognise if
@@ -924,17 +925,18 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         meta = pd.Series(meta, index=index, name=name)
 
-        df = self.meta.reset_index()
+        # determine which entry of the index each timeseries belongs to
         if all(index.names):
-            df = df.set_index(index.names)
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
-            .reset_index()
-            .set_index("index")
-        )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
+            keys = self._meta.set_index(list(index.names)).index
+        else:
+            keys = self._meta.index
+        if index.has_duplicates or not index.isin(keys).all():
+            raise ValueError("index must be unique and refer to existing timeseries")
+
+        values = pd.Series(meta.reindex(keys).values, index=self._meta.index)
+        if name in self._meta:
+            values = values.where(keys.isin(index), self._meta[name])
+        self._meta[name] = values
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From ff00cf67dd7369a0484a7817a0278f55e1593700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:57 +0000
Subject: [PATCH 17/63] fix: keep the time points if setting new ones fails

Assigning time points of the wrong length raised, but left time_points inconsistent with
the data.
---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 0dc907b..9cf45f6 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -445,8 +445,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Provides direct access to set "time" as well as the columns in :attr:`meta`.
         """
         if key == "time":
-            self._time_points = TimePoints(value)
-            self._data.index = self._time_points.to_index()
+            time_points = TimePoints(value)
+            self._data.index = time_points.to_index()
+            self._time_points = time_points
             return value
         return self.set_meta(value, name=key)
 
-- 
2.43.0


From e00c66fe4dbe3adb7c2806175b559d2ef9819b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 18/63] fix: leave the metadata unchanged if renaming in place
 fails

The error for unknown columns or non-unique metadata was raised only after the frame had
been modified.
---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 9cf45f6..87dccda 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -855,14 +855,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Column is not in meta or renaming will cause non-unique metadata
         """
         ret = copy.deepcopy(self) if not inplace else self
+        meta = ret.meta
         for col, _mapping in mapping.items():
             if col not in self.meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
+        ret._meta = meta  # pylint: disable=protected-access
 
         if not inplace:
             return ret
-- 
2.43.0


From 4c898ea4bd64b79ca922f8724d1f07185976eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 19/63] fix: interpolate frames which contain both average and
 point timeseries

The target times extended by one period for average timeseries were used for the point
timeseries as well, whose values then did not fit the time axis.
---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 87dccda..dc7eb96 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1011,13 +1011,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_time_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1026,7 +1027,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_time_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From 58ecc7db3e32940e007d6cd5346ecd459dcad4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 20/63] fix: store guessed parameter types whatever other
 metadata there is

Guessing relied on DataFrame.apply writing through to the metadata, which it does not
do for metadata of mixed types, and ignored missing values other than None: the
timeseries concerned silently became NaN.
---
 openscm/scmdataframe/base.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index dc7eb96..1147264 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -990,19 +990,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
-                warnings.warn(
-                    "`parameter_type` metadata not available. Guessing parameter types where unavailable."
-                )
-                parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
-                    "average"
-                    if parameter_type == ParameterType.AVERAGE_TIMESERIES
-                    else "point"
-                )
-            return r
+            if not pd.isnull(r.parameter_type):
+                return r.parameter_type
+            warnings.warn(
+                "`parameter_type` metadata not available. Guessing parameter types where unavailable."
+            )
+            parameter_type = guess_parameter_type(r.variable, r.unit)
+            return (
+                "average"
+                if parameter_type == ParameterType.AVERAGE_TIMESERIES
+                else "point"
+            )
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From 20307c725eb7e3b8a5eefadab1e311c7802532e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 21/63] fix: leave the frame unchanged if converting units in
 place fails

---
 openscm/scmdataframe/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 1147264..7f5b4f0 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1256,7 +1256,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             with the converted units.
         """
         # pylint: disable=protected-access
-        ret = self if inplace else self.copy()
+        ret = self.copy()
 
         if "unit_context" not in ret._meta:
             ret._meta["unit_context"] = None
@@ -1273,6 +1273,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         if not inplace:
             return ret
+
+        self._data, self._meta = ret._data, ret._meta
         return None
 
     def relative_to_ref_period_mean(
-- 
2.43.0


From 224cfa4483e0a5d91bb9d4d940f9e23124c9b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 22/63] fix: keep -999 in metadata when appending

---
 openscm/scmdataframe/base.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 7f5b4f0..5e7a7ef 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -177,6 +177,27 @@ def _format_long_data(df):
     return df, meta
 
 
+def _get_na_fill_value(*metas: pd.DataFrame) -> int:
+    """
+    Get a value to stand in for missing metadata which is not contained in the metadata.
+
+    Parameters
+    ----------
+    *metas
+        Metadata
+
+    Returns
+    -------
+    int
+        Value which is not in any of :obj:`metas`
+    """
+    na_fill_value = -999
+    while any((meta == na_fill_value).any(axis=None) for meta in metas):
+        na_fill_value -= 1
+
+    return na_fill_value
+
+
 def _format_wide_data(df):
     orig = df.copy()
 
@@ -1498,7 +1519,7 @@ def df_append(
     joint_meta_set = set(joint_meta)
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
-    na_fill_value = -999
+    na_fill_value = _get_na_fill_value(*[df.meta for df in joint_dfs])
     for i, _ in enumerate(joint_dfs):
         for col in joint_meta_set:
             if col not in joint_dfs[i].meta:
-- 
2.43.0


From 5380a5d9bcd47ce44b5ac546f4ce43fc8ca3dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 23/63] fix: keep timeseries with missing metadata when reading
 long data

---
 openscm/scmdataframe/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5e7a7ef..4e37e95 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -170,8 +170,13 @@ def _format_long_data(df):
         raise ValueError(msg)
 
     extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
-    df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
-    meta = df.columns.to_frame(index=None)
+    meta_cols = REQUIRED_COLS + extra_cols
+
+    # pivoting drops rows with missing metadata
+    na_fill_value = _get_na_fill_value(df[meta_cols])
+    df[meta_cols] = df[meta_cols].where(df[meta_cols].notna(), na_fill_value)
+    df = df.pivot_table(columns=meta_cols, index=time_col).value
+    meta = df.columns.to_frame(index=None).replace(na_fill_value, np.nan)
     df.columns = meta.index
 
     return df, meta
-- 
2.43.0


From 5951f7b707a82ae6b370b288d4b3acbc25eb6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 24/63] fix: keep groups with missing metadata when processing
 over metadata

---
 openscm/scmdataframe/base.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4e37e95..16d266a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1232,16 +1232,26 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
         group_cols = list(set(ts.index.names) - set(cols))
+
+        # grouping drops timeseries with missing metadata
+        na_fill_value = _get_na_fill_value(self.meta)
+        meta = ts.index.to_frame()
+        ts.index = pd.MultiIndex.from_frame(meta.where(meta.notna(), na_fill_value))
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
+            res = grouper.median(**kwargs)
+        elif operation == "mean":
+            res = grouper.mean(**kwargs)
+        elif operation == "quantile":
+            res = grouper.quantile(**kwargs)
+        else:
+            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
 
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+        if meta[group_cols].isna().any(axis=None):
+            res = res.rename(index={na_fill_value: np.nan})
+
+        return res
 
     def convert_unit(
         self,
-- 
2.43.0


From 3292a8ca24f2871a917cd99a523efd80f964611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 25/63] fix: order of timeseries does not depend on the hash
 seed

---
 openscm/scmdataframe/base.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 16d266a..5412c0c 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -169,7 +169,7 @@ def _format_long_data(df):
         msg = "invalid time format, must have either `year` or `time`!"
         raise ValueError(msg)
 
-    extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
+    extra_cols = [c for c in df.columns if c not in REQUIRED_COLS + [time_col, "value"]]
     meta_cols = REQUIRED_COLS + extra_cols
 
     # pivoting drops rows with missing metadata
@@ -206,7 +206,7 @@ def _get_na_fill_value(*metas: pd.DataFrame) -> int:
 def _format_wide_data(df):
     orig = df.copy()
 
-    cols = set(df.columns) - set(REQUIRED_COLS)
+    cols = [c for c in df.columns if c not in REQUIRED_COLS]
     time_cols, extra_cols = False, []
     for i in cols:
         # if in wide format, check if columns are years (int) or datetime
@@ -1231,7 +1231,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
-        group_cols = list(set(ts.index.names) - set(cols))
+        group_cols = [c for c in ts.index.names if c not in cols]
 
         # grouping drops timeseries with missing metadata
         na_fill_value = _get_na_fill_value(self.meta)
@@ -1529,28 +1529,26 @@ def df_append(
     joint_dfs = [d.copy() for d in scm_dfs]
     joint_meta = []  # type: List[str]
     for df in joint_dfs:
-        joint_meta += df.meta.columns.tolist()
-
-    joint_meta_set = set(joint_meta)
+        joint_meta += [c for c in df.meta.columns if c not in joint_meta]
 
     # should probably solve this https://github.com/pandas-dev/pandas/issues/3729
     na_fill_value = _get_na_fill_value(*[df.meta for df in joint_dfs])
     for i, _ in enumerate(joint_dfs):
-        for col in joint_meta_set:
+        for col in joint_meta:
             if col not in joint_dfs[i].meta:
                 joint_dfs[i].set_meta(na_fill_value, name=col)
 
     # we want to put data into timeseries format and pass into format_ts instead of
     # _format_data
     data = pd.concat(
-        [d.timeseries().reorder_levels(joint_meta_set) for d in joint_dfs], sort=False
+        [d.timeseries().reorder_levels(joint_meta) for d in joint_dfs], sort=False
     )
 
     data = data.reset_index()
-    data[list(joint_meta_set)] = data[joint_meta_set].replace(
+    data[joint_meta] = data[joint_meta].replace(
         to_replace=np.nan, value=na_fill_value
     )
-    data = data.set_index(list(joint_meta_set))
+    data = data.set_index(joint_meta)
     if duplicate_msg and data.index.duplicated().any():
         warn_handle_res = _handle_potential_duplicates_in_append(data, duplicate_msg)
         if warn_handle_res is not None:
-- 
2.43.0


From 4f754e31f5bfedb9e1e3c8f94810cdeebe4311c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 26/63] fix: export parameters of regions at any depth to a
 ScmDataFrame

---
 openscm/scmdataframe/__init__.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..baa38cb 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -107,18 +108,15 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     }
     data = []
 
-    root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
-            root_params.update(walk_parameters(value))
+    def walk_regions(region: _Region) -> Dict[Tuple, ParameterInfo]:
+        md = {}
+        for _, para in region._parameters.items():  # pylint: disable=protected-access
+            md.update(walk_parameters(para))
+        for _, child in region._children.items():  # pylint: disable=protected-access
+            md.update(walk_regions(child))
+        return md
+
+    root_params = walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From c32a6dfda96a4fefa9f02d93796ea8828eb1d763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 27/63] fix: generated date ranges always reach the end of the
 span

---
 openscm/scmdataframe/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..647e5d7 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -241,8 +241,8 @@ def generate_range(
 
     # Iterate to find all the required timesteps
     current = start
-    while current <= end:
-        yield current
+    yield current
+    while current < end:
 
         next_current = offset.apply(current)
         if next_current <= current:
@@ -251,3 +251,4 @@ def generate_range(
             )
 
         current = next_current
+        yield current
-- 
2.43.0


From 54a9036bf5b10d499f276e63eb95d70354ebc2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 28/63] fix: roll dates outside the range of pd.Timestamp

---
 openscm/scmdataframe/offsets.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 647e5d7..b1abc40 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -59,6 +59,12 @@ def apply_dt(func, self):
     return wrapper
 
 
+def _apply_step(obj, n: int, dt: datetime.datetime) -> datetime.datetime:
+    # move by n times the period of obj without converting to :class:`pd.Timestamp`
+    step = obj.__class__(n, normalize=obj.normalize, **obj.kwds)
+    return apply_dt(step.apply.__wrapped__, step)(dt)
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -67,7 +73,7 @@ def apply_rollforward(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_step(obj, 1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -81,7 +87,7 @@ def apply_rollback(obj):
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _apply_step(obj, -1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
-- 
2.43.0


From f477823fb91555b210d6ef7326ac21d7a3daf15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 29/63] fix: support fixed frequencies outside the range of
 pd.Timestamp

---
 openscm/scmdataframe/offsets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index b1abc40..69ce422 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -133,7 +134,11 @@ def to_offset(rule: str) -> DateOffset:
             orig_func = func.__wrapped__
             object.__setattr__(offset, fname, apply_dt(orig_func, offset))
 
-    wrap_funcs("apply")
+    if isinstance(offset, Tick):
+        delta = offset.delta.to_pytimedelta()
+        object.__setattr__(offset, "apply", lambda other: as_datetime(other) + delta)
+    else:
+        wrap_funcs("apply")
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
-- 
2.43.0


From c0b9f0e544719276b133c63d1e0c1256212d618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 30/63] fix: keep the offsets of degreeC and degreeF

---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 3f01a78..18d38d4 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("degreeC = kelvin; offset: 273.15")
+        self.define("degreeF = 5 / 9 * kelvin; offset: 233.15 + 200 / 9")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From 0d0a1a6ba5155550cdf0b76454e31d78b8dd296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:34 +0000
Subject: [PATCH 31/63] fix: reject empty names consistently

---
 openscm/core/parameterset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/parameterset.py b/openscm/core/parameterset.py
index 3234265..ab7efb8 100644
--- a/openscm/core/parameterset.py
+++ b/openscm/core/parameterset.py
@@ -95,6 +95,8 @@ class ParameterSet:
         if isinstance(name, str):
             name = name.split(HIERARCHY_SEPARATOR)
 
+        if not name:
+            raise ValueError("No region name given")
         if name[0] != self._root.name:
             return None
 
@@ -124,7 +126,7 @@ class ParameterSet:
             Name not given
         """
         if isinstance(name, str):
-            name = name.split(HIERARCHY_SEPARATOR)
+            name = name.split(HIERARCHY_SEPARATOR) if name else ()
 
         if len(name) > 1:
             p = self._get_or_create_parameter(name[:-1], region)
-- 
2.43.0


From 5c020aae0da819c767816e36b3867b610303ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 32/63] fix: read aggregates on any time axis covered by their
 children

A second view of a parameter with children was refused if its time points lie before
those of the first view, although such a parameter has no data of its own.
---
 openscm/core/views.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 18d0b59..0e1a5db 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -342,7 +342,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         super().__init__(parameter)
         self._unit_converter = UnitConverter(cast(str, parameter.unit), unit)
         self._timeseries_converter = TimeseriesConverter(
-            parameter.time_points,
+            # a parameter with children has no data (and hence time points) of its own
+            time_points if parameter.children else parameter.time_points,
             time_points,
             timeseries_type,
             interpolation_type,
-- 
2.43.0


From fecf339860e800f72a5719083506f3aa4fb1f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 33/63] fix: always refuse generic views of parameters with
 children

The refused request had fixed the parameter's type nevertheless: the next generic view
was granted (and could neither be read nor written) and all others refused.
---
 openscm/core/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index be3a192..dbb91f1 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -261,14 +261,14 @@ class _Parameter:
         """
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
+        if parameter_type == ParameterType.GENERIC and self.children:
+            raise ParameterAggregationError
         if self.parameter_type is None:
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From 68e83c71dceb1ca43f33d37bb75995318abd4ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 34/63] fix: incomplete date strings do not depend on today's
 date

Month and day (or day) which a string does not give were taken from the current date.
---
 openscm/core/time.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 6678706..2549a4d 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -107,7 +107,12 @@ def _float_year_to_datetime(inp: float) -> np.datetime64:
 
 
 _ufunc_float_year_to_datetime = np.frompyfunc(_float_year_to_datetime, 1, 1)
-_ufunc_str_to_datetime = np.frompyfunc(parser.parse, 1, 1)
+_ufunc_str_to_datetime = np.frompyfunc(
+    # parts not given default to the start of the year (instead of to those of today)
+    lambda inp: parser.parse(inp, default=datetime.datetime(1, 1, 1)),
+    1,
+    1,
+)
 
 
 def _parse_datetime(inp: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 3530ca22a65be5c228885fc7e9cff376fb28e279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:47 +0000
Subject: [PATCH 35/63] fix: accept lists of np.datetime64 outside the range of
 pd.Timestamp as time index

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 5412c0c..b007a09 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -260,7 +260,7 @@ def _from_ts(
     if not isinstance(df, pd.DataFrame):
         df = pd.DataFrame(df)
     if index is not None:
-        if isinstance(index, np.ndarray):
+        if isinstance(index, (list, np.ndarray)):
             df.index = TimePoints(index).to_index()
         else:
             df.index = index
-- 
2.43.0


From e152bdc2b67bb89877646c2203a952a08cf41fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 36/63] fix: generated date ranges end with the first step not
 before the end

The end was rolled forward keeping its time of day, so a range could
continue one step beyond the first one covering the end.
---
 openscm/scmdataframe/offsets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 69ce422..999d055 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -246,9 +246,8 @@ def generate_range(
      datetime.datetime(2005, 4, 1, 0, 0),
      datetime.datetime(2005, 7, 1, 0, 0)]
     """
-    # Get the bounds
+    # Get the lower bound
     start = offset.rollback(start)
-    end = offset.rollforward(end)
 
     # Iterate to find all the required timesteps
     current = start
-- 
2.43.0


From 1c2921ca98c5b43a525e24e91c3287184191f0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:41 +0000
Subject: [PATCH 37/63] fix: guess parameter type from name for units which
 cannot be parsed

Units like "%", "1" or "degC/yr" made guess_parameter_type (and with it
interpolating) raise all kinds of errors.
---
 openscm/scmdataframe/parameter_type.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/parameter_type.py b/openscm/scmdataframe/parameter_type.py
index 5a15f16..b77887e 100644
--- a/openscm/scmdataframe/parameter_type.py
+++ b/openscm/scmdataframe/parameter_type.py
@@ -4,8 +4,10 @@ Functionality for guessing the parameter types from variable names and unit.
 import re
 from typing import Optional
 
+from pint.errors import OffsetUnitCalculusError
+
 from ..core.parameters import ParameterType
-from ..core.units import UndefinedUnitError, _unit_registry
+from ..core.units import _unit_registry
 
 """
 List of regex patterns for matching variable names to :obj:`ParameterType`.
@@ -54,13 +56,19 @@ def guess_parameter_type(variable_name: str, unit: Optional[str]) -> ParameterTy
     if unit:
         # try and determine if the unit contains a time dimension
         try:
-            pint_unit = _unit_registry(unit).units
-            if "[time]" in str(pint_unit.dimensionality):
+            try:
+                dimensionality = _unit_registry.Quantity(unit).dimensionality
+            except OffsetUnitCalculusError:
+                # offset units in compounds, e.g. "degC / yr"
+                dimensionality = _unit_registry.Unit(unit).dimensionality
+
+            if "[time]" in str(dimensionality):
                 return ParameterType.AVERAGE_TIMESERIES
 
             return ParameterType.POINT_TIMESERIES
-        except UndefinedUnitError:
-            # default to trying to parse from variable name
+        except Exception:  # pylint: disable=broad-except
+            # unknown unit or not a unit at all (pint raises all kinds of errors then,
+            # e.g. for "%"), default to trying to parse from variable name
             pass
 
     for r, t in parameter_matches:
-- 
2.43.0


From bf5e286ac0e13f8307d0872c14ef53a5c7357188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 38/63] fix: don't change the input data when initialising a
 ScmDataFrame with columns

---
 openscm/scmdataframe/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index b007a09..590c7be 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -257,8 +257,8 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    # copy to not change the input
+    df = df.copy() if isinstance(df, pd.DataFrame) else pd.DataFrame(df)
     if index is not None:
         if isinstance(index, (list, np.ndarray)):
             df.index = TimePoints(index).to_index()
@@ -270,7 +270,7 @@ def _from_ts(
         missing = list(set(REQUIRED_COLS) - set(columns.keys()))
         raise ValueError("missing required columns `{}`!".format(missing))
 
-    df.index.name = "time"
+    df = df.rename_axis("time")
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
-- 
2.43.0


From 89c2521c66800e45c1a3245c9d0295b4d2eeda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:54 +0000
Subject: [PATCH 39/63] fix: allow repeated labels in the data a ScmDataFrame
 is initialised with

Interpolating or converting units failed for e.g. concatenated wide data.
---
 openscm/scmdataframe/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 590c7be..98c4c31 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -417,6 +417,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         _df.index = self._time_points.to_index()
         _df = _df.astype(float)
 
+        if _df.columns.has_duplicates:
+            # the labels are used to select timeseries so have to be unique
+            _df.columns = _meta.index = pd.RangeIndex(len(_meta))
+
         self._data, self._meta = (_df, _meta)
         self._sort_meta_cols()
 
-- 
2.43.0


From 343a3bad611278aebbae2f597fef21b202879dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 40/63] fix: sort data by time even if given as strings

Year strings of different length or dates in other formats were sorted
alphabetically.
---
 openscm/scmdataframe/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 98c4c31..eb2ae44 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -152,8 +152,10 @@ def _format_data(  # pylint: disable=missing-return-doc
     else:
         df, meta = _format_wide_data(df)
 
-    # sort data
-    df.sort_index(inplace=True)
+    # sort data by time, e.g. strings don't sort in order of time
+    time_points = TimePoints(df.index.values)
+    df.index = time_points.to_index()
+    df = df.iloc[np.argsort(time_points.values, kind="stable")]
 
     return df, meta
 
-- 
2.43.0


From 719b294e2c87af7534cc3ceca82a938413bcdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:12 +0000
Subject: [PATCH 41/63] fix: align reference period means with their timeseries

Aligning by metadata duplicated and reordered timeseries if some metadata
is missing.
---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index eb2ae44..0264818 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1346,11 +1346,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         ts = self.timeseries()
         # mypy confused by `inplace` default
-        ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
-        )
+        ref_period = self.filter(**kwargs)._data  # type: ignore
+        # aligning by metadata fails if some of it is missing
+        ref_period_mean = ref_period.mean().reindex(self._data.columns)
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        res = ts.sub(ref_period_mean.values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From a968e03ce2e07d1f55de34cf5ed542eab481b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 42/63] fix: convert between units whose ratio exceeds 64 bit
 integers

E.g. from ppm**4 to ppt**4, np.isnan raised a TypeError.
---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 18d38d4..ad211b3 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -505,8 +505,8 @@ class UnitConverter:
         source_unit = _unit_registry.Unit(source)
         target_unit = _unit_registry.Unit(target)
 
-        s1 = _unit_registry.Quantity(1, source_unit)
-        s2 = _unit_registry.Quantity(-1, source_unit)
+        s1 = _unit_registry.Quantity(1.0, source_unit)
+        s2 = _unit_registry.Quantity(-1.0, source_unit)
 
         if context is None:
             t1 = s1.to(target_unit)
-- 
2.43.0


From a4516b058343fc42f392e7d5d3efd408f92991ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 43/63] fix: match metadata with line breaks in filters

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 5c5027e..f94056b 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -170,7 +170,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
     for s in _values:
         if isinstance(s, str):
             # only "*" has a special meaning in pseudo-regexps
-            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
+            _regexp = re.escape(str(s)).replace(r"\*", r"[\s\S]*") + r"\Z"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From 0d4d02295c1b60fe14b4f57f6f7bffbe3c7a5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 44/63] fix: allow filtering by an empty list

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index f94056b..736c21d 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = pd.Series(False, index=meta_col.index)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
-- 
2.43.0


From 9767459fd47cde143971f5b8ed050dfb4b9a704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 45/63] fix: filter by time with any kind of list

---
 openscm/scmdataframe/base.py    | 11 +++--------
 openscm/scmdataframe/filters.py |  4 +++-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 0264818..aabb2e3 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -801,19 +801,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         return keep_ts, keep_meta
 
     def _day_match(self, values):
-        if isinstance(values, str):
-            wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
-            wday = True
-        else:
-            wday = False
+        values_list = [values] if isinstance(values, (int, str)) else list(values)
 
-        if wday:
+        if values_list and isinstance(values_list[0], str):
             days = self._time_points.weekdays()
         else:  # ints or list of ints
             days = self._time_points.days()
 
-        return day_match(days, values)
+        return day_match(days, values_list)
 
     def head(self, *args, **kwargs):
         """
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 736c21d..0ba1d28 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -34,6 +34,8 @@ def is_in(vals: List, items: List) -> np.ndarray:
         Array of the same length as :obj:`vals` where the element is ``True`` if the
         corresponding element of :obj:`vals` is in :obj:`items` and False otherwise
     """
+    # `in` looks at the index of e.g. a `pd.Series`
+    items = list(items)
     return np.array([v in items for v in vals])
 
 
@@ -357,7 +359,7 @@ def time_match(
             raise ValueError(error_msg)
         return res
 
-    if isinstance(times_list[0], str):
+    if times_list and isinstance(times_list[0], str):
         to_delete = []
         to_append = []  # type: List
         for i, timeset in enumerate(times_list):
-- 
2.43.0


From 5bb8bd05e6da2f9af0f82170f2519ec75077488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:26 +0000
Subject: [PATCH 46/63] fix: allow filtering of empty frames

---
 openscm/core/time.py            | 12 +++++++-----
 openscm/scmdataframe/base.py    |  4 ++--
 openscm/scmdataframe/filters.py |  4 ++--
 3 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 2549a4d..6b66efc 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -205,7 +205,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Year of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "year")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "year")
 
     def months(self) -> np.ndarray:
         """
@@ -216,7 +216,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Month of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "month")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "month")
 
     def days(self) -> np.ndarray:
         """
@@ -227,7 +227,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "day")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "day")
 
     def hours(self) -> np.ndarray:
         """
@@ -238,7 +238,7 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Hour of each time point
         """
-        return np.vectorize(getattr)(self._values.astype(object), "hour")
+        return np.vectorize(getattr, otypes=[int])(self._values.astype(object), "hour")
 
     def weekdays(self) -> np.ndarray:
         """
@@ -249,7 +249,9 @@ class TimePoints:  # TODO: track type of timeseries
         :obj:`np.array` of :obj:`int`
             Day of the week of each time point
         """
-        return np.vectorize(datetime.datetime.weekday)(self._values.astype(object))
+        return np.vectorize(datetime.datetime.weekday, otypes=[int])(
+            self._values.astype(object)
+        )
 
 
 def create_time_points(  # TODO: replace by simpler function
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index aabb2e3..69ed10a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -745,8 +745,8 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Filtering cannot be performed on requested column
         """
         regexp = filters.pop("regexp", False)
-        keep_ts = np.array([True] * len(self._data))
-        keep_meta = np.array([True] * len(self.meta))
+        keep_ts = np.array([True] * len(self._data), dtype=bool)
+        keep_meta = np.array([True] * len(self.meta), dtype=bool)
 
         # filter by columns and list of values
         for col, values in filters.items():
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 0ba1d28..5199ef5 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -36,7 +36,7 @@ def is_in(vals: List, items: List) -> np.ndarray:
     """
     # `in` looks at the index of e.g. a `pd.Series`
     items = list(items)
-    return np.array([v in items for v in vals])
+    return np.array([v in items for v in vals], dtype=bool)
 
 
 def find_depth(
@@ -103,7 +103,7 @@ def find_depth(
     def apply_test(val):
         return test(len(pipe.findall(val.replace(regexp, ""))))
 
-    return np.array([b for b in [apply_test(m) for m in meta_col]])
+    return np.array([b for b in [apply_test(m) for m in meta_col]], dtype=bool)
 
 
 def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
-- 
2.43.0


From 6c1decf3ef0ae7998562fcb701208d4ffe20f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 47/63] fix: make time points independent of their input and
 output

---
 openscm/core/time.py         | 3 ++-
 openscm/scmdataframe/base.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 6b66efc..8f1da40 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -175,7 +175,8 @@ class TimePoints:  # TODO: track type of timeseries
         values
             Time points array to handle
         """
-        self._values = _format_datetime(np.asarray(values))
+        # copy to be independent of the input
+        self._values = _format_datetime(np.array(values))
 
     @property
     def values(self) -> np.ndarray:
diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 69ed10a..8cc3d32 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -571,7 +571,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         Time points of the data
         """
-        return self._time_points.values
+        return self._time_points.values.copy()
 
     def timeseries(self, meta: Optional[List[str]] = None) -> pd.DataFrame:
         """
-- 
2.43.0


From a04b0f127790e02100ed34ff4b3db05080c936cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:22 +0000
Subject: [PATCH 48/63] fix: guess missing parameter types when converting to a
 ParameterSet

Frames of which only some timeseries have a parameter type (e.g. after
appending) could not be converted although interpolate guesses the type.
---
 openscm/scmdataframe/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 8cc3d32..d046c5a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -535,12 +535,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             variable = metadata.pop("variable")
             region = metadata.pop("region")
             unit = metadata.pop("unit")
-            try:
-                timeseries_type = ParameterType.from_timeseries_type(
-                    metadata.pop("parameter_type")
-                )
-            except KeyError:
+            timeseries_type = metadata.get("parameter_type")
+            if pd.isnull(timeseries_type):
                 timeseries_type = guess_parameter_type(variable, unit)
+            else:
+                timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
 
             time_points = self.time_points
             if timeseries_type == ParameterType.AVERAGE_TIMESERIES:
-- 
2.43.0


From c1dfa8da368c94a96febdc6700090c93b4cbe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 49/63] fix: list all available contexts from the beginning

UnitConverter.contexts missed the metric conversion contexts until one of
them had been used somewhere in the process.
---
 openscm/core/units.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index ad211b3..bd823e3 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -274,10 +274,16 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         Overload pint's :func:`enable_contexts` to load contexts once (the first time
         they are used) to avoid (unnecessary) file operations on import.
         """
+        self._ensure_contexts_loaded()
+        super().enable_contexts(*names_or_contexts, **kwargs)
+
+    def _ensure_contexts_loaded(self) -> None:
+        """
+        Load contexts if not done before.
+        """
         if not self._contexts_loaded:
             self._load_contexts()
         self._contexts_loaded = True
-        super().enable_contexts(*names_or_contexts, **kwargs)
 
     def _add_mass_emissions_joint_version(self, symbol: str) -> None:
         """
@@ -563,7 +569,9 @@ class UnitConverter:
         """
         Available contexts for unit conversions
         """
-        return list(_unit_registry._contexts.keys())  # pylint: disable=protected-access
+        # pylint: disable=protected-access
+        _unit_registry._ensure_contexts_loaded()
+        return list(_unit_registry._contexts.keys())
 
     @property
     def unit_registry(self) -> ScmUnitRegistry:
-- 
2.43.0


From 47553cd49b6481ad1283864a7baa75569e031a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:40 +0000
Subject: [PATCH 50/63] fix: DICE truncated the forcing of other greenhouse
 gases to whole time units

---
 openscm/adapters/dice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..61f810a 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -339,8 +339,9 @@ class DICE(Adapter):
             forcoth = v.fex1.value
         else:
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                (v.period_length.value * self._timestep)
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From 3638945507ee1e81b9fca1f089aa2100319c0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 51/63] fix: DICE outputs read while stepping depended on
 uninitialised memory

---
 openscm/adapters/dice.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 61f810a..8332de5 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -235,18 +235,18 @@ class DICE(Adapter):
         v.b32 = v.b23.value * v.mueq.value / v.mleq.value
         v.b33 = 1 - v.b32
 
-        v.mat.values = np.empty(self._timestep_count)
+        v.mat.values = np.zeros(self._timestep_count)
         v.mat.values[0] = v.mat0.value
-        v.ml.values = np.empty(self._timestep_count)
+        v.ml.values = np.zeros(self._timestep_count)
         v.ml.values[0] = v.ml0.value
-        v.mu.values = np.empty(self._timestep_count)
+        v.mu.values = np.zeros(self._timestep_count)
         v.mu.values[0] = v.mu0.value
-        v.tatm.values = np.empty(self._timestep_count)
+        v.tatm.values = np.zeros(self._timestep_count)
         v.tatm.values[0] = v.tatm0.value
-        v.tocean.values = np.empty(self._timestep_count)
+        v.tocean.values = np.zeros(self._timestep_count)
         v.tocean.values[0] = v.tocean0.value
 
-        v.forc.values = np.empty(self._timestep_count)
+        v.forc.values = np.zeros(self._timestep_count)
         v.forc.values[0] = (
             v.fco22x.value * log2(v.mat0.value / v.mateq.value) + v.fex0.value
         )
-- 
2.43.0


From 761717e20de9efe198712af327584e0fc7a62aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:25 +0000
Subject: [PATCH 52/63] fix: interpolate, resample and export frames whose time
 points are not in order

---
 openscm/scmdataframe/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index d046c5a..2ab407a 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -529,8 +529,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         if parameterset is None:
             parameterset = ParameterSet()
 
+        # the time points may have been given in any order
+        time_order = np.argsort(self.time_points, kind="stable")
+
         for i in self._data:
-            vals = self._data[i]
+            vals = self._data[i].iloc[time_order]
             metadata = self._meta.loc[i]
             variable = metadata.pop("variable")
             region = metadata.pop("region")
@@ -541,7 +544,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             else:
                 timeseries_type = ParameterType.from_timeseries_type(timeseries_type)
 
-            time_points = self.time_points
+            time_points = self.time_points[time_order]
             if timeseries_type == ParameterType.AVERAGE_TIMESERIES:
                 delta_t = time_points[-1] - time_points[-2]
                 time_points = np.concatenate((time_points, [time_points[-1] + delta_t]))
@@ -1030,13 +1033,16 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
         res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
+        # Converters need the source in order of time, which may be given in any order
+        time_order = np.argsort(self.time_points, kind="stable")
+        old_data = res._data.iloc[time_order]
+
         # Resize dataframe to new index length
-        old_data = res._data
         res._data = pd.DataFrame(index=timeseries_index, columns=res._data.columns)
 
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
-            time_points = self.time_points
+            time_points = self.time_points[time_order]
             target_time_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
@@ -1191,9 +1197,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for more information about possible arguments.
         """
         orig_dts = self["time"]
-        target_dts = generate_range(
-            orig_dts.iloc[0], orig_dts.iloc[-1], to_offset(rule)
-        )
+        target_dts = generate_range(orig_dts.min(), orig_dts.max(), to_offset(rule))
         return self.interpolate(list(target_dts), **kwargs)
 
     def process_over(
-- 
2.43.0


From 00b4197e334720ebcededb456ba7794a98009aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:46 +0000
Subject: [PATCH 53/63] fix: write through handles whose array is replaced
 because floats were written meanwhile

---
 openscm/core/views.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 0e1a5db..4aa7068 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -39,13 +39,14 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         ]
         outputs = kwargs.pop("out", None)
         if outputs:
-            kwargs["out"] = tuple(
-                i._ndarray if isinstance(i, type(self)) else i for i in outputs
-            )
             with ExitStack() as stack:
                 for output in outputs:
                     if isinstance(output, type(self)):
                         stack.enter_context(output.__writing__())
+                # getting ready for writing might have replaced the arrays
+                kwargs["out"] = tuple(
+                    i._ndarray if isinstance(i, type(self)) else i for i in outputs
+                )
                 results = self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
                 if results is NotImplemented:
                     return NotImplemented  # pragma: no cover
-- 
2.43.0


From d38c068609270dabdb86232cff7029e7ea18e0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 54/63] fix: take metadata given as arrays or series as it is

---
 openscm/scmdataframe/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 2ab407a..907af29 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -276,11 +276,15 @@ def _from_ts(
 
     num_ts = len(df.columns)
     for c_name, col in columns.items():
+        # arrays multiply their values and series are aligned by their index
         col_list = (
-            [col] if isinstance(col, str) or not isinstance(col, Iterable) else col
+            [col]
+            if isinstance(col, str) or not isinstance(col, Iterable)
+            else list(col)
         )
 
         if len(col_list) == num_ts:
+            columns[c_name] = col_list
             continue
         if len(col_list) != 1:
             error_msg = (
-- 
2.43.0


From e5525e107f6b4839b68450928dbbec4c33bd5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:18 +0000
Subject: [PATCH 55/63] fix: take unsigned integers as years

---
 openscm/core/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 8f1da40..8fffe61 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -152,7 +152,8 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
     if issubclass(dtype, np.floating):
         return _ufunc_float_year_to_datetime(dts).astype("datetime64[s]")
     if issubclass(dtype, np.integer):
-        return (np.asarray(dts) - 1970).astype("datetime64[Y]").astype("datetime64[s]")
+        years = np.asarray(dts).astype(np.int64)  # unsigned integers would wrap around
+        return (years - 1970).astype("datetime64[Y]").astype("datetime64[s]")
     if issubclass(dtype, str):
         return _parse_datetime(dts).astype("datetime64[s]")
     return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From 519bae9a9743dd5716a43ced898f56478abaf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:23 +0000
Subject: [PATCH 56/63] fix: take the last parentheses of scalar metadata as
 the unit

---
 openscm/scmdataframe/base.py | 37 ++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 907af29..7530c21 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -6,7 +6,6 @@ from __future__ import annotations
 import copy
 import datetime
 import os
-import re
 import warnings
 from logging import getLogger
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
@@ -241,6 +240,34 @@ def _format_wide_data(df):
     return df, meta
 
 
+def _split_name_and_unit(key: str) -> Optional[Tuple[str, str]]:
+    """
+    Split metadata name of the form ``"name (unit)"`` into name and unit.
+
+    The unit is given by the last pair of (outermost) parentheses, i.e. both name and
+    unit may contain parentheses themselves.
+
+    Parameters
+    ----------
+    key
+        Name of metadata
+
+    Returns
+    -------
+    Optional[Tuple[str, str]]
+        Name and unit or ``None`` if :obj:`key` does not end with a unit
+    """
+    key = key.rstrip()
+    if not key.endswith(")"):
+        return None
+    depth = 0
+    for i in range(len(key) - 1, -1, -1):
+        depth += {")": 1, "(": -1}.get(key[i], 0)
+        if depth == 0:
+            return key[:i].strip(), key[i + 1 : -1].strip()
+    return None
+
+
 def _from_ts(
     df: Any, index: Any = None, **columns: Union[str, bool, float, int, List]
 ) -> Tuple[pd.DataFrame, pd.DataFrame]:
@@ -561,12 +588,10 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
                 timeseries_type=timeseries_type,
             ).values = vals.values
 
-        unit_regexp = re.compile(r".*\(.*\)")
         for k, v in meta_values.iteritems():
-            if unit_regexp.match(k):
-                para_name = k.split("(")[0].strip()
-                para_unit = k.split("(")[1].split(")")[0].strip()
-                parameterset.scalar(para_name, para_unit).value = v
+            name_and_unit = _split_name_and_unit(k)
+            if name_and_unit is not None:
+                parameterset.scalar(*name_and_unit).value = v
             else:
                 parameterset.generic(k).value = v
 
-- 
2.43.0


From 8fe0c1bdf30767833884d73ac884c934f5d9e5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:53 +0000
Subject: [PATCH 57/63] fix: read each of several kinds of time points by its
 own type

---
 openscm/core/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 8fffe61..35b5330 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -146,6 +146,9 @@ def _format_datetime(dts: np.ndarray) -> np.ndarray:
 
     dtype = dts.dtype.type
     if dts.dtype.kind == "O":
+        if len({type(i) for i in dts}) > 1:
+            # e.g. integer and float years, or years and datetimes
+            return np.concatenate([_format_datetime(np.array([i])) for i in dts])
         dtype = np.dtype(type(dts[0])).type
     if issubclass(dtype, np.datetime64):
         return np.asarray(dts, dtype="datetime64[s]")
-- 
2.43.0


From 95a0b37a82fa2aba78a971b0290bb4d523daa2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:26 +0000
Subject: [PATCH 58/63] fix: do not fill up text times of the pyam frame with
 today's date

---
 openscm/scmdataframe/pyam_compat.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/pyam_compat.py b/openscm/scmdataframe/pyam_compat.py
index 3c17c66..cc102b0 100644
--- a/openscm/scmdataframe/pyam_compat.py
+++ b/openscm/scmdataframe/pyam_compat.py
@@ -28,7 +28,10 @@ try:
 
                 def convert_str_to_datetime(inp):
                     try:
-                        return parser.parse(inp)
+                        # do not fill up missing parts with today's date
+                        return parser.parse(
+                            inp, default=datetime.datetime(1, 1, 1)
+                        )
                     except ValueError:
                         return inp
 
-- 
2.43.0


From c8cc2dbee99f47920902ff8fba1f89a64a4292dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:03 +0000
Subject: [PATCH 59/63] fix: accept single values as reference period filters

---
 openscm/scmdataframe/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 7530c21..bb3f5e5 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1381,8 +1381,13 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         res.reset_index(inplace=True)
 
         if append_str is None:
+            # filters can be single values and unordered as well as lists
+            ranges = {
+                k: list(v) if pd.api.types.is_list_like(v) else [v]
+                for k, v in kwargs.items()
+            }
             append_str = ";".join(
-                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in kwargs.items()]
+                ["{}: {} - {}".format(k, v[0], v[-1]) for k, v in ranges.items()]
             )
             append_str = "(ref. period {})".format(append_str)
 
-- 
2.43.0


From 67984e0f25e0570bc73b3263865b9ca451611609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:00 +0000
Subject: [PATCH 60/63] fix: provide a unit for SO2F2, one of the standard
 gases

---
 openscm/core/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index bd823e3..eadea99 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -238,6 +238,7 @@ _standard_gases = {
     "CH3Br": "CH3Br",
     "SF5CF3": "SF5CF3",
     "SF6": "SF6",
+    "SO2F2": "SO2F2",
     "NF3": "NF3",
 }
 
-- 
2.43.0


From 1ed8c5fd9d2c6c2ad9277223e5f05ca23abd4d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:00 +0000
Subject: [PATCH 61/63] fix: convert points of timeseries to a single time

---
 openscm/core/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index 35b5330..5a32cb0 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -456,7 +456,7 @@ class TimeseriesConverter:
         self._interpolation_type = interpolation_type
         self._extrapolation_type = extrapolation_type
 
-        if self._source[0] > self._target[1]:  # TODO: consider extrapolation type
+        if self._source[0] > self._target[:2][-1]:  # TODO: consider extrapolation type
             raise InsufficientDataError
 
     def _calc_continuous_representation(
-- 
2.43.0


From 864b419910cb88646d958557a424e5218fd9430a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:00 +0000
Subject: [PATCH 62/63] fix: take integers and floats to interpolate to as
 years

---
 openscm/scmdataframe/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index bb3f5e5..2236305 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1032,7 +1032,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         """
         # pylint: disable=protected-access
 
-        target_times = np.asarray(target_times, dtype="datetime64[s]")
+        target_times = TimePoints(target_times).values
 
         # Need to keep an object index or pandas will not be able to handle a wide
         # time range
-- 
2.43.0


From cb165ccde5ae6ea3c3dccc7f7c997fbad7c59f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:53 +0000
Subject: [PATCH 63/63] fix: publish what ufunc.at writes to a timeseries

np.add.at(view.values, ...) changed the buffer of this view only, i.e. its values
were never written to the parameter.
---
 openscm/core/views.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 4aa7068..aebd586 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -57,6 +57,11 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
                 for result, output in zip(results, outputs)
             )
             return results[0] if len(results) == 1 else results
+        if method == "at" and isinstance(inputs[0], type(self)):
+            # writes to its first argument
+            with inputs[0].__writing__():
+                args[0] = inputs[0]._ndarray
+                return self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
         return self._ndarray.__array_ufunc__(ufunc, method, *args, **kwargs)
 
     @property
-- 
2.43.0

