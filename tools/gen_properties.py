#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are
easy to review and edit).  Run: python3 tools/gen_properties.py"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(text.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": {
                "files": list(files),
                "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


VIEWS = "openscm/core/views.py"
PARAMS = "openscm/core/parameters.py"
PSET = "openscm/core/parameterset.py"
REGIONS = "openscm/core/regions.py"
TIME = "openscm/core/time.py"
UNITS = "openscm/core/units.py"
CORE = "openscm/core/__init__.py"
ADAPT = "openscm/adapters/__init__.py"
DICE = "openscm/adapters/dice.py"
SDF = "openscm/scmdataframe/__init__.py"
BASE = "openscm/scmdataframe/base.py"
FILT = "openscm/scmdataframe/filters.py"
OFFS = "openscm/scmdataframe/offsets.py"
PTYPE = "openscm/scmdataframe/parameter_type.py"
PYAM = "openscm/scmdataframe/pyam_compat.py"
SCEN = "openscm/scenarios/__init__.py"
CSV = "openscm/data/metric_conversions.csv"

# ------------------------------------------------------------------ parameters
prop(
    "P01",
    "Scalar parameters read back the last write, whatever unit each view uses",
    """Every scalar view of a parameter, whenever it was created and in whichever compatible unit
    (offset units such as degC/degF/K included), reads exactly the value most recently written through
    any view of that parameter, converted into its own unit.
    Before the first write reading raises ParameterEmptyError, `empty` is true and `ensure()` raises;
    after it `empty` is false and the parameter's `version` has grown with every successful write.""",
    ["histories", "inputs"],
    "every interleaving of creating views (any convertible units, str or tuple names) and writing/reading through any of them",
    "tests write once or twice in fixed units; staleness or a unit slip shows only for particular histories of several views and unit pairs",
    [VIEWS, PARAMS, PSET, UNITS],
    [("ScalarView.value getter/setter", VIEWS), ("UnitConverter", UNITS), ("_Parameter.version / has_been_written_to", PARAMS)],
    [("_Parameter.data", "value in the parameter's own unit (that of the first view)", PARAMS)],
    ["ParameterSet.scalar", "ScalarView.value", "ParameterInfo.empty/version/ensure"],
)
prop(
    "P02",
    "Timeseries views never serve stale values and never lose a write",
    """After any history of full, element, slice and in-place array writes through any number of views and
    retained `.values` handles of one timeseries parameter, every view and every retained handle (indexing,
    iteration, arithmetic, comparison, numpy conversion) shows the latest data converted into its own unit and
    time axis; a write through one view or handle changes only the elements it addresses.
    Input arrays are copied, so neither later changes to the caller's arrays nor the integer type of the data
    first written alter or truncate stored values.""",
    ["histories", "inputs"],
    "every interleaving of view creation, whole/element/slice/ufunc writes and reads over several views with different units, time axes, types and dtypes",
    "the buffer/version cache of a view can only go wrong for histories with several views; tests exercise one view at a time with a few writes",
    [VIEWS, PARAMS, PSET, TIME],
    [("TimeseriesView._read/_write (version-checked cache)", VIEWS), ("_Timeseries wrapper (__setitem__, __array_ufunc__, __getitem__)", VIEWS)],
    [("TimeseriesView._data/_version", "cached converted values and the parameter version they belong to", VIEWS)],
    ["TimeseriesView.values", "_Timeseries operations"],
)
prop(
    "P03",
    "A parent parameter is always the up-to-date sum of its leaf children",
    """Reading a parameter that has children, as scalar or timeseries and in any compatible unit or time axis,
    gives the sum over all leaf parameters below it of their current values in that unit and time axis, at every
    moment, including right after a leaf was rewritten and whatever was read before.
    While any leaf is still empty the read raises ParameterEmptyError.""",
    ["histories", "inputs"],
    "every tree shape (depth, fan-out, mixed units and time axes of the leaves) and every order of leaf writes and parent reads",
    "tests read one two-level aggregate once; stale or partial sums need re-reads after rewrites, deep trees and mixed units",
    [VIEWS, PARAMS, PSET],
    [("get_data_views_for_children_or_parameter (leaf collection)", VIEWS), ("ScalarView.value / TimeseriesView._get_values aggregation", VIEWS)],
    [("_child_data_views", "views of the leaves an aggregated view sums", VIEWS)],
    ["ScalarView.value", "TimeseriesView.values"],
)
prop(
    "P04",
    "Parameter hierarchy discipline: fixed types, read-only parents, frozen tree",
    """Once viewed, a parameter's type never changes: a request as any other type raises ParameterTypeError, also when
    the mismatch is between a parent's requested type and that of its leaves, and a generic view of a parent raises ParameterAggregationError.
    Parents are never writable: every write path (assignment, element, slice, in-place) through a parent's view raises ParameterReadonlyError and changes nothing.
    A new child below a parameter that has been written raises ParameterWrittenError, and one below a parameter that has been read (itself or any ancestor) raises ParameterReadError, so no existing aggregate silently misses a leaf.""",
    ["histories"],
    "every order of view requests, writes and child requests over trees of parameters of all four types",
    "tests check single hand-picked conflicts; the discipline must hold for every order of requests and at every depth",
    [PARAMS, PSET, VIEWS],
    [("_Parameter.attempt_read/attempt_write", PARAMS), ("_Parameter.get_or_create_child_parameter", PARAMS)],
    [("has_been_read_from / has_been_written_to / parameter_type", "life-cycle flags of a parameter", PARAMS)],
    ["ParameterSet.scalar/timeseries/generic", "view writes"],
)
prop(
    "P05",
    "Rejected writes and view requests leave every parameter as it was",
    """A write that raises (wrong length, value that is not numeric, time axis that cannot be mapped back onto the stored one)
    changes nothing observable: an empty parameter stays empty, and every view, including the one that raised, still reads the
    previous data with an unchanged `version`.
    A view request refused because of its unit, its time points or its type (undefined unit, incompatible unit, too few time
    points, a type other than that of the parameter or of its leaves, a generic view of a parent) prevents later valid requests
    neither for the same name nor for new names below it, and does not change what existing views read.""",
    ["histories", "fault_sequences"],
    "every history of valid operations with failing writes and refused requests injected at any position",
    "tests check that the error is raised, not what the next read shows; the damage appears one operation later",
    [VIEWS, PARAMS, PSET],
    [("TimeseriesView.values setter / _write", VIEWS), ("ScalarView.value setter", VIEWS), ("ParameterSet view creation", PSET)],
    [],
    ["views after a raised exception", "ParameterInfo.empty/version"],
)
prop(
    "P06",
    "Locked timeseries views publish exactly once, at unlock",
    """While a timeseries view is locked, writes through it are visible through that view but no other view or aggregate changes;
    unlock publishes the complete accumulated state at once, with one version increment, and unlocked writes publish immediately again.
    Locking and unlocking without writing in between publishes nothing and changes nothing.""",
    ["histories"],
    "every nesting of lock, whole/element/slice writes, reads and unlock on one view, with other views and parents observing",
    "no unit test covers lock/unlock beyond DICE's own use",
    [VIEWS, DICE],
    [("TimeseriesView.lock/unlock/_write", VIEWS)],
    [("TimeseriesView._locked", "defers publication of the buffer", VIEWS)],
    ["TimeseriesView.lock/unlock/values", "other views of the parameter"],
)
prop(
    "P07",
    "Names, regions and sets isolate parameters from each other",
    """A parameter is identified by (set, region path, name path), where 'A|B' and ('A','B') are the same path: views of the same
    identity share data and `info` reports its name, region, type, unit and emptiness, while writes to one identity are never visible through any other
    (other regions, sub/super-regions, equal leaf names elsewhere, other ParameterSets), and `info` of something never requested is None and creates nothing.
    Names outside the set's root region and empty names are rejected with ValueError; generic parameters return the very value last written.""",
    ["histories", "inputs"],
    "every collection of names/regions (overlapping prefixes, str/tuple spellings, custom root names) and every order of access",
    "tests use a handful of names; crosstalk or lost identity shows only with overlapping hierarchies and several sets",
    [PSET, PARAMS, REGIONS, VIEWS],
    [("_get_or_create_region/_get_or_create_parameter", PSET), ("_Region.get_or_create_subregion/get_subregion/get_parameter", REGIONS), ("_Parameter.get_subparameter/full_name", PARAMS)],
    [],
    ["ParameterSet.info/scalar/timeseries/generic"],
)

# ------------------------------------------------------------------------ time
prop(
    "T01",
    "Point timeseries conversion is exact linear interpolation",
    """Converting a point timeseries (3 or more points) to other time points gives, at each target time (or the only one), the linear interpolation between its two
    neighbouring source points; beyond the source range it holds the nearest end value with constant extrapolation and continues the
    end segment with linear extrapolation.
    The result does not depend on the datetime64 resolution of either axis, converting onto an axis that contains all source points and back returns the original values, and `convert_to` equals `convert_from` with the axes exchanged.""",
    ["inputs"],
    "all strictly increasing source and target axes (irregular, any resolution, years 1-9999), all finite values, all extrapolation modes",
    "tests use a few fixed axes; a slip in axis handling or extrapolation appears only for particular axis combinations",
    [TIME],
    [("TimeseriesConverter._convert_unsafe/_calc_continuous_representation", TIME)],
    [],
    ["TimeseriesConverter.convert_from/convert_to", "TimeseriesView.values", "ScmDataFrame.interpolate"],
)
prop(
    "T02",
    "Average timeseries conversion conserves the integral",
    """Converting an average timeseries (3 or more periods) is conservative: the integral (sum of average times period length) over any whole source period, and hence
    over any span of source periods covered by the target axis, is the same before and after, however finely, coarsely or irregularly the target axis divides it.
    Each target value is the mean, over its period, of the piecewise linear function that takes the mean of adjacent averages at interior period edges and preserves every period's average (end values held or end segments continued outside the source range); constant series stay constant, the conversion is linear in the values, and converting onto the source axis itself is the identity.""",
    ["inputs"],
    "all strictly increasing source/target axes, any values, any extrapolation mode",
    "tests compare a few axes loosely; conservation must hold for every irregular axis pair, long periods over many short ones included",
    [TIME],
    [("_calc_integral_preserving_linear_interpolation", TIME), ("_calc_interval_averages", TIME)],
    [],
    ["TimeseriesConverter.convert_from/convert_to", "TimeseriesView.values"],
)
prop(
    "T03",
    "Conversions without enough data raise, never invent values",
    """Without extrapolation a conversion whose target time points reach outside the source range raises InsufficientDataError, and one inside the range
    (both ends included) succeeds with finite values; with constant or linear extrapolation it does not raise for that reason as long as the second (or only) target time point is not before the first source time point (targets lying further ahead of the data are always refused).
    Series with fewer than three values always raise InsufficientDataError, also through views. Extrapolation is only ever what was asked for: its name is understood however it is capitalised, and an unknown name of an extrapolation, interpolation or timeseries type is refused, never replaced by another one. The lengths reported for source and target
    are the number of values (points, or periods = points - 1).""",
    ["inputs"],
    "all source/target axes including exact coincidence, one-second overhang at either side, and short series, for both types and all extrapolation modes",
    "tests probe one overhang; boundary behaviour has to hold exactly at every edge for both timeseries types",
    [TIME, VIEWS],
    [("TimeseriesConverter._convert error handling", TIME), ("_get_scipy_extrapolation_args", TIME)],
    [],
    ["TimeseriesConverter", "TimeseriesView.values"],
)
prop(
    "T04",
    "Every accepted time format denotes the same instants",
    """TimePoints and the time axis of a ScmDataFrame map integer and year-string input to the start of that year, float years to that fraction of the (leap or
    normal) year, datetimes, datetime64 of any resolution and date strings to the very same instant at second resolution, for all years 1-9998; years, months, days, hours
    and weekdays agree with the proleptic Gregorian calendar, and index and values stay element-wise aligned.
    `create_time_points` gives start + i * period for i = 0..n-1 (n+1 points for averages), exactly.""",
    ["inputs"],
    "all instants at second resolution in years 1-9998 in each representation; all starts, periods and lengths",
    "tests list some dates; leap years, far past/future and the float/int/str/datetime branches multiply",
    [TIME, BASE],
    [("_format_datetime / _float_year_to_datetime / _parse_datetime", TIME), ("TimePoints", TIME), ("create_time_points", TIME)],
    [],
    ["TimePoints", "ScmDataFrame['time']", "ScmDataFrame['year']", "create_time_points"],
)
prop(
    "T05",
    "Generated date ranges are regular, gap-free and cover the whole span",
    """For every yearly, quarterly, monthly, semi-monthly, weekly, daily, hourly or finer offset rule, anchored or not and with any multiple, and any start <= end (years far outside pandas' Timestamp range included),
    generate_range yields strictly increasing datetimes that all lie on the offset, each the next offset step after the one before, starting at the last on-offset time not after start and ending with the first not before end.
    Business-related rules are rejected with ValueError.""",
    ["inputs"],
    "all supported rules and multiples of (yearly/quarterly/monthly start and end, day, hour), all starts and ends including exactly on-offset ones",
    "tests cover three rules in one range each; roll-back/forward goes wrong at particular month ends, leap days and on-offset bounds",
    [OFFS],
    [("generate_range", OFFS), ("apply_rollback/apply_rollforward/apply_dt", OFFS), ("to_offset", OFFS)],
    [],
    ["to_offset", "generate_range", "ScmDataFrame.resample"],
)
prop(
    "T06",
    "The guessed parameter type follows the unit's time dimension",
    """If the unit is known, the guessed type is 'average' exactly when the unit's dimensionality involves time (in any spelling, prefix, power or compound) and 'point' otherwise, independent of the variable name;
    if the unit is missing or unknown the documented variable-name patterns decide, and anything unrecognised is 'point'.""",
    ["inputs"],
    "all units composable from the registry and all variable names",
    "tests use a fixed list of names and units",
    [PTYPE, UNITS],
    [("guess_parameter_type", PTYPE), ("parameter_matches", PTYPE)],
    [],
    ["guess_parameter_type", "ScmDataFrame.interpolate metadata"],
)

# ----------------------------------------------------------------------- units
prop(
    "U01",
    "Unit conversions are consistent affine maps",
    """For all convertible units a, b, c: converting a->b->c equals a->c, convert_to inverts convert_from, a->a is the identity, conversions act element-wise on arrays as on floats,
    and they agree with the physical definitions (SI prefixes, kt as kilotonne, years of 365.25 days, degC/degF/K offsets, ppm/ppb/ppt, W/m^2).
    Inconvertible units raise DimensionalityError and unknown ones UndefinedUnitError.""",
    ["inputs"],
    "all pairs and triples of compatible units built from prefixes, mass/time/temperature/power/concentration units and gases; all values",
    "tests check single pairs; consistency over the whole unit algebra needs independent definitions and all compositions",
    [UNITS],
    [("UnitConverter.__init__ two-point affine fit", UNITS), ("ScmUnitRegistry.add_standards", UNITS)],
    [],
    ["UnitConverter.convert_from/convert_to"],
)
prop(
    "U02",
    "Emission species: spellings agree and species never mix",
    """Every supported gas is usable as symbol, in upper case, by its aliases, alone and in mass compounds, and as joint mass unit with g or t (and SI prefixes), and all these spellings convert into each other with factor 1 times the prefix ratio;
    the documented equivalences (C/CO2 12/44, N/N2O 14/44, N/N2ON 14/28, N/NH3 14/17, S/SO2 32/64, SOx = SO2, VOC = NMVOC) hold in every compound.
    Outside these families no species converts into another or into a plain mass without a context: such conversions raise DimensionalityError.""",
    ["inputs"],
    "all ordered pairs of supported gas spellings with all prefixes, mass and time compounds",
    "tests sample a few gases; one wrong table entry among ~100 goes unnoticed",
    [UNITS],
    [("_standard_gases / _add_gases / _add_mass_emissions_joint_version", UNITS)],
    [],
    ["UnitConverter"],
)
prop(
    "U03",
    "GWP contexts reproduce the published table and never leak",
    """Under a metric context (SARGWP100, AR4GWP100, AR5GWP100) an amount of any listed gas converts to CO2 with exactly the factor of the shipped table, and back with its inverse,
    for bare, per-time, mass and mass-per-time units alike and to C with that factor times 12/44; gases without a value in that metric warn and yield nan.
    A context affects only the conversion it is given to: before and after, also after failures and in any order of contexts, the same conversion without context raises DimensionalityError and other contexts give their own factors.""",
    ["inputs", "histories"],
    "all (gas, context, compound) combinations, interleaved with context-free and failing conversions in any order",
    "tests check a few gases per context and no interleaving of contexts and failures",
    [UNITS, CSV],
    [("_load_metric_conversions transformations", UNITS), ("UnitConverter context handling", UNITS), ("enable_contexts lazy loading", UNITS)],
    [("_contexts_loaded", "contexts are loaded lazily once", UNITS)],
    ["UnitConverter(..., context=...)", "ScmDataFrame.convert_unit"],
)

# ---------------------------------------------------------------- scmdataframe
prop(
    "S01",
    "All construction formats give the same frame and never alias the input",
    """The same timeseries given as wide or long pandas.DataFrame (string, integer or datetime time columns, metadata in columns or index, any row/column order, any letter case of column names),
    as values with a `columns` dict, as another ScmDataFrame, as pyam IamDataFrame or as CSV produce frames with equal metadata, time points (sorted when read from wide or long tables) and values, each value under its own metadata and time.
    The input object is not modified and later changes to input or frame do not affect the other; missing required columns or time information raise ValueError.""",
    ["inputs"],
    "all small tables of metadata, time axes and values in each format and ordering",
    "tests load the same fixed table; misalignment appears with particular orders, formats and extra metadata",
    [BASE, SDF, PYAM],
    [("_format_data/_format_wide_data/_format_long_data", BASE), ("_from_ts", BASE), ("ScmDataFrameBase.__init__", BASE)],
    [],
    ["ScmDataFrame(...)", "timeseries()", "meta"],
)
prop(
    "S02",
    "Metadata filters select exactly the timeseries the pattern describes",
    """Filtering by metadata keeps exactly the timeseries for which, in every given column, some listed value matches: '*' matches any run of characters, every other character only itself, the whole string must match, non-strings match by equality,
    and `regexp=True` applies the given regular expression from the start of the string instead.
    `level=n`, 'n-' and 'n+' compare the number of hierarchy separators left after removing the pattern's literal part; missing values match only '' and '*'.""",
    ["inputs"],
    "all metadata strings (regex-special characters included), all patterns/lists/levels and combinations of columns",
    "tests filter a three-row frame with a few patterns; escaping and level arithmetic depend on characters and depths the tests never use",
    [FILT, BASE],
    [("pattern_match / find_depth", FILT), ("_apply_filters", BASE)],
    [],
    ["ScmDataFrame.filter"],
)
prop(
    "S03",
    "Time filters select exactly the described time points",
    """Filtering by year, month, day, hour or time keeps exactly the time points whose calendar field (or instant) is among those given, where months and weekdays may be names, abbreviations or increasing 'A-B' ranges and lists mix names and ranges in any number and order; several filters combine by conjunction.
    Filter arguments are not modified; decreasing ranges raise ValueError, non-integer years and integer times raise TypeError.""",
    ["inputs"],
    "all time axes (hourly to centennial, years 1-9998) and all filter arguments of the documented kinds",
    "tests use one or two ranges on a small axis",
    [FILT, BASE],
    [("years_match/time_match/hour_match/datetime_match", FILT), ("_apply_filters/_day_match", BASE)],
    [],
    ["ScmDataFrame.filter"],
)
prop(
    "S04",
    "Filtering partitions the data and only ever removes",
    """filter(...) and filter(keep=False, ...) split the non-missing data points of a frame: every (metadata, time, value) is in exactly one of the two results, unchanged, with its own metadata, and time points or timeseries with nothing left are dropped (an empty result is an empty frame).
    Filtering by conjunction equals filtering in sequence in any order, filtering twice equals once, inplace gives the same as the returned copy, and unless inplace the original is untouched.""",
    ["inputs", "histories"],
    "all frames (missing values included) and all combinations of metadata and time filters",
    "tests check single results, not that nothing is lost, duplicated or altered",
    [BASE, FILT],
    [("ScmDataFrameBase.filter", BASE)],
    [],
    ["ScmDataFrame.filter", "timeseries()", "meta", "time_points"],
)
prop(
    "S05",
    "Appending is the loss-free union, averaging only true duplicates",
    """append/df_append return exactly the union of all (metadata, time, value) points of their inputs, in any number and order and with any metadata columns (columns absent from an input become missing for its timeseries), each value still under its own metadata and time; points sharing metadata and time are averaged over the non-missing contributors.
    The duplicate warning is raised exactly when at least two non-missing values share metadata and time; duplicate_msg=False silences it and 'return' gives the unmerged table.
    Inputs are unchanged unless inplace, which gives the same result.""",
    ["inputs", "histories"],
    "all lists of frames with overlapping, disjoint or partially equal metadata columns, time axes and values",
    "tests append pairs built from one fixture; sentinel values, column orders and partial overlaps vary without bound",
    [BASE],
    [("df_append", BASE), ("_handle_potential_duplicates_in_append", BASE)],
    [],
    ["ScmDataFrame.append", "df_append"],
)
prop(
    "S06",
    "Values always stay attached to their own metadata",
    """After any sequence of operations (filter, append, rename, set_meta and item assignment with scalars, lists or indexed series, convert_unit, time reassignment, interpolate, copy, in or out of place) every timeseries still carries exactly the values and metadata the operations' definitions give it: no operation ever re-pairs values with another row's metadata or time.
    Assigning metadata through an index sets it on exactly the matching timeseries (an index with duplicate or unknown entries raises ValueError) and leaves the order, number and other metadata of the timeseries as they were; `meta`, `values`, `timeseries()`, `time_points` and `len` always describe the same rows and columns.""",
    ["histories", "inputs"],
    "all sequences of operations on frames with distinguishable values",
    "tests check one operation at a time on a tiny frame whose row order hides re-pairing",
    [BASE],
    [("set_meta", BASE), ("rename", BASE), ("filter", BASE), ("df_append", BASE), ("__setitem__", BASE)],
    [("_data columns / _meta index", "must stay aligned row by row", BASE)],
    ["timeseries()", "meta", "values", "time_points"],
)
prop(
    "S07",
    "Non-inplace operations are pure and frames are independent",
    """No operation that returns a result (filter, rename, append, convert_unit, interpolate, resample, process_over, relative_to_ref_period_mean, timeseries, to_iamdataframe, to_parameterset, copy, indexing) changes the frame it is called on or its other arguments, results share no mutable state with their source in either direction,
    and each operation's inplace form turns the frame into what the non-inplace form returns.""",
    ["histories", "inputs"],
    "all operations with all their arguments, followed by any mutation of result or source",
    "tests look at results, rarely at the source afterwards",
    [BASE],
    [("copy", BASE), ("filter/rename/convert_unit/append inplace handling", BASE), ("meta property copies", BASE)],
    [],
    ["all ScmDataFrame methods"],
)
prop(
    "S08",
    "convert_unit scales exactly the selected timeseries",
    """convert_unit multiplies (or, for offset units, maps) the values of exactly the timeseries selected by its filters by the conversion from each one's own unit, sets their `unit` and `unit_context`, and leaves all other timeseries, metadata and the time axis untouched; frames mixing several source units are converted row by row.
    Converting there and back restores the values; incompatible units raise and leave an out-of-place source unchanged.""",
    ["inputs", "histories"],
    "all frames with mixed units, all target units and contexts, all filters, repeated partial conversions",
    "tests convert one fixture to one unit",
    [BASE, UNITS],
    [("ScmDataFrameBase.convert_unit", BASE), ("UnitConverter", UNITS)],
    [],
    ["ScmDataFrame.convert_unit"],
)
prop(
    "S09",
    "interpolate and resample convert every timeseries on its own terms",
    """interpolate puts every timeseries of a frame onto the requested time points, each exactly as its own parameter type (given in metadata, otherwise guessed from unit and name) prescribes: linear interpolation for points, integral-conserving conversion for averages, also when both kinds and arbitrary other metadata occur in one frame or its time points are not in order, with the requested extrapolation. Target times are datetimes, datetime64 or years (integers or floats).
    All metadata is preserved apart from the filled-in parameter_type, and resample(rule) equals interpolate onto the rule's date range covering the data.""",
    ["inputs"],
    "all frames mixing point and average series, numeric/string/missing extra metadata, all target axes, rules and extrapolations",
    "tests interpolate frames of one kind with string metadata only",
    [BASE, TIME, OFFS, PTYPE],
    [("ScmDataFrameBase.interpolate", BASE), ("ScmDataFrameBase.resample", BASE), ("TimeseriesConverter", TIME)],
    [],
    ["ScmDataFrame.interpolate/resample"],
)
prop(
    "S10",
    "Group statistics and reference periods are computed per group and series",
    """process_over(cols, op) yields, for each distinct combination of the remaining metadata, the mean, median or q-quantile at each time over exactly the timeseries sharing it, with no group lost and results labelled by that metadata; other operations raise ValueError.
    relative_to_ref_period_mean subtracts from each timeseries its own mean over the reference period selected by the filters, for every time point, changing nothing else but the variable's suffix.""",
    ["inputs"],
    "all frames, column subsets, operations, quantiles and reference periods",
    "tests use one 3-series fixture",
    [BASE],
    [("process_over", BASE), ("relative_to_ref_period_mean", BASE)],
    [],
    ["ScmDataFrame.process_over/relative_to_ref_period_mean"],
)
prop(
    "S11",
    "CSV and pyam round trips preserve the data",
    """Writing a frame with to_csv and reading it back, or converting it to an IamDataFrame and back, gives a frame with the same metadata, the same time points to the second (years 1000-9998) and the same values (up to rounding in the last digits of the CSV text), each under its own metadata, for any number of timeseries, extra (filled) metadata columns and missing values. A LongDatetimeIamDataFrame built from a table (times as datetimes or text) holds the same points, and pivot_table shows the sums or means of exactly the points of each cell.""",
    ["inputs"],
    "all frames with string/numeric metadata, special characters, extreme magnitudes, sub-daily and far-away times, missing values",
    "tests round-trip a single fixture",
    [BASE, PYAM],
    [("to_csv/to_iamdataframe", BASE), ("LongDatetimeIamDataFrame._format_datetime_col", PYAM), ("_read_pandas", BASE)],
    [],
    ["to_csv", "ScmDataFrame(path)", "to_iamdataframe"],
)
prop(
    "S12",
    "ScmDataFrame and ParameterSet convert into each other without loss",
    """Converting a single-scenario frame with complete values (at least three per timeseries) to a ParameterSet makes every timeseries readable under its variable, region, unit and type with the same values, and every other metadata entry readable as generic (or, for 'name (unit)' - the last parentheses, which may contain others, are the unit - scalar) parameter; converting back over the same time points restores the same frame.
    convert_openscm_to_scmdataframe exports every leaf timeseries of every region at any depth, converted to the requested time points; frames with differing metadata, or with a climate_model, are refused with ValueError.""",
    ["inputs"],
    "all frames/ParameterSets with mixed regions (any depth), variables (any depth), types, units and generic/scalar metadata",
    "one round-trip test with a fixed frame and one region level",
    [BASE, SDF, PSET],
    [("to_parameterset", BASE), ("convert_openscm_to_scmdataframe", SDF)],
    [],
    ["to_parameterset", "convert_openscm_to_scmdataframe"],
)
prop(
    "S13",
    "Rejected operations leave a frame unchanged and usable",
    """When an operation on a frame raises (renaming to duplicate metadata or by an unknown column, setting metadata or time of the wrong length, filtering by an unknown column, converting to an incompatible or unknown unit, appending with a bad option, unsupported statistics), the frame's data, metadata and time points are afterwards exactly what they were before and further operations work as if the failed call had not happened.""",
    ["fault_sequences", "histories"],
    "all failing calls inserted at any point in a history of valid operations, inplace variants included",
    "tests stop at pytest.raises and never look at the frame again",
    [BASE],
    [("rename/set_meta/__setitem__/filter/append error paths", BASE)],
    [],
    ["frame state after an exception"],
)
prop(
    "S14",
    "Results do not depend on hash seed, time zone, locale or prior use",
    """The same program on the same data gives identical frames (values, metadata, order of rows and columns), time points, unit conversions and model output whatever PYTHONHASHSEED, TZ, the process's earlier OpenSCM calls, and repetition within the process.
    The packaged RCP scenarios always load complete: the content of all four source files, nothing averaged, lost or duplicated.""",
    ["configurations", "histories"],
    "all settings of hash seed/time zone and call orders, over a fixed battery of operations",
    "the suite runs in a single process configuration; set iteration order and time zones vary between users",
    [BASE, SCEN, UNITS, TIME],
    [("df_append joint_meta_set handling", BASE), ("_sort_meta_cols", BASE), ("rcps", SCEN)],
    [],
    ["digest of all results per process"],
)

# --------------------------------------------------------------------- adapters
prop(
    "M01",
    "run() equals stepping, and both are repeatable",
    """For any configuration, OpenSCM.run() leaves the same outputs as reset_stepping() followed by one step() per remaining time step, each step() returns the start time plus the number of steps times the period, and after k steps the first k+1 outputs equal those of the full run.
    Running again, or resetting after any number of steps and running, reproduces the same outputs, and changed input values take effect on the next run just as in a fresh instance. What is read never depends on uninitialised memory.""",
    ["histories", "inputs"],
    "all parameter settings, period lengths, time ranges and sequences of run/reset/step/input changes",
    "tests run one configuration once each way",
    [CORE, ADAPT, DICE, VIEWS],
    [("OpenSCM.run/reset_stepping/step", CORE), ("Adapter.reset/run/step", ADAPT), ("DICE._reset/_run/_step (locking)", DICE)],
    [],
    ["OpenSCM.run/step/reset_stepping", "output views"],
)
prop(
    "M02",
    "The DICE adapter follows the DICE equations for every configuration",
    """For every setting of its parameters, start/stop time, period length and emissions, the DICE outputs (carbon pools, forcing, atmospheric and ocean temperature) satisfy at every time step the published DICE difference equations including the initial values and the lower/upper limits, and carbon is conserved whenever no limit is active: the total pool grows exactly by the emitted carbon.
    Parameters not supplied by the user take the documented defaults; supplied ones are used, in whatever unit they were given.""",
    ["inputs", "configurations"],
    "all parameter values, emissions profiles, time ranges around the forcing saturation time, both rounding modes",
    "the test compares one default run with stored output",
    [DICE],
    [("DICE._calc_step", DICE), ("DICE._reset", DICE), ("DICE._initialize_model defaults", DICE)],
    [],
    ["OpenSCM.output timeseries"],
)
prop(
    "M03",
    "Model output depends only on what the inputs mean, and inputs stay intact",
    """Supplying the same physical emissions and parameters in other units, time-axis resolutions or as sub-sector children adding up to the same total gives the same model output, and the output read in other units or time axes is the same series converted.
    Running never changes the user's input values, and several OpenSCM instances, interleaved in any way, do not influence each other.""",
    ["inputs", "histories"],
    "all equivalent representations of the inputs; all interleavings of several instances",
    "tests use one representation and one instance",
    [CORE, DICE, VIEWS, UNITS, TIME],
    [("ParameterSet views used by DICE._initialize_run_parameters", DICE), ("OpenSCM.__init__ parameter sets", CORE)],
    [],
    ["OpenSCM.parameters/output views"],
)
prop(
    "M04",
    "Adapter lifecycle and registry",
    """For every adapter and every sequence of run, reset_stepping and step, the model is initialised exactly once and before anything else, each reset initialises inputs, then run parameters, then resets, in that order, a run happens only after such a reset, steps go straight to the model, and shutdown happens exactly once at the end of the adapter's life.
    load_adapter returns the same class for a name every time; unknown names raise KeyError and a missing optional module raises AdapterNeedsModuleError, without affecting later loads.""",
    ["histories", "programs"],
    "all sequences of driver calls on arbitrary adapter implementations, with missing modules and failures injected",
    "tests call each method once on one adapter",
    [ADAPT, CORE],
    [("Adapter.initialize_model_input/initialize_run_parameters/reset/run/step/__del__", ADAPT), ("load_adapter", ADAPT)],
    [("_initialized", "guards one-time initialisation", ADAPT), ("_loaded_adapters", "registry cache", ADAPT)],
    ["hook methods of a recording Adapter subclass", "load_adapter"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
