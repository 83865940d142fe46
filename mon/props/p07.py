import numpy as np

from mon import gen
from mon.core import Family
from mon.pset import ParameterSet, ParameterType, errors, name_arg

RULE = (
    "a case is a random history of requests, writes, reads and infos over two ParameterSets, nested regions and nested names "
    "drawn from a tiny alphabet (so that equal leaf names, region names equal to parameter names etc. occur), compared with a "
    "dict keyed by (set, region path, name path) holding uniquely numbered values; non-trivial: at least three identities that "
    "share a leaf name or region name hold different values at once"
)
COVER = [
    "same name in other set", "same name in sub-region", "same leaf name under other parent", "string and tuple spelling", "info of unknown",
    "info of unknown region", "foreign root region", "empty parameter name", "empty region name", "generic identity", "root region other than World",
    "info of intermediate", "default region", "sub-region of sub-region", "region named like a parameter", "unknown name raises nothing",
    "view reports its identity", "names differing little", "info of a similar name", "info of a similar region", "same object again", "same value again",
]
ASSUMPTIONS = []
AX = gen.as_dt64([gen.year_start(2000 + i) for i in range(5)])
KINDS = {"scalar": ParameterType.SCALAR, "point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES, "generic": ParameterType.GENERIC}


def history(rng, o):
    roots = [rng.choice(["World", "World", "Earth"]) for _ in range(2)]
    sets = [ParameterSet() if r == "World" else ParameterSet(r) for r in roots]
    if "Earth" in roots:
        o.cover("root region other than World")
    alphabet = rng.choice([["A", "B", "World"], ["A", "B", "World"], ["A", "A ", "a"], ["World", "world", " World"], ["x", "xx", "x x"], ["1", "01", "1.0"], ["A.B", "A", "B"], ["A/B", "A,B", "A"], ["\u00c5", "A", "A\u030a"], ["None", "null", "nan"]])
    if alphabet[0] not in ("World", "None") and "World" not in alphabet:
        o.cover("names differing little")
    data = {}  # (set, region, name) -> [kind, view(s), value or None, version]
    count = [0]

    def fresh():
        count[0] += 1
        return count[0]

    def random_region(s):
        return (roots[s],) + tuple(rng.choice(alphabet) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))

    def random_name():
        return tuple(rng.choice(alphabet) for _ in range(rng.choice([1, 1, 2, 2, 3])))

    def kwargs(s, region):
        if region == ("World",) and rng.random() < 0.5:
            o.cover("default region")
            return {}
        return {"region": name_arg(rng, region)}

    def conflict(key):
        """would the hierarchy rules refuse this request (ancestors or descendants viewed)?"""
        s, r, n = key
        for s2, r2, n2 in data:
            if s2 == s and r2 == r and n2 != n and (n2[: len(n)] == n or n[: len(n2)] == n2):
                return True
        return False

    def request(key, kind):
        s, r, n = key
        kw = kwargs(s, r)
        nm = name_arg(rng, n)
        p = sets[s]
        label = "{}({!r}, {}) in set {}".format(kind, nm, kw, s)
        if kind == "scalar":
            return o.returns(label, p.scalar, nm, "kg", **kw)
        if kind == "generic":
            return o.returns(label, p.generic, nm, **kw)
        return o.returns(label, p.timeseries, nm, "kg", AX, timeseries_type=kind, **kw)

    def write(key):
        kind, views, _, version = data[key]
        v = rng.choice(views)
        if kind == "scalar":
            x = float(fresh())
            if data[key][2] is not None and rng.random() < 0.2:
                x = data[key][2][0]
                o.cover("same value again")
            v.value = x
        elif kind == "generic":
            x = rng.choice([[fresh()], {"n": fresh()}, object(), "text{}".format(fresh()), None, np.arange(3), lambda: 1, True, float("nan")])
            old = data[key][2]
            if old is not None and rng.random() < 0.2:
                x = old[0]
                if isinstance(x, list):
                    x.append(fresh())
                o.cover("same object again")
            v.value = x
        else:
            n = 5 if kind == "point" else 4
            x = np.array([float(fresh()) for _ in range(n)])
            if data[key][2] is not None and rng.random() < 0.2:
                x = data[key][2][0]
                o.cover("same value again")
            v.values = x.copy()
        o.event("write", "{} = {!r}".format(key, x) if kind in ("scalar", "point", "average") else "{} generic {}".format(key, type(x).__name__))
        data[key][2] = (x,)
        data[key][3] = version + 1

    def observe(lazy=True):
        p_skip = rng.choice([0, 0.5, 0.9]) if lazy else 0
        for key, (kind, views, value, version) in data.items():
            s, r, n = key
            for v in views:
                if rng.random() < p_skip:
                    continue
                if value is None:
                    o.raises(errors.ParameterEmptyError, "read empty {}".format(key), lambda: v.values if kind in ("point", "average") else v.value)
                elif kind == "generic":
                    o.check(v.value is value[0], "generic parameter does not return the very value written", key=key)
                    o.cover("generic identity")
                elif kind == "scalar":
                    o.eq(v.value, value[0], "scalar value", key=key)
                else:
                    o.close([float(x) for x in v.values], value[0], "timeseries values", key=key, rtol=1e-12)
                o.eq((tuple(v.name), tuple(v.region), v.parameter_type, v.empty), (n, r, KINDS[kind], value is None), "view reports another identity")
                o.eq(v.version, version, "version", key=key)
                o.cover("view reports its identity")
            i = o.returns("info", sets[s].info, name_arg(rng, n), region=name_arg(rng, r))
            o.check(i is not None, "info of a requested parameter is None", key=key)
            unit = None if kind == "generic" else "kg"
            o.eq(
                (tuple(i.name), tuple(i.region), i.parameter_type, i.unit, i.empty, i.version),
                (n, r, KINDS[kind], unit, value is None, version),
                "info differs",
            )
        o.state(len(data), tuple(sorted((k[1:], v[2] is None) for k, v in data.items()))[:6])

    def exists(s, r, n):
        """has something at or below (s, r, n) been requested?"""
        return any(a == s and b == r and c[: len(n)] == n for a, b, c in data)

    def unknown():
        for _ in range(20):
            s = rng.randrange(2)
            r, n = random_region(s), random_name()
            if not exists(s, r, n):
                break
        else:
            return
        for k in range(2):
            o.check(sets[s].info(name_arg(rng, n), region=name_arg(rng, r)) is None, "info of something never requested", set=s, region=r, name=n)
        o.cover("info of unknown" if any(a == s and b == r for a, b, c in data) else "info of unknown region")
        foreign = rng.choice([x for x in ["Earth", "World", "Mars"] if x != roots[s]])
        o.check(sets[s].info(name_arg(rng, n), region=foreign) is None, "info in a foreign root region")
        o.cover("unknown name raises nothing")

    def similar():
        s, r, n = rng.choice(list(data))
        i = rng.randrange(len(n))
        alter = rng.choice([str.lower, str.upper, str.strip, lambda x: x + " ", lambda x: " " + x, lambda x: x[:-1], lambda x: x + x, lambda x: x + "*", lambda x: "*", lambda x: x.replace(" ", "_")])
        if rng.random() < 0.5:
            n = n[:i] + (alter(n[i]),) + n[i + 1 :]
            what = "info of a similar name"
        elif len(r) > 1:
            i = rng.randrange(1, len(r))
            r = r[:i] + (alter(r[i]),) + r[i + 1 :]
            what = "info of a similar region"
        else:
            return
        if exists(s, r, n) or any("|" in x for x in r + n):
            return
        o.check(sets[s].info(list(n), region=list(r)) is None, what, region=r, name=n)
        o.cover(what)

    def rejected():
        s = rng.randrange(2)
        p = sets[s]
        k = rng.randrange(4)
        r, n = random_region(s), random_name()
        if k == 0:
            foreign = (rng.choice([x for x in ["Earth", "World", "Mars", "A"] if x != roots[s]]),) + r[1:]
            reg = name_arg(rng, foreign)
            o.raises(ValueError, "scalar in {}".format(reg), p.scalar, n, "kg", region=reg)
            o.raises(ValueError, "timeseries in {}".format(reg), p.timeseries, n, "kg", AX, region=reg)
            o.raises(ValueError, "generic in {}".format(reg), p.generic, n, region=reg)
            o.cover("foreign root region")
        elif k == 1:
            e = rng.choice(["", (), []])
            o.raises(ValueError, "scalar {!r}".format(e), p.scalar, e, "kg")if roots[s] == "World" else None
            o.raises(ValueError, "generic {!r}".format(e), p.generic, e, region=roots[s])
            o.raises(ValueError, "timeseries {!r}".format(e), p.timeseries, e, "kg", AX, region=roots[s])
            o.raises(ValueError, "info {!r}".format(e), p.info, e, region=roots[s])
            o.cover("empty parameter name")
        else:
            e = rng.choice([(), []])
            o.raises(ValueError, "scalar in {!r}".format(e), p.scalar, n, "kg", region=e)
            o.raises(ValueError, "generic in {!r}".format(e), p.generic, n, region=e)
            o.raises(ValueError, "timeseries in {!r}".format(e), p.timeseries, n, "kg", AX, region=e)
            o.raises(ValueError, "info in {!r}".format(e), p.info, n, region=e)
            o.cover("empty region name")

    for _ in range(gen.many(rng, rng.randint(10, 26))):
        k = rng.random()
        if k < 0.45:
            s = rng.randrange(2)
            if data and rng.random() < 0.5:
                s0, r0, n0 = rng.choice(list(data))
                m = rng.randrange(5)
                if m == 0:
                    key = (1 - s0, (roots[1 - s0],) + r0[1:], n0)
                elif m == 1:
                    key = (s0, r0 + (rng.choice(alphabet),), n0)
                elif m == 2:
                    key = (s0, r0[:-1] or r0, n0)
                elif m == 3:
                    key = (s0, r0, (rng.choice(alphabet),) + n0[-1:])
                else:
                    key = (s0, r0, n0)
            else:
                key = (s, random_region(s), random_name())
            if conflict(key):
                continue
            kind = data[key][0] if key in data else rng.choice(list(KINDS))
            v = request(key, kind)
            if key in data:
                data[key][1].append(v)
                o.cover("string and tuple spelling")
            else:
                data[key] = [kind, [v], None, 0]
                for a, b, c in data:
                    if (a, b, c) != key:
                        if a != key[0] and b[1:] == key[1][1:] and c == key[2]:
                            o.cover("same name in other set")
                        if a == key[0] and c == key[2] and b != key[1] and b == key[1][: len(b)]:
                            o.cover("same name in sub-region")
                        if a == key[0] and b == key[1] and c[-1] == key[2][-1]:
                            o.cover("same leaf name under other parent")
                if len(key[1]) > 2:
                    o.cover("sub-region of sub-region")
                if key[1][-1] in key[2]:
                    o.cover("region named like a parameter")
                if len(key[2]) > 1:
                    i = sets[key[0]].info(key[2][:-1], region=key[1])
                    o.check(i is not None and tuple(i.name) == key[2][:-1], "info of an intermediate parameter")
                    o.check(i.parameter_type is None and i.empty and i.unit is None, "intermediate parameter reports data")
                    o.cover("info of intermediate")
        elif k < 0.75 and data:
            write(rng.choice(list(data)))
        elif k < 0.9:
            unknown()
            if data:
                similar()
        else:
            rejected()
        if rng.random() < 0.5:
            observe()
    observe(False)
    held = [k for k, v in data.items() if v[2] is not None]
    if sum(any(a != b and (a[2][-1] == b[2][-1] or a[1] != b[1]) for b in held) for a in held) >= 3:
        o.nontrivial()


FAMILIES = [Family("history", history, 2700, 15000)]
FAMILIES += [
    Family("long history", gen.large(history), 67, 500),
]
