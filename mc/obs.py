"""Observation of reports through the documented public properties only."""
from datetime import datetime

import model

_WIND = ["code", "cardinal_direction", "variable"] + [
    a + b for a, bs in (("direction_in_", ("degrees", "radians", "gradians")),
                        ("speed_in_", ("knot", "mps", "kph", "miph")),
                        ("gust_in_", ("knot", "mps", "kph", "miph"))) for b in bs]
_DIST = ["in_meters", "in_kilometers", "in_sea_miles", "in_feet"]
_TEMP = ["in_celsius", "in_kelvin", "in_fahrenheit", "in_rankine"]
_DIRS = ["direction_in_degrees", "direction_in_radians", "direction_in_gradians"]
_VIS = ["code", "cardinal_direction"] + _DIST + _DIRS

PROPS = {
    "type": ["code", "type_"],
    "station": ["code", "name", "icao", "iata", "synop", "latitude", "longitude",
                "elevation", "country"],
    "time": ["code", "time", "year", "month", "day", "hour", "minute"],
    "modifier": ["code", "description"],
    "wind": _WIND,
    "wind_variation": ["code", "from_cardinal_direction", "to_cardinal_direction"] + [
        a + b for a in ("from_in_", "to_in_") for b in ("degrees", "radians", "gradians")],
    "prevailing_visibility": _VIS + ["cavok"],
    "minimum_visibility": _VIS,
    "runway_ranges": ["code", "name", "trend", "low_range", "high_range"]
    + ["low_" + d for d in _DIST] + ["high_" + d for d in _DIST],
    "weathers": ["code", "intensity", "description", "precipitation", "obscuration", "other"],
    "clouds": ["code", "cover", "oktas", "cloud_type"] + ["height_" + d for d in _DIST],
    "temperatures": ["code"] + ["temperature_" + t for t in _TEMP]
    + ["dewpoint_" + t for t in _TEMP],
    "pressure": ["code", "in_hPa", "in_inHg", "in_mbar", "in_bar", "in_atm"],
    "recent_weather": ["code", "description", "precipitation", "obscuration", "other"],
    "windshears": ["code", "all_", "name"],
    "sea_state": ["code", "state"] + ["temperature_" + t for t in _TEMP]
    + ["height_in_" + u for u in ("meters", "centimeters", "decimeters", "feet", "inches")],
    "runway_state": ["code", "name", "deposits", "contamination", "deposits_depth",
                     "surface_friction", "snoclo", "clrd"],
    "missing": ["code", "description", "is_missing"],
    "cancelled": ["code", "is_cancelled"],
    "taf_temperature": ["code"] + _TEMP,
}
LISTS = ("runway_ranges", "weathers", "clouds", "windshears")
METAR_SINGLE = ["type_", "station", "time", "modifier", "wind", "wind_variation",
                "prevailing_visibility", "minimum_visibility", "temperatures", "pressure",
                "recent_weather", "sea_state", "runway_state"]
METAR_LISTS = ["runway_ranges", "weathers", "clouds", "windshears"]


def props(name, obj):
    return {p: getattr(obj, p) for p in PROPS[name]}


def plist(name, lst):
    return [props(name, g) for g in lst.items]


def part(obj, single, lists):
    d = {}
    for f in single:
        d[f] = props("type" if f == "type_" else f, getattr(obj, f))
    for f in lists:
        d[f] = plist(f, getattr(obj, f))
    return d


def derived(obj):
    return {"flight_rules": obj.flight_rules, "should_be_cavok": obj.should_be_cavok(),
            "ceiling": obj.clouds.ceiling}


def valid(v):
    return {"code": v.code, "from": props("time", v.period_from),
            "until": props("time", v.period_until), "duration": v.duration}


def metar(m, deep=True):
    d = part(m, METAR_SINGLE, METAR_LISTS)
    d.update(derived(m))
    d["raw_code"] = m.raw_code
    d["sections"] = list(m.sections)
    d["body"], d["trend"], d["remark"] = m.body, m.trend, m.remark
    d["unparsed_groups"] = list(m.unparsed_groups)
    d["windshear_names"] = list(m.windshears.names)
    d["all_runways"] = m.windshears.all_runways
    d["weather_trends"] = [trend(t) for t in m.weather_trends.items]
    return d


def trend(t):
    d = part(t, ["wind", "prevailing_visibility"], ["weathers", "clouds"])
    d.update(derived(t))
    d["code"] = t.code
    d["unparsed_groups"] = list(t.unparsed_groups)
    i = t.trend_indicator
    d["indicator"] = {
        "code": i.code, "translation": i.translation,
        "init": props("time", i.forecast_period[0]), "end": props("time", i.forecast_period[1]),
        "from": props("time", i.period_from), "until": props("time", i.period_until),
        "at": props("time", i.period_at) if i.period_at is not None else None,
    }
    return d


def tafs_temps(lst):
    return [dict(props("taf_temperature", t),
                 time=props("time", t.time) if t.time is not None else None) for t in lst.items]


def change(c):
    d = part(c, ["wind", "prevailing_visibility"], ["weathers", "clouds"])
    d.update(derived(c))
    d["code"] = c.code
    d["unparsed_groups"] = list(c.unparsed_groups)
    i = c.change_indicator
    d["indicator"] = {"code": i.code, "translation": i.translation, "valid": valid(i.valid)}
    return d


def taf(t):
    d = part(t, ["type_", "station", "time", "modifier", "missing", "cancelled", "wind",
                 "prevailing_visibility"], ["weathers", "clouds"])
    d.update(derived(t))
    d["raw_code"] = t.raw_code
    d["sections"] = list(t.sections)
    d["body"], d["weather_changes"] = t.body, t.weather_changes
    d["unparsed_groups"] = list(t.unparsed_groups)
    d["valid"] = valid(t.valid)
    d["max_temperatures"] = tafs_temps(t.max_temperatures)
    d["min_temperatures"] = tafs_temps(t.min_temperatures)
    d["changes_forecasted"] = [change(c) for c in t.changes_forecasted.items]
    return d


def report(r):
    return metar(r) if hasattr(r, "weather_trends") else taf(r)


# ------------------------------------------------------------------ comparison
TOL = 5e-6


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            return False
        return abs(a - b) <= TOL * max(1e-3, abs(a), abs(b))
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    return a == b


def diff(exp, got, path=""):
    """The first difference, as (path, expected, got), or None."""
    if exp is model.ANY:
        return None
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in exp:
            if k not in got:
                return path + "." + str(k), exp[k], "<absent>"
            r = diff(exp[k], got[k], path + "." + str(k))
            if r:
                return r
        return None
    if isinstance(exp, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            return path + ".len", list(exp), list(got)
        for i, (e, g) in enumerate(zip(exp, got)):
            r = diff(e, g, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    return None if same(exp, got) else (path, exp, got)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def canon(x):
    """A hashable form of an observation."""
    if isinstance(x, dict):
        return tuple(sorted((k, canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, datetime):
        return x.isoformat()
    return x
