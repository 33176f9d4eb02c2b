"""C26, C27: the dictionary, JSON and text forms of reports and groups."""
import itertools
import json

import company
import c_groups as g
import c_order as o
import env
import model
import obs
import ref
import world
from common import T_METAR, T_TAF, build
from engine import Family, Problem, check

# ------------------------------------------------------- dictionaries (C26)
FLAT = {
    "type": {"type": "type_"},
    "station": dict((k, k) for k in ("name", "icao", "iata", "synop", "latitude", "longitude",
                                     "elevation", "country")),
    "modifier": {"modifier": "description"},
    "missing": {"modifier": "description", "is_missing": "is_missing"},
    "cancelled": {"is_cancelled": "is_cancelled"},
    "weathers": dict((k, k) for k in ("intensity", "description", "precipitation", "obscuration", "other")),
    "recent_weather": dict((k, k) for k in ("description", "precipitation", "obscuration", "other")),
    "clouds": {"cover": "cover", "oktas": "oktas", "height": "height_in_meters", "type": "cloud_type",
               "height_units": ("meters",)},
    "pressure": {"units": ("hectopascals",), "pressure": "in_hPa"},
    "windshears": {"all": "all_", "name": "name"},
    "runway_state": dict((k, k) for k in ("name", "deposits", "contamination", "deposits_depth",
                                          "surface_friction", "snoclo", "clrd")),
}


def want_direction(p, cardinal, degrees, variable=False):
    return {"cardinal": p[cardinal], "variable": variable, "units": "degrees", "direction": p[degrees]}


def want_group(name, p):
    """The dictionary of a group with the given properties."""
    if name in FLAT:
        d = {k: (v[0] if isinstance(v, tuple) else p[v]) for k, v in FLAT[name].items()}
        if name != "pressure":
            d["code"] = p["code"]
        return d
    if name == "time":
        return {"datetime": str(p["time"]), "code": p["code"]}
    if name == "wind":
        return {"code": p["code"], "direction": want_direction(p, "cardinal_direction", "direction_in_degrees",
                                                               p["variable"]),
                "speed": {"units": "knot", "speed": p["speed_in_knot"]},
                "gust": {"units": "knot", "speed": p["gust_in_knot"]}}
    if name == "wind_variation":
        return {"code": p["code"], "from_": want_direction(p, "from_cardinal_direction", "from_in_degrees"),
                "to": want_direction(p, "to_cardinal_direction", "to_in_degrees")}
    if name in ("prevailing_visibility", "minimum_visibility"):
        d = {"code": p["code"], "direction": want_direction(p, "cardinal_direction", "direction_in_degrees"),
             "visibility": {"units": "meters", "distance": p["in_meters"]}}
        if name == "prevailing_visibility":
            d["cavok"] = p["cavok"]
        return d
    if name == "runway_ranges":
        limit = lambda t: "below of" if t.startswith("below") else "above of" if t.startswith("above") else None
        return {"code": p["code"], "name": p["name"], "trend": p["trend"],
                "rvr_low": limit(p["low_range"]), "rvr_high": limit(p["high_range"]),
                "low_range": {"units": "meters", "distance": p["low_in_meters"]},
                "high_range": {"units": "meters", "distance": p["high_in_meters"]}}
    if name == "temperatures":
        return {"code": p["code"], "temperature": {"units": "celsius", "temperature": p["temperature_in_celsius"]},
                "dewpoint": {"units": "celsius", "temperature": p["dewpoint_in_celsius"]}}
    if name == "sea_state":
        return {"code": p["code"], "state": p["state"],
                "temperature": {"units": "celsius", "temperature": p["temperature_in_celsius"]},
                "height": {"units": "meters", "distance": p["height_in_meters"]}}
    if name == "taf_temperature":
        return {"units": "celsius", "temperature": p["in_celsius"], "code": p["code"], "datetime": str(p["time"]["time"])}
    raise KeyError(name)


LABELS = ("first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth")


def labelled(ds):
    return dict(zip(LABELS, ds))


def want_valid(v):
    return {"code": v["code"], "from_": want_group("time", v["from"]), "until": want_group("time", v["until"])}


def want_conditions(d):
    return {"wind": want_group("wind", d["wind"]),
            "prevailing_visibility": want_group("prevailing_visibility", d["prevailing_visibility"]),
            "weathers": [want_group("weathers", x) for x in d["weathers"]],
            "clouds": [want_group("clouds", x) for x in d["clouds"]],
            "flight_rules": d["flight_rules"], "code": d["code"]}


def want_trend_indicator(i):
    return {"code": i["code"], "translation": i["translation"], "from_": want_group("time", i["from"]),
            "until": want_group("time", i["until"]),
            "at": want_group("time", i["at"]) if i["at"] is not None else None,
            "forecast_period": {"init": want_group("time", i["init"]), "end": want_group("time", i["end"])}}


def want_change_indicator(i):
    return {"code": i["code"], "translation": i["translation"], "valid": want_valid(i["valid"])}


def want_report(d):
    """The dictionary of a report with the given observation."""
    w = {"code": d["raw_code"], "sections": d["sections"], "unparsed_groups": d["unparsed_groups"],
         "type_": want_group("type", d["type_"])}
    for f in ("station", "time", "modifier", "wind", "prevailing_visibility"):
        w[f] = want_group(f, d[f])
    for f in ("weathers", "clouds"):
        w[f] = labelled([want_group(f, x) for x in d[f]])
    if "weather_trends" in d:
        for f in ("wind_variation", "minimum_visibility", "temperatures", "pressure", "recent_weather",
                  "sea_state", "runway_state"):
            w[f] = want_group(f, d[f])
        for f in ("runway_ranges", "windshears"):
            w[f] = labelled([want_group(f, x) for x in d[f]])
        w["flight_rules"] = d["flight_rules"]
        w["remark"] = d["remark"]
        w["weather_trends"] = labelled([want_conditions(x) for x in d["weather_trends"]])
    else:
        w["missing"], w["cancelled"] = want_group("missing", d["missing"]), want_group("cancelled", d["cancelled"])
        w["valid"] = want_valid(d["valid"])
        for f in ("max_temperatures", "min_temperatures"):
            w[f] = labelled([want_group("taf_temperature", x) for x in d[f]])
        w["changes_forecasted"] = labelled([want_conditions(x) for x in d["changes_forecasted"]])
    return w


def _constant(x):
    raise ValueError("not JSON: " + x)


def deep_diff(exp, got, path, out):
    """All differences; keys and types have to agree exactly."""
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(exp) != set(got):
            out.append((path, exp, got))
            return
        for k in exp:
            deep_diff(exp[k], got[k], path + "." + k, out)
    elif isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            out.append((path, exp, got))
            return
        for i, (a, b) in enumerate(zip(exp, got)):
            deep_diff(a, b, "%s[%d]" % (path, i), out)
    elif type(exp) is not type(got) or exp != got:
        out.append((path, exp, got))


def agree(exp, x, what, out):
    """as_dict() is exp, now and again, and to_json() is the same as JSON."""
    d = x.as_dict()
    deep_diff(exp, d, what, out)
    deep_diff(d, x.as_dict(), what + " (again)", out)
    text = x.to_json()
    try:
        j = json.loads(text, parse_constant=_constant)
    except ValueError as e:
        out.append((what + ".to_json", "JSON", "%s: %r" % (e, text)))
        return
    deep_diff(d, j, what + ".to_json", out)


def verdict(out):
    res = []
    for path, e, gt in out:
        leaf = path.split(" ")[0]
        known = leaf.endswith(".code") and "temperatures" in leaf and gt is None and isinstance(e, str) \
            and e.startswith(("TX", "TN"))
        res.append(("taf-temperature-code" if known else None, "%s: properties say %s, dictionary %s" % (
            path, repr(e)[:200], repr(gt)[:200])))
    return res


def j_dict(case, st):
    kind, text = case[:2]
    try:
        r = build(kind, text)
    except (env.RangeError, ValueError):
        return None     # C08
    d = obs.report(r)
    out = []
    agree(want_report(d), r, kind, out)
    n = 1
    for f in world.subs(r):
        x = getattr(r, f)
        name = "type" if f == "type_" else f
        if f in ("max_temperatures", "min_temperatures"):
            want = [want_group("taf_temperature", t) for t in d[f]]
        elif f in ("weather_trends", "changes_forecasted"):
            want = [want_conditions(t) for t in d[f]]
        elif isinstance(d[f], list):
            want = [want_group(name, t) for t in d[f]]
        elif f == "valid":
            want = want_valid(d[f])
        else:
            want = want_group(name, d[f])
        if isinstance(want, list):
            agree(labelled(want), x, f, out)
            for i, (w, it) in enumerate(zip(want, x.items)):
                agree(w, it, "%s[%d]" % (f, i), out)
                n += 1
            if f in ("weather_trends", "changes_forecasted"):
                for i, (t, it) in enumerate(zip(d[f], x.items)):
                    if f == "weather_trends":
                        agree(want_trend_indicator(t["indicator"]), it.trend_indicator, f + ".indicator", out)
                    else:
                        agree(want_change_indicator(t["indicator"]), it.change_indicator, f + ".indicator", out)
                        agree(want_valid(t["indicator"]["valid"]), it.change_indicator.valid, f + ".valid", out)
                    agree(want_group("wind", t["wind"]), it.wind, f + ".wind", out)
                    agree(want_group("prevailing_visibility", t["prevailing_visibility"]),
                          it.prevailing_visibility, f + ".visibility", out)
                    for h in ("weathers", "clouds"):
                        agree(labelled([want_group(h, y) for y in t[h]]), getattr(it, h), f + "." + h, out)
                    n += 6
        else:
            agree(want, x, f, out)
        n += 1
    st.transitions += n
    c = obs.canon(d)
    st.states.add(hash(c))
    st.outcome(c)
    return verdict(out)


def j_dict_group(case, st):
    """One group: dictionary and JSON of its field in its section."""
    ctx, tok, f = case
    if model.quirky(tok):
        return None
    kind, body, secs = g.sections_of(ctx, tok, g.PRE.get(f, ()))
    r = build(kind, g.text_of(kind, body, secs))
    x = getattr(g.where_obj(ctx, r), f)
    out = []
    if f in obs.LISTS:
        ps = obs.plist(f, x)
        agree(labelled([want_group(f, p) for p in ps]), x, f, out)
        for p, it in zip(ps, x.items):
            agree(want_group(f, p), it, f, out)
    elif f.endswith("_temperatures"):
        agree(labelled([want_group("taf_temperature", t) for t in obs.tafs_temps(x)]), x, f, out)
        ps = obs.tafs_temps(x)
    else:
        ps = obs.props(f, x)
        agree(want_group(f, ps), x, f, out)
    st.transitions += 1
    st.states.add(hash((f, obs.canon(ps))))
    st.outcomes.add(hash(obs.canon(x.as_dict())))
    return verdict(out)


def group_cases(th):
    for ctxs, f, toks in g.every_group(th):
        for c in ctxs:
            for t in toks:
                yield c, t, f


def metar_cases(th):
    for b in o.subsets_metar(False):
        if b:
            yield "metar", b, (), ""
    for b in itertools.islice(o.multiplicities(), 0, None, 1 if th else 11):
        yield "metar", b, (), ""
    trends = [("NOSIG",), ("TEMPO", "FM1300", "TL1400", "25010G20KT", "1 1/2SM", "-RA", "BR", "BKN010CB"),
              ("BECMG", "AT1315", "CAVOK"), ("TEMPO", "VRB02KT", "0000", "VV000"), ("BECMG", "TL2400", "NSW", "XYZ", "NSC"),
              ("TEMPO", "00000KT", "9999", "SCT020", "OVC100TCU")]
    for n in range(3):
        for tr in itertools.product(trends, repeat=n):
            if sum(t[0] == "NOSIG" for t in tr) > 1:
                continue
            for rmk in ("", "RMK AO2 SLP1"):
                for b in (T_METAR, T_METAR + ("AUTO", "24010G20MPS", "0800", "R10/0600FT", "FG", "OVC001", "00/M00", "A2992"),
                          ("PADK",), ("SPECI", "XXXX", "010000Z", "JUNK", "CAVOK")):
                    yield "metar", b, tr, rmk
    # every set of conditions and times in a trend, alone and as the second one
    for gs in some(CONDITIONS):
        for w in ("TEMPO", "BECMG", "NOSIG"):
            for ps in some(("FM1245", "TL1415", "AT1300", "AT2500")):
                if not gs and not ps and w != "NOSIG":
                    continue
                yield "metar", T_METAR, ((w,) + ps + gs,), ""
                if w != "NOSIG" and (len(ps) < 2 or th):
                    yield "metar", T_METAR, (("BECMG", "5000"), (w,) + ps + gs), ""


CONDITIONS = ("09014G25KT", "0800", "-RA", "BR", "FEW005", "BKN010CB")


def some(xs):
    """Every subset, in order."""
    for bits in range(1 << len(xs)):
        yield tuple(x for i, x in enumerate(xs) if bits >> i & 1)


INDICATORS = (("FM151600",), ("FM1516",), ("FM321600",), ("BECMG",), ("BECMG", "1514/1516"), ("TEMPO",), ("TEMPO", "1514/1524"), ("PROB30",),
              ("PROB30", "1514/1516"), ("PROB40",), ("PROB40 TEMPO",), ("PROB40 TEMPO", "1514/1516"), ("PROB30 TEMPO", "1599/1516"))


CHG = (("BECMG", "1513/1515", "20010KT", "0800", "FG", "VV001"), ("FM151600", "VRB03KT", "CAVOK"),
       ("TEMPO", "1517/1519", "+TSRA", "BKN010CB", "FEW005"), ("PROB30 TEMPO", "1520/1524", "1 1/2SM", "BR"),
       ("PROB40", "1600/1602", "00000KT", "0000", "XYZ"), ("FM160500", "18015G25KT", "P6SM", "SKC"))


def taf_cases(th):
    heads = (T_TAF + ("09014KT", "9999", "BKN030"), ("TAF", "AMD", "XXXX", "151130Z", "1512/1618", "VRB01KT", "CAVOK", "TX05/1515Z",
                                                    "TNM02/1603Z", "TX00/1612Z", "TN00/1618Z"))
    for h in heads:
        for n in range(4 if th else 3):
            for c in itertools.product(CHG, repeat=n):
                if ordered(c):
                    yield "taf", h, c, ""
    # every set of conditions after every indicator, alone and as the second change
    for gs in some(CONDITIONS):
        for i in INDICATORS:
            yield "taf", heads[0], (i + gs,), ""
            yield "taf", T_TAF[:3] + ("9999",), (i + gs,), ""
            if not (i[0].startswith("PROB") and " " not in i[0]) or gs or i[1:]:
                yield "taf", heads[0], (("TEMPO", "1513/1514", "TS"), i + gs), ""
                yield "taf", heads[0], (i + gs, ("TEMPO", "1517/1519", "TS")), ""
    for k in range(4, 9):
        yield "taf", heads[0], tuple(CHG[i % 6] for i in range(6))[:k] + CHG[2:3] * max(0, k - 6), ""
    for b in ((("TAF", "PADK", "151130Z", "NIL"), ("TAF", "PADK", "151130Z", "1512/1612", "CNL"),
               ("TAF", "COR", "PAKH", "151100Z"), ("PADK", "9999"), ("TAF", "JUNK", "JUNK2"), ("TAF",))):
        yield "taf", b, (), ""
    for bits in range(1, 1 << 20):
        if o.few(bits, 20, 3 if not th else 4):
            b = tuple(t for k, t in enumerate(o.TAF_CANON) if bits >> k & 1)
            yield "taf", b, (), ""


def ordered(changes):
    """FM and BECMG periods which begin one after the other (C18)."""
    ts = []
    for c in changes:
        if c[0].startswith("FM"):
            ts.append(int(c[0][2:6]))
        elif c[0] == "BECMG":
            ts.append(int(c[1][:4]))
    return all(a < b for a, b in zip(ts, ts[1:]))


def whole(gen, judge):
    def cases(th):
        for kind, body, secs, rmk in gen(th):
            text = model.metar_text(body, secs, rmk) if kind == "metar" else model.taf_text(body, secs)
            yield kind, text
    return cases


def j_fresh(case, st):
    """What is done with a returned dictionary changes no other result."""
    a, b = case
    x, y = world.create(a), world.create(b)
    if isinstance(x, Exception) or isinstance(y, Exception):
        return
    for f in [x] + [getattr(x, n) for n in world.subs(x)]:
        wipe(f.as_dict())
    world.same(b, y, "after the dictionaries of another report were emptied")
    world.same(b, world.create(b), "created after the dictionaries of another report were emptied")
    for n in world.subs(x):
        if getattr(x, n).as_dict() != world.baselines()[a]["forms:" + n][1]:
            raise Problem("as_dict() of %s gives %r after an earlier result was emptied" % (
                n, getattr(x, n).as_dict()))
    st.transitions += 4
    st.state(case)
    st.outcome(case)


def wipe(d):
    if isinstance(d, dict):
        for v in d.values():
            wipe(v)
        d.clear()


@check("C26")
def c26(tier):
    th = tier == "thorough"
    world.baselines()
    n = len(world.REPORTS)
    return [
        Family("groups", lambda: group_cases(th), j_dict_group,
               "every kind of group over its value alphabets (the largest thinned in the quick tier), in its sections"),
        Family("metars", lambda: whole(metar_cases, None)(th), j_dict,
               "sets of up to 4 or without up to 4 fields, all multiplicities of the lists, 0 to 2 of 6 trends"),
        Family("tafs", lambda: whole(taf_cases, None)(th), j_dict,
               "sets of groups of a TAF, all sequences of up to %d of 6 changes, 4 to 8 changes" % (3 if th else 2)),
        Family("company", lambda: whole(lambda t: company.reports(t)(), None)(th), j_dict,
               "reports with every two groups of different kinds, bare and otherwise full, and with every two groups of a section"),
        Family("odd-words", lambda: whole(lambda t: company.odd()(), None)(th), j_dict, company.ODD),
        Family("full-lists", lambda: whole(lambda t: company.full_lists()(), None)(th), j_dict, company.FULL_LISTS),
        Family("world", lambda: ((k, t) for k, t, kw in world.REPORTS if not kw), j_dict, "reports of every kind"),
        Family("fresh", lambda: itertools.product(range(n), repeat=2), j_fresh,
               "all ordered pairs of %d reports, the dictionaries of the first emptied" % n),
    ]


# -------------------------------------------------------------- texts (C27)
def num(v, unit):
    return "" if v is None else "%.1f%s" % (v, unit)


def degrees(v):
    return num(v, "\u00b0")


def words(*xs):
    return " ".join(x for x in xs if x)


def text_group(name, p):
    """The text of a group with the given properties."""
    if name == "type":
        return "%s (%s)" % (p["type_"], p["code"])
    if name == "station":
        return "Name: %s | Coordinates: %s %s | Elevation: %s m MSL | Country: %s" % (
            p["name"], p["latitude"], p["longitude"], p["elevation"], p["country"])
    if name == "time":
        return str(p["time"])
    if name in ("modifier", "missing"):
        return (p["description"] or "").lower()
    if name == "cancelled":
        return "cancelled" if p["is_cancelled"] else ""
    if name == "wind":
        direction = "variable wind" if p["variable"] else \
            "(%s)" % degrees(p["direction_in_degrees"]) if p["direction_in_degrees"] is not None else ""
        gust = "gust of " + num(p["gust_in_knot"], " kt") if p["gust_in_knot"] is not None else ""
        return words(p["cardinal_direction"], direction, num(p["speed_in_knot"], " kt"), gust)
    if name == "wind_variation":
        if p["from_in_degrees"] is None:
            return ""
        return "from %s (%s) to %s (%s)" % (p["from_cardinal_direction"], degrees(p["from_in_degrees"]),
                                            p["to_cardinal_direction"], degrees(p["to_in_degrees"]))
    if name in ("prevailing_visibility", "minimum_visibility"):
        if p.get("cavok"):
            return "Ceiling and Visibility OK"
        to = "to %s (%s)" % (p["cardinal_direction"], degrees(p["direction_in_degrees"])) \
            if p["direction_in_degrees"] is not None else ""
        return words(num(p["in_kilometers"], " km"), to)
    if name == "runway_ranges":
        if p["low_in_meters"] is None:
            return ""
        return "runway %s %s%s%s" % (p["name"], p["low_range"],
                                     " varying to " + p["high_range"] if p["high_in_meters"] is not None else "",
                                     ", " + p["trend"] if p["trend"] else "")
    if name == "weathers":
        return words(p["intensity"], p["description"], p["precipitation"], p["obscuration"], p["other"])
    if name == "recent_weather":
        return words(p["description"], p["precipitation"], p["obscuration"], p["other"])
    if name == "clouds":
        of = " of " + p["cloud_type"] if p["cloud_type"] else ""
        if p["height_in_feet"] is not None:
            return "%s at %.1f feet%s" % (p["cover"], p["height_in_feet"], of)
        if p["cover"] in ("clear", "undefined", "indefinite ceiling"):
            return p["cover"] + of
        return p["cover"] + " at undefined height" + of
    if name == "temperatures":
        t, d = p["temperature_in_celsius"], p["dewpoint_in_celsius"]
        if t is None and d is None:
            return ""
        return "%s | %s" % ("no temperature" if t is None else "temperature: " + num(t, "\u00b0C"),
                            "no dewpoint" if d is None else "dewpoint: " + num(d, "\u00b0C"))
    if name == "pressure":
        return num(p["in_hPa"], " hPa")
    if name == "windshears":
        return p["name"] or ("all" if p["all_"] else "")
    if name == "sea_state":
        t, h, s = p["temperature_in_celsius"], p["height_in_meters"], p["state"]
        if t is None and h is None and s is None:
            return ""
        return "%s, %s, %s" % ("no temperature" if t is None else "temperature " + num(t, "\u00b0C"),
                               "no significant wave height" if h is None else "significant wave height " + num(h, " m"),
                               s or "no sea state")
    if name == "runway_state":
        return text_state(p)
    if name == "taf_temperature":
        return words(num(p["in_celsius"], "\u00b0C"), "at %s" % p["time"]["time"])
    raise KeyError(name)


def text_state(p):
    if p["code"] is None:
        return ""
    if p["snoclo"]:
        return "aerodrome is closed due to extreme deposit of snow"
    if p["clrd"]:
        return p["clrd"]
    v = p["code"].split("/", 1)[1]
    dep, depth, fric = v[0], v[2:4], v[4:6]
    if depth in ("99", "//"):
        what = "%s %s %s" % (p["deposits_depth"], "and" if dep == "/" else "of", p["deposits"])
    elif dep == "/":
        what = "depth of %s but %s" % (p["deposits_depth"], p["deposits"])
    else:
        what = "deposits of %s of %s" % (p["deposits_depth"], p["deposits"])
    est = "estimated surface friction " if fric != "//" and int(fric) < 91 else ""
    return "%s, %s, contamination %s, %s" % (p["name"], what, p["contamination"], est + p["surface_friction"])


def text_list(name, ps):
    if name == "windshears" and len(ps) == 1 and ps[0]["all_"]:
        return "all runways"
    return " | ".join(text_group(name, p) for p in ps)


def text_valid(v):
    return "from %s until %s" % (v["from"]["time"], v["until"]["time"])


def text_trend_indicator(i):
    t = i["translation"] or ""
    if i["at"] is not None:
        return words(t, "at %s" % i["at"]["time"])
    return t and "%s from %s until %s" % (t, i["from"]["time"], i["until"]["time"])


def text_conditions(order, d, first):
    """Lines of a section: the decoded groups in their order."""
    lines, at = ([first] if first else []), {"weathers": 0, "clouds": 0}
    for f, tok in order:
        if f in at:
            lines.append(text_group(f, d[f][at[f]]))
            at[f] += 1
        elif f in ("wind", "prevailing_visibility"):
            lines.append(text_group(f, d[f]))
    return lines


def lines(text):
    """Lines without needless blanks."""
    return [x for x in (" ".join(y.split()) for y in text.split("\n")) if x]


def same_text(exp, got, what):
    e = [x for x in (" ".join(y.split()) for y in exp) if x]
    if e != lines(got):
        raise Problem("text of %s: expected %r, got %r" % (what, e, got))


def j_text(case, st):
    """The text of the report, of its sections, lists and groups."""
    kind, body, secs, rmk = case
    try:
        exp, paths = model.metar(body, secs, rmk) if kind == "metar" else model.taf(body, secs)
    except model.TooMany:
        return
    r = build(kind, model.metar_text(body, secs, rmk) if kind == "metar" else model.taf_text(body, secs))
    d = obs.report(r)
    at = dict.fromkeys(("runway_ranges", "weathers", "clouds", "windshears", "max_temperatures", "min_temperatures"), 0)
    pressures = [tok for f, tok in exp["order"] if f == "pressure"]
    out = []
    for f, tok in exp["order"]:
        if f is None:
            continue
        if f in at:
            out.append(text_group(f, d[f][at[f]]))
            at[f] += 1
        elif f == "temperature":
            f = "max_temperatures" if tok[1] == "X" else "min_temperatures"
            out.append(text_group("taf_temperature", d[f][at[f]]))
            at[f] += 1
        elif f == "pressure" and tok is not pressures[-1]:
            out.append(text_group(f, ref.pressure(tok)))
        elif f == "valid":
            out.append(text_valid(d[f]))
        else:
            out.append(text_group(f, d["type_" if f == "type" else f]))
    names = ("weather_trends",) if kind == "metar" else ("changes_forecasted",)
    sections = []
    for f in names:
        for e, x, it in zip(exp[f], d[f], getattr(r, f).items):
            i = x["indicator"]
            head = text_trend_indicator(i) if kind == "metar" else i["translation"] or ""
            ls = text_conditions(e["order"], x, head)
            same_text(ls, str(it), "%s %r" % (f, x["code"]))
            same_text([head], str(it.trend_indicator if kind == "metar" else it.change_indicator), f + " indicator")
            if kind == "taf":
                same_text([text_valid(i["valid"])], str(it.change_indicator.valid), f + " period")
            for h in ("wind", "prevailing_visibility"):
                same_text([text_group(h, x[h])], str(getattr(it, h)), f + " " + h)
            for h in ("weathers", "clouds"):
                same_text([text_list(h, x[h])], str(getattr(it, h)), f + " " + h)
            sections += ls
        same_text(sections, str(getattr(r, f)), f)
    same_text(out + sections, str(r), "the report")
    for f in world.subs(r):
        x = getattr(r, f)
        if f in names:
            continue
        if f.endswith("_temperatures"):
            same_text([" | ".join(text_group("taf_temperature", p) for p in d[f])], str(x), f)
        elif isinstance(d[f], list):
            same_text([text_list(f, d[f])], str(x), f)
        elif f == "valid":
            same_text([text_valid(d[f])], str(x), f)
        else:
            same_text([text_group("type" if f == "type_" else f, d[f])], str(x), f)
    st.transitions += len(out) + len(sections)
    for x in out + sections:
        st.states.add(hash(x))
    st.outcome(str(r))


def j_text_group(case, st):
    ctx, tok, f = case
    if model.quirky(tok):
        return
    kind, body, secs = g.sections_of(ctx, tok, g.PRE.get(f, ()))
    r = build(kind, g.text_of(kind, body, secs))
    x = getattr(g.where_obj(ctx, r), f)
    if f in obs.LISTS:
        ps = obs.plist(f, x)
        want = text_list(f, ps)
        for p, it in zip(ps, x.items):
            same_text([text_group(f, p)], str(it), "%s %s" % (f, tok))
    elif f.endswith("_temperatures"):
        want = " | ".join(text_group("taf_temperature", t) for t in obs.tafs_temps(x))
    else:
        want = text_group(f, obs.props(f, x))
    same_text([want], str(x), "%s %s" % (f, tok))
    st.transitions += 1
    st.states.add(hash((f, want)))
    st.outcome(want)


@check("C27")
def c27(tier):
    th = tier == "thorough"
    return [
        Family("groups", lambda: group_cases(th), j_text_group,
               "every kind of group over its value alphabets (the largest thinned in the quick tier), in its sections"),
        Family("metars", lambda: metar_cases(th), j_text,
               "sets of up to 4 or without up to 4 fields, multiplicities of the lists, 0 to 2 of 6 trends"),
        Family("tafs", lambda: taf_cases(th), j_text,
               "sets of groups of a TAF, all sequences of up to %d of 6 changes, 4 to 8 changes" % (3 if th else 2)),
        Family("company", company.reports(th), j_text,
               "reports with every two groups of different kinds, bare and otherwise full, and with every two groups of a section"),
        Family("odd-words", company.odd(), j_text, company.ODD),
        Family("full-lists", company.full_lists(), j_text, company.FULL_LISTS),
    ]
