"""Expected observation of whole reports, from their parts.

A METAR is (body tokens, trends, remark), a TAF is (body tokens, changes); a
token is a group, its words joined by a blank.  The result has the same shape as
an observation (obs.py), so that the two can be compared field by field.
"""
from datetime import datetime, timedelta

import ref

TOO_MANY = "too many groups"


class TooMany(Exception):
    """More groups of a kind than a report can hold."""


def _single(out, field, default):
    for f, tok, v in out:
        if f == field:
            return v
    return default


def _list(out, field):
    return [v for f, tok, v in out if f == field]


def _unparsed(out):
    return [tok for f, tok, v in out if f is None]


def _conditions(out):
    d = {
        "wind": _single(out, "wind", ref.NO_WIND),
        "prevailing_visibility": _single(out, "prevailing_visibility", ref.NO_PREVAILING),
        "weathers": _list(out, "weathers"),
        "clouds": _list(out, "clouds"),
    }
    d.update(ref.conditions(d))
    return d


def trend(tokens, init):
    out, path = ref.run("trend", tokens)
    d = _conditions(out)
    d["unparsed_groups"] = _unparsed(out)
    d["code"] = " ".join(tokens)
    word = _single(out, "indicator", None)
    codes = [tok for f, tok, v in out if f in ("indicator", "period")]
    end = init + timedelta(hours=2)
    ind = {"code": " ".join(codes) or None,
           "translation": ref.TREND_WORDS.get(word),
           "init": ref.time_fields(None, init), "end": ref.time_fields(None, end),
           "from": ref.time_fields(None, init), "until": ref.time_fields(None, end), "at": None}
    for f, tok, v in out:
        if f == "period":
            t = ref.trend_time(v[1], v[2], init)
            key = {"FM": "from", "TL": "until", "AT": "at"}[v[0]]
            ind[key] = ref.time_fields(tok, t) if t else ANY
    d["indicator"] = ind
    d["order"] = [(f, tok) for f, tok, v in out]
    return d, path


class _Any:
    """Equal to everything: the documentation does not define the value."""

    def __repr__(self):
        return "<any>"


ANY = _Any()


def metar(body, trends=(), remark="", year=2022, month=10):
    out, path = ref.run("metar", body)
    d = _conditions(out)
    paths = [path]
    tok = next((t for f, t, v in out if f == "time"), None)
    t = ref.report_time(tok, year, month) if tok else datetime(year, month, 1)
    d["type_"] = _single(out, "type", ref.rtype("METAR"))
    d["station"] = _single(out, "station", {"code": None})
    d["time"] = ref.time_fields(tok, t)
    d["modifier"] = _single(out, "modifier", ref.NO_MODIFIER)
    d["wind_variation"] = _single(out, "wind_variation", ref.NO_VARIATION)
    d["minimum_visibility"] = _single(out, "minimum_visibility", ref.NO_MINIMUM)
    d["runway_ranges"] = _list(out, "runway_ranges")
    d["temperatures"] = _single(out, "temperatures", ref.NO_TEMPERATURES)
    d["pressure"] = (_list(out, "pressure") or [ref.NO_PRESSURE])[-1]
    d["recent_weather"] = _single(out, "recent_weather", ref.NO_RECENT)
    ws = _list(out, "windshears")
    d["windshears"] = ws
    d["all_runways"] = len(ws) == 1 and ws[0]["all_"]
    d["windshear_names"] = [] if d["all_runways"] else [w["name"] for w in ws]
    d["sea_state"] = _single(out, "sea_state", ref.NO_SEA)
    d["runway_state"] = _single(out, "runway_state", ref.NO_STATE)
    d["unparsed_groups"] = _unparsed(out)
    d["order"] = [(f, tk) for f, tk, v in out]
    d["weather_trends"] = []
    for tr in trends:
        e, p = trend(tr, t)
        d["weather_trends"].append(e)
        d["unparsed_groups"] = d["unparsed_groups"] + e["unparsed_groups"]
        paths.append(p)
    if len(trends) > 2:
        raise TooMany()
    d["body"] = " ".join(body)
    d["trend"] = " ".join(" ".join(tr) for tr in trends)
    d["remark"] = remark
    d["sections"] = [d["body"], d["trend"], d["remark"]]
    d["raw_code"] = " ".join(x for x in d["sections"] if x)
    return d, paths


def metar_text(body, trends=(), remark=""):
    parts = [" ".join(body)] + [" ".join(tr) for tr in trends] + [remark]
    return " ".join(p for p in parts if p)


def valid_fields(code, frm, until):
    return {"code": code, "from": ref.time_fields(None, frm),
            "until": ref.time_fields(None, until), "duration": until - frm}


def taf(body, changes=(), year=2022, month=10):
    out, path = ref.run("taf", body)
    d = _conditions(out)
    paths = [path]
    tok = next((t for f, t, v in out if f == "time"), None)
    t = ref.report_time(tok, year, month) if tok else datetime(year, month, 1)
    d["type_"] = _single(out, "type", ref.rtype("TAF"))
    d["station"] = _single(out, "station", {"code": None})
    d["time"] = ref.time_fields(tok, t)
    d["modifier"] = _single(out, "modifier", ref.NO_MODIFIER)
    nil = _single(out, "missing", None)
    d["missing"] = {"code": nil, "description": ref.MODIFIERS["NIL"] if nil else None,
                    "is_missing": bool(nil)}
    cnl = _single(out, "cancelled", None)
    d["cancelled"] = {"code": cnl, "is_cancelled": bool(cnl)}
    vtok = next((tk for f, tk, v in out if f == "valid"), None)
    if vtok:
        frm, until = ref.valid_period(ref.valid_token(vtok), t)
    else:
        frm = t.replace(minute=0) + timedelta(hours=1)
        until = frm + timedelta(hours=24)
    d["valid"] = valid_fields(vtok, frm, until)
    d["max_temperatures"], d["min_temperatures"] = [], []
    for f, tk, v in out:
        if f == "temperature":
            kind, c, day, hour = v
            e = dict(code=tk, **ref.tempviews(c))
            e["time"] = ref.time_fields(None, ref.roll(day, t) + timedelta(hours=hour))
            d["max_temperatures" if kind == "X" else "min_temperatures"].append(e)
    if max(len(d["max_temperatures"]), len(d["min_temperatures"])) > 2 or len(changes) > 8:
        raise TooMany()
    d["unparsed_groups"] = _unparsed(out)
    d["order"] = [(f, tk) for f, tk, v in out]
    d["changes_forecasted"] = []
    periods = []
    for ch in changes:
        cout, cpath = ref.run("change", ch)
        paths.append(cpath)
        e = _conditions(cout)
        e["unparsed_groups"] = _unparsed(cout)
        e["code"] = " ".join(ch)
        e["order"] = [(f, tk) for f, tk, v in cout]
        word = next((tk for f, tk, v in cout if f == "indicator"), None)
        own = next((tk for f, tk, v in cout if f == "valid"), None)
        fm = ref.fm_token(word) if word else None
        if fm:
            begin = ref.roll(fm[0], frm) + timedelta(hours=fm[1], minutes=fm[2])
            if own:
                raise NotImplementedError("FM with a period of its own")
            periods.append(["FM", begin, until])
            e["indicator"] = {"code": word}
        else:
            a, b = frm, until
            if own:
                a, b = ref.valid_period(ref.valid_token(own), frm)
            periods.append([(word or "").split(" ")[0], a, b])
            e["indicator"] = {"code": " ".join(x for x in (word, own) if x) or None}
            e["indicator"]["own"] = own
        d["changes_forecasted"].append(e)
        d["unparsed_groups"] = d["unparsed_groups"] + e["unparsed_groups"]
    for i, p in enumerate(periods):
        if p[0] == "FM":
            # until an hour before the next FM or BECMG which begins later
            for q in periods[i + 1:]:
                if q[0] in ("FM", "BECMG"):
                    if q[1] > p[1]:
                        p[2] = max(q[1] - timedelta(hours=1), p[1])
                    break
        e = d["changes_forecasted"][i]["indicator"]
        own = e.pop("own", None)
        vf = valid_fields(own, p[1], p[2])
        if p[0] != "FM" and not own:
            vf["code"] = vtok      # the period of the whole forecast
        e["valid"] = vf
        text = "from %s until %s" % (p[1], p[2])
        word = next((tk for f, tk in d["changes_forecasted"][i]["order"]
                     if f == "indicator"), None)
        if p[0] == "FM":
            e["translation"] = text
        elif word:
            e["translation"] = ref.TAF_WORDS[word] + (" " + text if own else "")
        else:
            e["translation"] = None
    d["body"] = " ".join(body)
    d["weather_changes"] = " ".join(" ".join(ch) for ch in changes)
    d["sections"] = [d["body"], d["weather_changes"]]
    d["raw_code"] = " ".join(x for x in d["sections"] if x)
    return d, paths


def taf_text(body, changes=()):
    return " ".join([" ".join(body)] + [" ".join(ch) for ch in changes]).strip()


QUIRK_UNITS = ("SM", "KM", "M", "U")


def quirky(tok):
    """Spellings whose meaning no document defines: visibilities in M or U and
    visibility units without a number; kept out of every alphabet."""
    for u in QUIRK_UNITS:
        if tok.endswith(u):
            num = tok[:-len(u)].lstrip("MP")
            if all(c in "0123456789/ " for c in num):
                if u in ("SM", "KM") and (num.isdigit() or num[-1:] == "0" or len(num.rpartition("/")[2]) > 1):
                    return False        # a number too long, a fraction over nothing or over a long number
                return ref.prevailing(tok) is None
    return False
