"""A group in any company: whole reports which combine the groups of a property with
every group of another kind, and with the groups of every two other kinds.

The judge compares what the property is about, in the body and in every section,
with the model of the whole report.
"""
import itertools

import env  # noqa: F401
import model
import obs
import ref
from common import need
from engine import Family

Y, M = 2022, 10

# what a METAR may have, in order; the first of each is what stands in a full report
METAR = (
    ("type", ("METAR", "SPECI")),
    ("station", ("PADK", "MROC", "KJFK", "QQQQ", "RPVM")),
    ("time", ("151230Z", "010000Z", "312359Z", "302400Z")),
    ("modifier", ("AUTO", "COR", "NIL", "AMD", "TEST")),
    ("wind", ("25035G50KT", "00000KT", "VRB03G15MPS", "/////KT", "36010MPS", "09120KT")),
    ("wind_variation", ("070V130", "350V010", "360V360")),
    ("prevailing_visibility", ("5000", "CAVOK", "0000", "9999NDV", "1 1/2SM", "P6SM", "////", "2000NE")),
    ("minimum_visibility", ("1200NE", "0000", "0050SW", "////")),
    ("runway_ranges", ("R07/0800", "R88/P1500FTU", "R10C/M0050V0350D", "R07/0800 R25/0600N", "R06L/0000")),
    ("weathers", ("-RA", "+FZFG", "VCTS", "NSW", "-RA BR", "SHSN FG DU", "TS")),
    ("clouds", ("BKN015", "OVC003CB", "VV001", "VV///", "NSC", "//////TCU", "FEW010 SCT020", "FEW100", "SCT020TCU BKN000 OVC050")),
    ("temperatures", ("29/M01", "00/M00", "///16", "M12/XX")),
    ("pressure", ("Q0987", "A2992", "////", "A2992 Q1013", "QNH2992INS")),
    ("recent_weather", ("RETS", "RERA", "RESHSN")),
    ("windshears", ("WS R07", "WS ALL RWY", "WS R07 WS R25L", "WS R10C")),
    ("sea_state", ("W15/S2", "WM01/H105", "W00/S0")),
    ("runway_state", ("R07/490593", "R99/CLRD//", "R/SNOCLO", "R24//9//")),
    ("junk", ("XX9Z", "//////////", "9999 XYZ")),
    ("trends", ((("NOSIG",),), (("TEMPO", "FM1300", "TL1400", "25010KT", "0500", "FG", "VV001"),), (("BECMG", "AT1330", "CAVOK"),),
                (("NOSIG",), ("TEMPO", "0300")), (("BECMG", "TL1400", "BR"), ("TEMPO", "00000KT", "9999", "XYZ", "BKN040")))),
    ("remark", ("RMK OVC001 0100 29/29 BR", "RMK NIL", "RMK AO2 SLP132 WSHFT 30 60001 T02890011 $")),
)
TAF = (
    ("type", ("TAF",)),
    ("modifier", ("AMD", "COR")),
    ("station", ("PADK", "MROC", "KJFK", "QQQQ", "RPVM")),
    ("time", ("151130Z", "010000Z", "312359Z", "302400Z")),
    ("missing", ("NIL",)),
    ("valid", ("1512/1618", "0100/0124", "3124/0206", "1518/1518")),
    ("cancelled", ("CNL",)),
    ("wind", ("25035G50KT", "00000KT", "VRB03G15MPS", "36010MPS", "09120KT")),
    ("prevailing_visibility", ("5000", "CAVOK", "0000", "1 1/2SM", "P6SM", "2000NE")),
    ("weathers", ("-RA", "+FZFG", "VCTS", "NSW", "-RA BR", "SHSN FG DU", "TS")),
    ("clouds", ("BKN015", "OVC003CB", "VV001", "VV///", "NSC", "//////TCU", "FEW010 SCT020", "FEW100", "SCT020TCU BKN000 OVC050")),
    ("temperatures", ("TX29/1518Z", "TNM01/1606Z", "TX00/1515Z TN00/1606Z", "TN09/1600Z TX31/1615Z TN10/0106Z TXM09/3123Z")),
    ("junk", ("XX9Z", "9999 XYZ", "WS020/22050KT")),
    ("changes", ((("BECMG", "1514/1516", "CAVOK"),), (("FM151400", "VRB02KT", "0300", "FG", "VV001"),),
                 (("TEMPO", "1514/1518", "4000", "-SHRA", "XYZ"), ("PROB30", "1600/1604", "0100")),
                 (("PROB40 TEMPO", "1516/1517", "+TSRA", "OVC010CB"), ("FM151800", "9999"), ("TEMPO", "1520/1522", "BR"), ("FM160200", "NSC")),
                 (("BECMG",), ("TEMPO", "25015KT")))),
)
WORDS = {"trend": ("NOSIG", "TEMPO", "BECMG"), "change": ("FM151400", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO")}
# what may stand in a section besides its word
TREND = (("period", ("FM1300", "TL1400", "AT1330", "FM1300 TL1400")),) + tuple(
    s for s in METAR if s[0] in ("wind", "prevailing_visibility", "weathers", "clouds", "junk"))
CHANGE = (("period", ("1514/1516", "1600/1604")),) + tuple(
    s for s in TAF if s[0] in ("wind", "prevailing_visibility", "weathers", "clouds", "junk"))
QUANTITIES = ("wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "runway_ranges", "clouds", "temperatures",
              "pressure", "sea_state", "max_temperatures", "min_temperatures")


def words(v):
    """The groups of a choice: words which belong together stay so."""
    if v[:1] in (("",), ()) or isinstance(v, tuple):
        return v
    out = []
    ws = v.split(" ")
    i = 0
    while i < len(ws):
        n = 1
        if ws[i] == "WS":
            n = 3 if ws[i + 1] == "ALL" else 2
        elif i + 1 < len(ws) and ws[i].isdigit() and "/" in ws[i + 1] and ws[i + 1].endswith("SM"):
            n = 2
        out.append(" ".join(ws[i:i + n]))
        i += n
    return tuple(out)


def report_of(kind, chosen):
    """(body, sections, remark) of the chosen groups, a dictionary slot -> choice."""
    body, secs, remark = (), (), ""
    for slot, _ in METAR if kind == "metar" else TAF:
        if slot not in chosen:
            continue
        v = chosen[slot]
        if slot in ("trends", "changes"):
            secs = v
        elif slot == "remark":
            remark = v
        else:
            body += words(v)
    return body, secs, remark


def whole(kind, slots, wide, own, deep=True):
    """Every group of the property with every other group, alone and in an otherwise full report, and
    with every two others of a smaller choice."""
    base = {"type": slots[0][1][0], "station": "PADK", "time": dict(slots)["time"][0]}
    if kind == "taf":
        base["valid"] = "1512/1618"
    full = {s: vs[0] for s, vs in slots if s not in ("junk", "missing", "cancelled")}
    full["clouds"] = "FEW010 SCT020"
    small = {s: vs[:3] for s, vs in slots}
    mine = [s for s in slots if s[0] in own]
    for s, vs in mine:
        for v in wide.get(s, ()) or vs:
            yield dict(base, **{s: v})
            yield dict(full, **{s: v})
            yield {s: v}
            for t, ws in slots:
                if t == s:
                    continue
                for w in ws:
                    yield dict(base, **{s: v, t: w})
                    if w != full.get(t):
                        yield dict(full, **{s: v, t: w})
                # the report without them
                for b in (base, full):
                    if t in b:
                        d = dict(b, **{s: v})
                        del d[t]
                        yield d
        for v in small[s] + vs[3:7] if deep else ():
            for (t, _), (u, _) in itertools.combinations([x for x in slots if x[0] != s], 2):
                for w in small[t][-2:]:
                    for x in small[u][-2:]:
                        yield dict(base, **{s: v, t: w, u: x})
                d = dict(full, **{s: v})
                d.pop(t, None)
                d.pop(u, None)
                yield d


def sectional(kind, slots, wide, own):
    """The same of the groups of one section, in three places of a report."""
    places = (((), ()), ((("BECMG", "TL1330", "09005KT", "3000", "BR", "SCT003"),), ()), ((), (("TEMPO", "0100", "+SN", "OVC001"),))) \
        if kind == "trend" else (((), ()), ((("BECMG", "1513/1514", "09005KT", "3000", "BR", "SCT003"),), ()),
                                 ((("TEMPO", "1513/1514", "09005KT"),), (("PROB40", "1610/1612", "0100", "+SN", "OVC001"), ("TEMPO", "1612/1614"))))
    for word in WORDS[kind]:
        for before, after in places:
            if word == "NOSIG" and before:
                continue            # one section
            sl = [s for s in slots if not (s[0] == "period" and word.startswith("FM"))]
            for s, vs in sl:
                if s not in own:
                    continue
                for v in (wide.get(s, ()) or vs) if word in ("TEMPO", "FM151400") and not before else vs:
                    others = [x for x in sl if x[0] != s]
                    seen = set()
                    for t, ws in others:
                        for w in ws:
                            seen.add(tuple(sorted({s: v, t: w}.items())))
                    seen.add(((s, v),))
                    seen.add(tuple(sorted(dict({t: ws[0] for t, ws in others if t != "junk"}, **{s: v}).items())))
                    for (t, a), (u, b) in itertools.combinations(others, 2):
                        if v in vs:
                            for w in a[-2:]:
                                for x in b[-2:]:
                                    seen.add(tuple(sorted({s: v, t: w, u: x}.items())))
                    for c in sorted(seen):
                        c = dict(c)
                        sec = (word,)
                        for t, _ in sl:
                            if t in c:
                                sec += words(c[t])
                        yield before + (sec,) + after


BODIES = {"trend": (("METAR", "PADK", "151230Z", "36040KT", "0900", "-DZ", "OVC002"), ("METAR", "PADK", "151230Z", "CAVOK")),
          "change": (("TAF", "PADK", "151130Z", "1512/1618", "36040KT", "0900", "-DZ", "OVC002"),
                     ("TAF", "PADK", "151130Z", "1512/1618", "CAVOK", "TX29/1518Z", "TN09/1606Z"))}


def cases(own, wide, th, ctxs):
    def gen():
        for kind in ("metar", "taf"):
            if kind not in ctxs:
                continue
            slots = METAR if kind == "metar" else TAF
            for c in whole(kind, slots, wide, own):
                body, secs, remark = report_of(kind, c)
                if body and not (body[0][0].isdigit() and " " in body[0]):        # words at the very beginning are not joined
                    yield kind, body, secs, remark
        for kind in ("trend", "change"):
            if kind not in ctxs:
                continue
            for n, secs in enumerate(sectional(kind, TREND if kind == "trend" else CHANGE, wide, own)):
                for b in BODIES[kind] if th else BODIES[kind][n % 2:n % 2 + 1]:
                    yield ("metar" if kind == "trend" else "taf"), b, secs, ""
    return gen


def conditions(vis, clouds):
    """Every visibility with every list of layers, and every group of every other kind; in sections too."""
    def gen():
        for kind, slots in (("metar", METAR), ("taf", TAF)):
            base = {"type": slots[0][1][0], "station": "PADK", "time": dict(slots)["time"][0]}
            full = {s: vs[0] for s, vs in slots if s not in ("junk", "missing", "cancelled")}
            for v, c in itertools.product(vis, clouds):
                own = {k: x for k, x in (("prevailing_visibility", v), ("clouds", c)) if x}
                if v.startswith("////") and kind == "taf":
                    continue
                for b in (base, full):
                    b = {k: x for k, x in b.items() if k not in ("prevailing_visibility", "clouds")}
                    yield (kind,) + report_of(kind, dict(b, **own))
                    for t, ws in slots:
                        if t not in ("prevailing_visibility", "clouds"):
                            for w in ws + (() if t != "trends" else TREND_TEXTS):
                                yield (kind,) + report_of(kind, dict(b, **dict(own, **{t: w})))
        for kind, slots in (("trend", TREND), ("change", CHANGE)):
            for word in WORDS[kind]:
                for v, c in itertools.product(vis, clouds):
                    for t, ws in slots:
                        if t in ("prevailing_visibility", "clouds") or t == "period" and word.startswith("FM"):
                            continue
                        for w in ws:
                            if v.startswith("////") and kind == "change":
                                continue
                            sec = (word,)
                            for u, _ in slots:
                                x = {"prevailing_visibility": v, "clouds": c, t: w}.get(u)
                                if x:
                                    sec += words(x)
                            for b in BODIES[kind]:
                                yield ("metar" if kind == "trend" else "taf"), b, (sec,), ""
    return gen


TREND_TEXTS = ((("TEMPO", "FM1300", "0100", "OVC001"),),)


def reports(th):
    """Every two groups of different kinds, bare and in a full report; sections with every two groups."""
    def gen():
        seen = set()
        for kind, slots, sl in (("metar", METAR, TREND), ("taf", TAF, CHANGE)):
            for c in whole(kind, slots, {}, [s for s, _ in slots], th):
                body, secs, remark = report_of(kind, c)
                x = (kind, body, secs, remark)
                if body and x not in seen and not (body[0][0].isdigit() and " " in body[0]):
                    seen.add(x)
                    yield x
            name = "trend" if kind == "metar" else "change"
            for n, secs in enumerate(sectional(name, sl, {}, [s for s, _ in sl])):
                x = (kind, BODIES[name][n % 2], secs, "")
                if x not in seen:
                    seen.add(x)
                    yield x
    return gen


def judge(fields, base=None, more=None):
    """fields: what is compared, of the body and of the sections; base: the properties of a field which are,
    if not all; more(exp, report, st): further demands."""
    def f(case, st):
        kind, body, secs, remark = case
        body, secs = tuple(body), tuple(map(tuple, secs))
        if any(model.quirky(w) for w in body):
            return
        try:
            if kind == "metar":
                exp, paths = model.metar(body, secs, remark, Y, M)
                r = env.Metar(model.metar_text(body, secs, remark), year=Y, month=M)
            else:
                exp, paths = model.taf(body, secs, Y, M)
                r = env.Taf(model.taf_text(body, secs), year=Y, month=M)
        except ValueError:
            return              # no such date: C08, C16
        look(fields, base or {}, exp, r, st, "")
        if more:
            more(exp, r, st)
        es = exp["weather_trends" if kind == "metar" else "changes_forecasted"]
        os = (r.weather_trends if kind == "metar" else r.changes_forecasted).items
        if len(es) != len(os):
            need(len(es), len(os), "number of sections")
        for n, (e, o) in enumerate(zip(es, os)):
            look(fields, base or {}, e, o, st, "[%d]" % n)
        st.transitions += sum(len(p) - 1 for p in paths)
        st.state((kind, body, secs, remark))
    return f


def look(fields, base, e, o, st, where):
    for f in fields:
        if f not in e:
            continue
        if f == "flight_rules":
            got = o.flight_rules
        elif f == "should_be_cavok":
            got = o.should_be_cavok()
        elif f == "ceiling":
            got = o.clouds.ceiling
        elif f == "valid":
            got = obs.valid(o.valid)
        elif f == "indicator":
            got = (obs.trend if hasattr(o, "trend_indicator") else obs.change)(o)["indicator"]
        elif f == "windshear_names":
            got = list(o.windshears.names)
        elif f == "all_runways":
            got = o.windshears.all_runways
        elif f == "unparsed_groups":
            got = [g.replace("_", " ") for g in o.unparsed_groups]
        elif f in ("max_temperatures", "min_temperatures"):
            got = obs.tafs_temps(getattr(o, f))
        elif isinstance(e[f], list):
            got = obs.plist(f, getattr(o, f))
        else:
            got = obs.props("type" if f == "type_" else f, getattr(o, f))
        want = e[f]
        if f in base:
            want = [{k: x[k] for k in base[f]} for x in want] if isinstance(want, list) else {k: want[k] for k in base[f]}
        need(want, got, where + "." + f)
        st.outcome((f, obs.canon(got)))


def spread(ts, n):
    """Up to n of them, evenly."""
    ts = [t for t in ts if isinstance(t, str)]
    return tuple(ts[::max(1, len(ts) // n)]) if ts else ()


# characters which no group has ("=" and "_" are signs of the layout), and words which mean something to formats and patterns
SIGNS = tuple("!\"#$%&'()*,.:;<>?@[]\\^`{|}~") + tuple("°éñßµ½²Ķſ雨") + ("\u200b", "\ufeff", "\x00", "\x7f", "\U0001f327")
PATTERNS = ("{}", "{0}", "{code}", "%s", "%d", "%(x)s", "\\1", "\\g<0>", "\\n", "(?P<x>", ".*", "$", "^", "[", "\\", "&amp;", "'", "None", "null", "nan", "inf", "1e3")


def odd_words():
    for w in PATTERNS:
        yield w
    for c in SIGNS:
        yield c
        yield "X" + c
        yield c + "X"
        yield "X" + c + "9"
    for c in "+-/":
        yield "X" + c + "X"
    for w in ("25010KT", "9999", "-RA", "BKN030CB", "29/M01", "Q1013", "RERA", "R07/0800", "W15/S2", "NIL", "AUTO", "CAVOK", "PADK", "METAR", "TAF",
              "151230Z", "1512/1618", "TX10/1518Z", "070V130", "1200NE", "R07/490593", "NSW", "FM151400", "TEMPO", "RMK", "NOSIG", "PROB30", "RMK"):
        for v in (w.lower(), w[:1].lower() + w[1:], w.title(), w + "x"):
            if v != w:
                yield v
        for c in ".,:;()\"'$*°":
            yield w + c
            if w not in ("TEMPO", "RMK", "NOSIG", "PROB30"):
                yield c + w


def odd(kinds=("metar", "taf")):
    """Reports with a word of other characters at every kind of place."""
    def gen():
        seen = set()
        for w in odd_words():
            if w in seen:
                continue
            seen.add(w)
            resembles = w.startswith(("TEMPO", "BECMG", "NOSIG", "RMK", "PROB", "FM"))
            m = ("METAR", "PADK", "151230Z", "25010KT", "9999", "FEW010", "Q1013")
            t = ("TAF", "PADK", "151130Z", "1512/1618", "25010KT", "9999", "FEW010")
            for kind, b in (("metar", m), ("taf", t)):
                if kind not in kinds or resembles:
                    continue
                for i in (0, 2, 4, 7):
                    yield kind, b[:i] + (w,) + b[i:], (), ""
                yield kind, b[:3] + (w,) + b[3:5] + (w,), (), ""
                s = ("TEMPO", "0800", "FG") if kind == "metar" else ("TEMPO", "1514/1516", "0800", "FG")
                yield kind, b, (s + (w,),), ""
                yield kind, b, (s[:-1] + (w, "FG", "OVC001"), ("BECMG", w) if kind == "metar" else ("BECMG", "1516/1518", w)), ""
                if kind == "metar":
                    for rmk in (w, w + " AO2", "AO2 " + w + " SLP", "AO2 " + w):
                        yield kind, b, (), "RMK " + rmk
                        yield kind, b, (s,), "RMK " + rmk
    return gen


ODD = "%d words of other characters (signs, small and foreign letters, words which mean something to patterns and formats) at every kind of place" % len(set(odd_words()))

LISTS = {
    "runway_ranges": (3, ("R07/0800", "R08/1000FT", "R25L/P1500N", "R88/M0050V0350D", "R07/1200FT/U", "R99/0600V1000FT")),
    "weathers": (3, ("-RA", "BR", "+TSRAGR", "VCFG", "NSW", "FZDZ", "BLSN", "SQ")),
    "clouds": (4, ("FEW010", "BKN014", "OVC///", "VV001", "SCT050TCU", "NSC", "BKN020CB")),
    "windshears": (3, ("WS R07", "WS ALL RWY", "WS R25L", "WS R07C", "WS R34R")),
}


def full_lists(names=tuple(LISTS)):
    """Every list of groups of one kind which is as long as it may be, in every place."""
    def gen():
        head = {"metar": ("METAR", "PADK", "151230Z", "25010KT", "3000"), "taf": ("TAF", "PADK", "151130Z", "1512/1618", "25010KT", "3000")}
        tail = {"metar": ("10/09", "Q1013"), "taf": ("TX10/1518Z",)}
        for f in names:
            n, ts = LISTS[f]
            for v in itertools.product(ts, repeat=n):
                yield "metar", head["metar"][:2] + v, (), ""
                yield "metar", head["metar"] + (v + tail["metar"] if f != "windshears" else tail["metar"] + v), (("TEMPO", "0800", "FG", "OVC001"),), ""
                if f not in ("weathers", "clouds"):
                    continue
                yield "taf", head["taf"] + v + tail["taf"], (), ""
                yield "metar", head["metar"] + ("FEW005",), (("BECMG", "TL1330") + v,), ""
                yield "taf", head["taf"] + ("FEW005",), (("FM151400", "9999") + v, ("TEMPO", "1516/1518", "0800", "FG", "OVC001")), ""
    return gen


FULL_LISTS = "every list of ranges, weathers, layers or wind shears of the greatest length, over %s groups, in bodies and sections" % (
    "/".join(str(len(ts)) for _, ts in LISTS.values()))


def lists_family(fields, names=tuple(LISTS), base=None):
    return Family("full-lists", full_lists(names), judge(fields, base), FULL_LISTS)


def family(th, fields, own, wide=None, ctxs=("metar", "taf", "trend", "change"), name="company", base=None, more=None):
    return Family(name, cases(own, wide or {}, th, ctxs), judge(fields, base, more),
                  "every group of %s with every group of every other kind, bare and in a full report, and with those of every two others; "
                  "in sections likewise" % ", ".join(own))
