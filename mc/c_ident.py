"""C28, C29: stations; type, modifier, NIL and CNL."""
import gzip
import itertools
import json
import os

import company
import env
import model
import obs
import ref
from common import CHARS, T_METAR, T_TAF, build, mutations, need, track
from engine import Family, check

HERE = os.path.dirname(os.path.abspath(__file__))
FIELDS = ("name", "icao", "iata", "synop", "latitude", "longitude", "elevation")


def load(name):
    with gzip.open(os.path.join(HERE, name)) as f:
        return json.loads(f.read())


class Table:
    """The snapshots of the station and country tables."""
    rows = None

    def __init__(self):
        if Table.rows is None:
            Table.rows = load("stations.json.gz")
            Table.countries = load("countries.json.gz")
            Table.by = [{} for _ in range(4)]
            for r in Table.rows:
                for i in (1, 2, 3):
                    if r[i] != "None":
                        Table.by[i].setdefault(r[i], []).append(r)

    def props(self, code, row):
        d = dict(zip(FIELDS, row[:7])) if row else dict.fromkeys(FIELDS)
        d["country"] = self.countries.get(row[7]) if row else None
        d["code"] = code
        return d

    def want(self, code, kind=1):
        """The possible station groups for the code."""
        return [self.props(code, r) for r in self.by[kind].get(code, [None])]


# ----------------------------------------------------------------- stations (C28)
FORMS = (("metar", "METAR %s 151130Z 09014KT 9999"), ("taf", "TAF %s 151130Z 1512/1612 09014KT 9999"),
         ("metar", "SPECI COR %s 151130Z"), ("metar", "%s 151130Z AUTO"), ("taf", "TAF AMD %s 151130Z NIL"),
         ("taf", "%s 151130Z 1512/1612 CNL"), ("metar", "METAR %s="), ("taf", "%s"))


def j_station(case, st):
    """The station group of a report with this code, alone and next to another report."""
    form, code, other = case
    t = Table()
    kind, pat = FORMS[form]
    if (kind, form) == ("metar", 2):
        pat = "SPECI %s 151130Z COR"
    r = build(kind, pat % code)
    if other:
        o = build(FORMS[1 - form][0], FORMS[1 - form][1] % other)
    got = obs.props("station", r.station)
    st.transitions += 1
    st.states.add(hash((form, code)))
    st.outcomes.add(hash(obs.canon(got)))
    need_one(t.want(code), got, "station of %s" % code)
    d = r.station.as_dict()
    need_one(t.want(code), d, "dictionary of the station")
    s = str(r.station)
    w = t.want(code)[0]
    if w["name"] is not None:
        for f in ("name", "latitude", "longitude", "elevation", "country"):
            if w[f] is not None and w[f] not in s:
                return [(None, "text %r of station %s does not state %s %r" % (s, code, f, w[f]))]
    if other:
        need_one(t.want(other), obs.props("station", o.station), "station of %s after %s" % (other, code))
        need_one(t.want(code), obs.props("station", r.station), "station of %s before %s" % (code, other))


def need_one(wants, got, what):
    if got not in wants:
        need(wants[0], got, what)


def codes():
    return sorted(Table().by[1])


def known_codes(forms):
    def gen():
        cs = codes()
        for f in forms:
            for i, c in enumerate(cs):
                if f < 2:
                    yield f, c, cs[(i * 7919 + 1) % len(cs)]
                else:
                    yield f, c, None
    return gen


def acceptable(c):
    return ref.station(c) is not None and ref.rtype(c) is None and ref.modifier(c) is None \
        and not c.startswith("RMK") and not ref.taf_indicator(c)


def unknown(bases, k):
    """Codes one character away from a station's."""
    def gen():
        t, seen = Table(), set()
        for b in bases() if callable(bases) else bases:
            for i in range(4):
                for c in CHARS[:36]:
                    m = b[:i] + c + b[i + 1:]
                    if m not in seen and m not in t.by[1] and acceptable(m):
                        seen.add(m)
                        yield k, m, None
    return gen


def j_kind(case, st):
    """Look-up by another kind of identifier."""
    kind, code = case
    t = Table()
    from aeromet_py.reports.models.base import Station
    s = Station(code, {1: "ICAO", 2: "IATA", 3: "SYNOP"}[kind])
    st.transitions += 1
    st.states.add(hash(case))
    got = obs.props("station", s)
    st.outcomes.add(hash(obs.canon(got)))
    need_one(t.want(code, kind), got, "station %s" % code)


def kinds():
    t = Table()
    for k in (2, 3):
        for c in sorted(t.by[k]):
            yield k, c
        for c in sorted(t.by[1])[::40]:
            yield k, c
    for c in sorted(t.by[3])[::40] + sorted(t.by[2])[::40]:
        if c not in t.by[1]:
            yield 1, c


def unknown_kinds(step):
    """Identifiers which are not in the table: near to one, a part of one, or one of another form."""
    t, seen = Table(), set()

    def near(k, c, full):
        yield c.lstrip("0")
        yield c.lower()
        yield " " + c
        yield c + " "
        for x in "0A":
            yield x + c
            yield c + x
        for i in range(len(c)):
            yield c[:i] + c[i + 1:]
            for x in CHARS[:36] if full else "0" if c[i] != "0" else "1":
                yield c[:i] + x + c[i + 1:]
    for k in (2, 3):
        for n, c in enumerate(sorted(t.by[k])):
            for m in near(k, c, n % step == 0):
                if m and m != "None" and m not in t.by[k] and (k, m) not in seen:
                    seen.add((k, m))
                    yield k, m


def station_in_company(exp, r, st):
    code = exp["station"]["code"]
    got = obs.props("station", r.station)
    need_one(Table().want(code) if code else [Table().props(None, None)], got, "station")
    st.outcome(obs.canon(got))


@check("C28")
def c28(tier):
    th = tier == "thorough"
    cs = codes()
    return [
        Family("table", known_codes(range(len(FORMS)) if th else (0, 1)), j_station,
               "all %d stations of the table, in METARs and TAFs, each next to a report of another station" % len(cs)),
        Family("unknown", unknown(cs if th else cs[::60] + ["PADK", "MROC"], 0), j_station,
               "all unknown codes one character away from %s station" % ("any" if th else "every 60th")),
        Family("unknown, TAF", unknown(cs[::20] if th else cs[::300], 1), j_station,
               "all unknown codes one character away from every %s station, in TAFs" % ("20th" if th else "300th")),
        Family("identifiers", kinds, j_kind, "all IATA and SYNOP identifiers of the table, and codes of another kind"),
        Family("unknown identifiers", lambda: unknown_kinds(1 if th else 200), j_kind,
               "for every IATA and SYNOP identifier those of its parts, extensions, and neighbours which are in no row"),
        company.family(th, [], ("station",), {"station": cs[::len(cs) // 60] + ["PADK", "RPVM", "QQQQ", "AAAA", "MRO1", "ZZZZ"]},
                       ctxs=("metar", "taf"), more=station_in_company),
    ]


# ------------------------------------------------------- type, modifier, NIL, CNL (C29)
def j_ident(case, st):
    kind, toks = case
    exp, path = (model.metar if kind == "metar" else model.taf)(toks)
    paths = path
    r = build(kind, " ".join(toks))
    fs = ("type_", "modifier") + (("missing", "cancelled") if kind == "taf" else ())
    for f in fs:
        want, got = exp[f], obs.props("type" if f == "type_" else f, getattr(r, f))
        need(want, got, f)
        need(want, obs.props("type" if f == "type_" else f, getattr(r, f)), f + " again")
        st.outcomes.add(hash((f, obs.canon(got))))
    need([g.replace("_", " ") for g in exp["unparsed_groups"]], list(r.unparsed_groups), "unparsed_groups")
    text = str(r)
    m = exp["modifier"]["description"]
    lines = text.split("\n")
    for d in ("correction", "amendment", "missing report", "automatic report", "testing report"):
        present = (m or "").lower() == d or (kind == "taf" and exp["missing"]["is_missing"] and d == "missing report")
        if present != (d in lines):
            return [(None, "text %r %s %r" % (text, "does not state" if present else "states", d))]
    if kind == "taf" and exp["cancelled"]["is_cancelled"] != ("cancelled" in lines):
        return [(None, "text %r of a TAF with cancelled %s" % (text, exp["cancelled"]))]
    if ("type" in [f for f, t in exp["order"]]) != (exp["type_"]["type_"] + " (" + exp["type_"]["code"] + ")" in lines):
        return [(None, "text %r does not state the type %s" % (text, exp["type_"]))]
    for p in paths if isinstance(paths, list) else [paths]:
        for q in p:
            st.states.add(hash((kind, q, toks)))
    st.transitions += len(toks)


MODS = ("COR", "CORR", "AMD", "NIL", "AUTO", "TEST", "FINO", "CNL")
REST_M = ((), ("09014KT", "9999", "FEW010"), ("NIL",))


def combos_metar():
    for t in ((), ("METAR",), ("SPECI",), ("TAF",)):
        for s in (("PADK",), ()):
            for z in (("151130Z",), ()):
                for n in range(3):
                    for m in itertools.product(MODS, repeat=n):
                        for rest in REST_M:
                            if t + s + z + m + rest:
                                yield "metar", t + s + z + m + rest
                for m in MODS[:3]:
                    yield "metar", t + (m,) + s + z
                    yield "metar", t + s + (m,) + z


def combos_taf():
    for t in ((), ("METAR",), ("SPECI",), ("TAF",)):
        for m in ((),) + tuple((x,) for x in MODS):
            for s in (("PADK",), ()):
                for z in (("151130Z",), ()):
                    for nil in ((), ("NIL",), ("NIL", "NIL"), ("CNL",), ("AMD",)):
                        for v in ((), ("1512/1612",)):
                            for cnl in ((), ("CNL",), ("CNL", "CNL"), ("NIL",), ("COR",)):
                                for rest in ((), ("09014KT", "9999"), ("CAVOK", "CNL"), ("NSW", "NIL")):
                                    if t + m + s + z + nil + v + cnl + rest:
                                        yield "taf", t + m + s + z + nil + v + cnl + rest


def near(thorough):
    """Every text near each word, at its place."""
    for w in ("METAR", "SPECI", "TAF"):
        for m in mutations(w, CHARS):
            if safe(m):
                yield "metar", (m, "PADK", "151130Z", "AUTO", "9999")
                yield "taf", (m, "PADK", "151130Z", "1512/1612", "9999")
    for w in MODS[:7]:
        for m in mutations(w, CHARS if thorough else CHARS[:26]):
            if safe(m):
                yield "metar", ("METAR", "PADK", "151130Z", m, "CAVOK")
    for w in ("COR", "AMD"):
        for m in mutations(w, CHARS):
            if safe(m):
                yield "taf", ("TAF", m, "PADK", "151130Z", "1512/1612", "CAVOK")
    for w in ("NIL", "CNL"):
        for m in mutations(w, CHARS):
            if safe(m):
                yield "taf", ("TAF", "PADK", "151130Z", m)
                yield "taf", ("TAF", "PADK", "151130Z", "1512/1612", m, "9999")


def words(n):
    """Every word of capital letters up to a length, in place of a modifier."""
    def gen():
        for k in range(1, n + 1):
            for w in itertools.product(ref.UPPER, repeat=k):
                w = "".join(w)
                if safe(w):
                    yield "metar", ("METAR", "PADK", "151130Z", w)
                    yield "taf", ("TAF", w, "PADK", "151130Z")
                    yield "taf", ("TAF", "PADK", "151130Z", w)
                    yield "taf", ("TAF", "PADK", "151130Z", "1512/1612", w)
    return gen


def safe(m):
    """Not a word, nor the beginning of one, which starts a section."""
    return not model.quirky(m) and not any(m.startswith(w) for w in (
        "RMK", "TEMPO", "BECMG", "NOSIG", "FM", "PROB"))


@check("C29")
def c29(tier):
    th = tier == "thorough"
    return [
        Family("METAR", combos_metar, j_ident, "all combinations of types, up to two modifiers and further groups"),
        Family("TAF", combos_taf, j_ident, "all combinations of types, modifiers, NIL and CNL at and off their places"),
        Family("near misses", lambda: near(th), j_ident, "all texts one character away from every word, at its place"),
        Family("words", words(4 if th else 3), j_ident, "all words of up to %d capital letters at the places of modifiers, "
               "NIL and CNL" % (4 if th else 3)),
        company.family(th, ["type_", "modifier", "missing", "cancelled"], ("type", "modifier", "missing", "cancelled"), {
            "type": ("METAR", "SPECI", "TAF"), "modifier": ("AUTO", "COR", "CORR", "NIL", "AMD", "TEST", "FINO")}, ctxs=("metar", "taf")),
    ]
