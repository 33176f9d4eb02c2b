"""C09-C15: the value of every kind of group, over complete products of its parts,
in every section where it may stand."""
import itertools
import re

import company
import env
import model
import obs
import ref
from common import (CHANGES, CHARS, M, T_METAR, T_TAF, Y, build, despace, mutations, need, pick,
                    track)
from engine import Family, Problem, check

TRENDS = ("trend", "trend2", "nosig", "becmg")
D2 = ["%02d" % i for i in range(100)]
D3 = ["%03d" % i for i in range(1000)]
D4 = ["%04d" % i for i in range(10000)]


def sections_of(ctx, tok, pre=()):
    """(kind, body, sections) of the report which carries the group in a context."""
    pre = tuple(pre)
    if ctx == "body":
        return "metar", T_METAR + pre + (tok,), ()
    if ctx == "trend":
        return "metar", T_METAR, (("TEMPO",) + pre + (tok,),)
    if ctx == "nosig":
        return "metar", T_METAR, (("NOSIG",) + pre + (tok,),)
    if ctx == "becmg":
        return "metar", T_METAR, (("TEMPO", "FM1300", "0500"), ("BECMG",) + pre + (tok,))
    if ctx == "trend2":
        return "metar", T_METAR, (("TEMPO", "FM1300"), ("BECMG", "TL1400") + pre + (tok,))
    if ctx == "taf":
        return "taf", T_TAF + pre + (tok,), ()
    i = int(ctx[len("change"):])
    return "taf", T_TAF, CHANGES[:i] + (CHANGES[i] + pre + (tok,),)


def expected(kind, body, secs):
    return model.metar(body, secs) if kind == "metar" else model.taf(body, secs)


def text_of(kind, body, secs):
    return (model.metar_text if kind == "metar" else model.taf_text)(body, secs)


def where(kind, ctx, d):
    if ctx in TRENDS:
        return d["weather_trends"][-1]
    if ctx.startswith("change"):
        return d["changes_forecasted"][-1]
    return d


def where_obj(ctx, r):
    if ctx in TRENDS:
        return r.weather_trends.items[-1]
    if ctx.startswith("change"):
        return r.changes_forecasted.items[-1]
    return r


def values(fields, base=None):
    """Judge: the fields of the group in its section have the expected values.

    fields: the names of the fields compared; base restricts the properties of a
    field which are compared (None: all of them)."""
    def judge(case, st):
        ctx, tok = case[0], case[1]
        pre = case[2] if len(case) > 2 else ()
        if model.quirky(tok):
            return
        kind, body, secs = sections_of(ctx, tok, pre)
        exp, paths = expected(kind, body, secs)
        st.transitions += sum(len(p) - 1 for p in paths)
        e = where(kind, ctx, exp)
        r = build(kind, text_of(kind, body, secs))
        o = where_obj(ctx, r)
        for f in fields:
            if f not in e:
                continue
            want = e[f]
            if isinstance(want, list):
                got = obs.plist(f, getattr(o, f))
            elif isinstance(want, dict):
                got = obs.props(f, getattr(o, f))
            elif f == "should_be_cavok":
                got = o.should_be_cavok()
            elif f == "ceiling":
                got = o.clouds.ceiling
            elif f == "unparsed_groups":
                got = despace(o.unparsed_groups)
            else:
                got = getattr(o, f)
            if base is not None:
                names = base.get(f)
                if names is not None:
                    cut = lambda g: {k: g[k] for k in names}
                    want = [cut(g) for g in want] if isinstance(want, list) else cut(want)
                    got = [cut(g) for g in got] if isinstance(got, list) else cut(got)
            need(want, got, "%s.%s" % (ctx, f))
            s = obs.canon(want)
            st.states.add(hash((f, s)))
            st.outcomes.add(hash(obs.canon(got)))
    return judge


def cross(contexts, toks, pre=()):
    def gen():
        for ctx in contexts:
            for t in toks():
                yield (ctx, t, tuple(pre)) if pre else (ctx, t)
    return gen


def shapes(contexts, reps, chars=CHARS, pre=(), ops="rid", twice=False):
    """Every text one (two) characters away from the representatives."""
    def gen():
        seen = set()
        for t in reps:
            for u in [t] + mutations(t, chars, ops):
                seen.add(u)
                if twice:
                    seen.update(mutations(u, chars, ops))
        for ctx in contexts:
            for u in sorted(seen):
                yield (ctx, u, tuple(pre)) if pre else (ctx, u)
    return gen


def pieces(contexts, slots, chars, pre=()):
    """Every choice of the parts of a group, then every part of it left out, repeated,
    exchanged with its neighbour or followed by another, and every character away."""
    def gen():
        seen, alts = set(), [a for s in slots for a in s if a]
        for c in itertools.product(*slots):
            c = [x for x in c if x]
            for i in range(len(c)):
                for v in (c[:i] + c[i + 1:], c[:i] + [c[i]] + c[i:], c[:i] + c[i:i + 2][::-1] + c[i + 2:]):
                    seen.add("".join(v))
                for a in alts:
                    seen.add("".join(c[:i + 1] + [a] + c[i + 1:]))
                    seen.add("".join(c[:i] + [a] + c[i + 1:]))
            t = "".join(c)
            seen.add(t)
            seen.update(mutations(t, chars, "rid"))
        seen.discard("")
        for ctx in contexts:
            for u in sorted(seen):
                yield (ctx, u, tuple(pre)) if pre else (ctx, u)
    return gen


def wide():
    import c_order
    return c_order.wide()


# ------------------------------------------------------------------ C09 wind
DIRS = ["%03d" % (10 * i) for i in range(37)]
ALLDIRS = ["%03d" % i for i in range(0, 400)]
ALLCTX = ("body", "trend", "taf", "change0", "change1")
EVERYCTX = ALLCTX + ("nosig", "becmg", "trend2", "change2", "change3", "change4")
WIND_BASE = {"wind": ["code", "cardinal_direction", "variable", "direction_in_degrees",
                      "speed_in_knot", "gust_in_knot"],
             "wind_variation": ["code", "from_cardinal_direction", "from_in_degrees",
                                "to_cardinal_direction", "to_in_degrees"]}


def winds_quick():
    for d in DIRS + ["VRB", "///"]:
        for s in D2 + ["//", "///"]:
            yield d + s + "KT"
        for s in ("05", "12", "100", "007"):
            for g in ("", "G15", "G07", "G120", "GP49"):
                for u in ("KT", "MPS"):
                    yield d + s + g + u
                    yield d + "P" + s + g + u


def winds_speed():
    for d in ("000", "250", "VRB"):
        for s in D2 + D3:
            for u in ("KT", "MPS"):
                yield d + s + u
        for g in D2 + D3:
            for u in ("KT", "MPS"):
                yield d + "10G" + g + u


def winds_pairs():
    for s in D2:
        for g in D2:
            for u in ("KT", "MPS"):
                yield "090" + s + "G" + g + u


def winds_full():
    for d in DIRS + ["VRB", "///"]:
        for s in D2:
            for g in [""] + ["G" + x for x in D2]:
                for u in ("KT", "MPS"):
                    yield d + s + g + u


def variations():
    for a in ALLDIRS:
        for b in (DIRS if int(a) % 10 == 0 else ["180", "250"]):
            yield a + "V" + b
    for b in ALLDIRS:
        yield "090V" + b


WINDS_REP = ["09014KT", "VRB03G15KT", "/////KT", "360P49MPS", "250//KT", "00000KT", "12012GP30MPS",
             "070100G120KT"]


@check("C09")
def c09(tier):
    j = values(["wind"], WIND_BASE)
    jv = values(["wind_variation"], WIND_BASE)
    th = tier == "thorough"
    fams = [
        company.family(th, ["wind", "wind_variation"], ("wind", "wind_variation",), wide(), base=WIND_BASE),
        Family("directions-units", cross(ALLCTX, winds_quick), j,
               "39 directions x 102 speeds, and x 4 speeds x 5 gusts x 2 units x P, in 5 sections"),
        Family("speeds-gusts", cross(ALLCTX if th else ("body", "change0"), winds_speed), j,
               "every 2 and 3 digit speed and gust, 3 directions, 2 units"),
        Family("speed-gust-pairs", cross(ALLCTX if th else ("body",), winds_pairs), j,
               "100 speeds x 100 gusts x 2 units"),
        Family("wind-shapes", shapes(EVERYCTX, WINDS_REP, twice=False), j,
               "every text one character away from 8 wind groups, in 11 sections"),
        Family("wind-pieces", pieces(ALLCTX if th else ("body", "taf"), (
            ("090", "VRB", "///"), ("", "P"), ("05", "100", "//", "///"), ("", "G"), ("", "P"), ("", "15", "120"),
            ("KT", "MPS")), "/0GPV"), j,
            "every choice of the parts of a wind group; a part left out, repeated, moved, added; a character away"),
        Family("variations", cross(("body",), variations), jv,
               "400 x 37 from/to directions"),
        Family("variations-after-wind", cross(("body",), variations), values(
            ["wind", "wind_variation"], WIND_BASE), "the same") if th else
        Family("variation-shapes", shapes(("body",), ["070V130", "350V010"]), jv,
               "every text one character away from 2 variation groups"),
    ]
    if th:
        fams.append(Family("winds-complete", cross(("body", "taf"), winds_full), j,
                           "39 directions x 100 speeds x 101 gusts x 2 units"))
        fams.append(Family("wind-shapes-2", shapes(("body", "taf"), ["09014KT", "VRB03G15MPS"],
                                                   "09/VRBGPKTMSZ", twice=True), j,
                           "every text two characters away from 2 wind groups"))
    return fams


# ------------------------------------------------------------------ C10 visibility
VIS_BASE = {f: ["code", "in_meters", "cardinal_direction", "direction_in_degrees"]
            for f in ("minimum_visibility",)}
VIS_BASE["prevailing_visibility"] = VIS_BASE["minimum_visibility"] + ["cavok"]
COMPASS = ["", "N", "NE", "E", "SE", "S", "SW", "W", "NW"]


def vis_four():
    for d in D4:
        yield d
    for d in COMPASS:
        yield "////" + d
        for v in range(0, 10000, 50):
            yield "%04d" % v + d
        yield "9999" + d


def vis_miles():
    fr = ["%d/%d" % (a, b) for a in range(10) for b in range(10)]
    for u in ("SM", "KM"):
        for p in ("", "M", "P"):
            for i in [str(x) for x in range(100)] + D2:
                yield p + i + u
            for f in fr:
                yield p + f + u


def vis_mixed():
    for i in list(map(str, range(0, 100))) + D2[:10]:
        for a in range(1, 10):
            for b in (2, 4, 8, 3, 9, 0):
                yield "%s %d/%dSM" % (i, a, b)


def vis_two():
    """a prevailing and a minimum visibility"""
    for a in ["%04d" % v for v in range(0, 10000, 500)] + ["9999", "////", "CAVOK", "10SM"]:
        for d1 in COMPASS:
            for b in ("0000", "0300", "1200", "5000", "9999", "////"):
                for d2 in COMPASS:
                    if not (d1 and a in ("CAVOK", "10SM")):
                        yield (a + d1, b + d2)


def vis_min():
    for t in vis_four():
        yield t


def second(gen):
    """The group is the last one; those before it precede it in the section."""
    def g():
        for a, b in gen():
            yield ("body", b, (a,))
    return g


@check("C10")
def c10(tier):
    th = tier == "thorough"
    j = values(["prevailing_visibility"], VIS_BASE)
    jm = values(["prevailing_visibility", "minimum_visibility"], VIS_BASE)
    ctx = ALLCTX
    return [
        company.family(th, ["prevailing_visibility", "minimum_visibility"], ("prevailing_visibility", "minimum_visibility",), wide(), base=VIS_BASE),
        Family("meters", cross(ctx if th else ("body", "taf", "change0"), vis_four), j,
               "all 10000 four digit groups, and 201 values x 9 directions"),
        Family("meters-trend", cross(("trend", "change1"), lambda: (
            "%04d" % v + d for v in range(0, 10000, 100) for d in COMPASS)), j,
            "100 values x 9 directions"),
        Family("miles-kilometers", cross(ctx, vis_miles), j,
               "SM/KM x M/P x (200 integers, 100 fractions), in 5 sections"),
        Family("mixed-miles", cross(EVERYCTX, vis_mixed), j,
               "110 integers x 54 fractions, in 11 sections"),
        Family("prevailing-minimum", second(vis_two), jm,
               "192 prevailing x 54 minimum visibilities"),
        Family("minimum", cross(("body",), vis_min, pre=("CAVOK",)), jm,
               "all 10000 four digit groups, and 201 values x 9 directions, as minimum"),
        Family("shapes", shapes(EVERYCTX, ["9999", "CAVOK", "10SM", "P6SM", "1/2SM", "0800NE", "1500S",
                                      "////", "5KM", "M1/4SM"]), j,
               "every text one character away from 10 visibilities, in 11 sections"),
        Family("pieces", pieces(ALLCTX if th else ("body", "taf", "change0"), (
            ("1200", "////", "9999", "CAVOK"), ("", "N", "S"), ("", "E", "W"), ("", "NDV", "KT")), "/0NM"), j,
            "every choice of the parts of a visibility; a part left out, repeated, moved, added; a character away"),
        Family("pieces-miles", pieces(ALLCTX if th else ("body", "trend", "taf"), (
            ("", "M", "P"), ("", "3", "10"), ("", "1/4", "2/3"), ("SM", "KM")), "/0MP1"), j, "the same, with miles"),
        Family("minimum-pieces", pieces(("body",), (
            ("1200", "////"), ("", "N", "S"), ("", "E", "W"), ("", "NDV")), "/0N", pre=("9999",)), jm,
            "the same, of a minimum visibility"),
        Family("minimum-shapes", shapes(("body",), ["1200", "0800NE", "////SW", "1500S"],
                                        pre=("9999",)), jm,
               "every text one character away from 4 minimum visibilities"),
    ]


# ------------------------------------------------------------------ C11 clouds
COVERS = ["VV", "CLR", "SKC", "NSC", "NCD", "BKN", "SCT", "FEW", "OVC", "0VC", "///"]
CTYPES = ["", "CB", "TCU", "///"]
CLOUD_BASE = {"clouds": ["code", "cover", "oktas", "cloud_type", "height_in_feet",
                         "height_in_meters"]}


def clouds_all():
    for c in COVERS:
        for h in D3 + ["", "///"]:
            for t in CTYPES:
                yield c + h + t


LAYERS = ["FEW005", "SCT015", "BKN015", "BKN016", "OVC014", "OVC015CB", "BKN///", "VV001", "VV///",
          "NSC", "///015", "//////CB", "OVC///", "FEW030TCU", "BKN100", "SCT010"]


def layer_lists(n):
    def gen():
        for k in range(1, n + 1):
            for c in itertools.product(LAYERS, repeat=k):
                yield ("body" if k > 2 else "change0", c[-1], c[:-1])
    return gen


def layers_in(ctxs, n):
    def gen():
        for ctx in ctxs:
            for k in range(1, n + 1):
                for c in itertools.product(LAYERS, repeat=k):
                    yield (ctx, c[-1], c[:-1])
    return gen


@check("C11")
def c11(tier):
    th = tier == "thorough"
    j = values(["clouds", "ceiling"], CLOUD_BASE)
    return [
        company.family(th, ["clouds", "ceiling"], ("clouds",), wide(), base=CLOUD_BASE),
        company.lists_family(["clouds", "ceiling"], ("clouds",), base=CLOUD_BASE),
        Family("layers", cross(ALLCTX if th else ("body", "change0"), clouds_all), j,
               "11 covers x 1002 heights x 4 types"),
        Family("layers-sections", cross(ALLCTX, lambda: (
            c + h + t for c in COVERS for h in ("", "///", "000", "001", "010", "014", "015", "016",
                                                "049", "050", "100", "250", "999") for t in CTYPES)),
            j, "11 covers x 13 heights x 4 types, in 5 sections"),
        Family("layer-lists", layers_in(ALLCTX if th else ("body", "taf"), 3), j,
               "all sequences of up to 3 of 16 layers"),
        Family("layer-lists-4", layers_in(("body", "trend", "taf", "change0") if th else (), 4)
               if th else layers_in(("body",), 2), j,
               "all sequences of up to %d of 16 layers" % (4 if th else 2)),
        Family("four-layers", lambda: (("body", c[3], c[:3]) for c in itertools.product(
            LAYERS[:10] if not th else LAYERS, repeat=4)), j, "all sequences of 4 of 10 layers"),
        Family("ceiling-heights", lambda: ((x, c + h, p) for x in ALLCTX for c in ("BKN", "OVC", "SCT", "VV")
                                           for h in D3[:60] for p in ((), ("FEW010",), ("BKN020", "FEW003"))),
               j, "4 covers x 60 heights after 0, 1 and 2 layers, in 5 sections"),
        Family("shapes", shapes(EVERYCTX, ["BKN015", "OVC010CB", "FEW020TCU", "VV001", "//////CB",
                                         "///", "NSC", "SCT///", "0VC100"]), j,
               "every text one character away from 9 layers, in 11 sections"),
        Family("pieces", pieces(ALLCTX if th else ("body", "change0"), (
            ("FEW", "BKN", "OVC", "0VC", "VV", "NSC", "CLR", "///"), ("", "010", "///"), ("", "CB", "TCU", "///")), "/0C"), j,
            "every choice of the parts of a layer; a part left out, repeated, moved, added; a character away"),
    ]


# ------------------------------------------------------------------ C12 weather
def weathers_all():
    obscs = list(ref.PRECIPITATION) + list(ref.OBSCURATION) + list(ref.OTHER) + [""]
    for i in [""] + list(ref.INTENSITY):
        for d in [""] + list(ref.DESCRIPTION):
            for p in obscs:
                t = i + d + p
                if t and t not in ("-", "+"):
                    yield t


def compounds():
    parts = list(ref.DESCRIPTION) + list(ref.PRECIPITATION) + list(ref.OBSCURATION) + list(ref.OTHER)
    for i in ("", "-", "+", "VC", "-VC", "+VC", "--", "RE"):
        for a in parts:
            for b in parts:
                yield i + a + b
                if i in ("", "-"):
                    yield i + a + "-" + b
                    yield i + a + "+" + b
                    yield i + a + "VC" + b
                    yield i + a + "/" + b


def two_letter():
    L = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for a in L:
        for b in L:
            yield a + b


def recents():
    for d in [""] + list(ref.DESCRIPTION):
        for p in [""] + list(ref.PRECIPITATION):
            for o in [""] + list(ref.OBSCURATION):
                for x in [""] + list(ref.OTHER):
                    if d + p + o + x:
                        yield "RE" + d + p + o + x


WX = ["-RA", "+TSRA", "VCSH", "BR", "FZFG", "-SHSN", "DZ", "SQ", "NSW", "VCTS", "+FC", "BLSN", "TS"]


@check("C12")
def c12(tier):
    j = values(["weathers"])
    jr = values(["recent_weather"])
    return [
        company.family(tier == "thorough", ["weathers", "recent_weather"], ("weathers", "recent_weather",), wide()),
        company.lists_family(["weathers"], ("weathers",)),
        Family("weathers", cross(ALLCTX, weathers_all), j,
               "6 intensities x 9 descriptors x 24 phenomena, in 5 sections"),
        Family("two-letters", cross(ALLCTX, lambda: (i + t for t in two_letter() for i in ("", "-", "SH", "VC"))),
               j, "676 two letter codes x 4 prefixes, in 5 sections"),
        Family("lists", lambda: ((x, c[-1], c[:-1]) for x in ALLCTX for k in (1, 2, 3)
                                 for c in itertools.product(WX if tier == "thorough" else WX[:9], repeat=k)),
               j, "all sequences of up to 3 of 9 weathers, in 5 sections"),
        Family("recent", cross(("body",), recents), jr, "9 x 10 x 9 x 7 recent weathers"),
        Family("recent-letters", cross(("body",), lambda: ("RE" + d + t for t in two_letter() for d in ("", "TS", "SH", "RA"))),
               jr, "676 two letter codes x 4 prefixes"),
        Family("shapes", shapes(EVERYCTX, ["-RA", "+TSRA", "VCSH", "FZFG", "NSW", "-SHSN"]), j,
               "every text one character away from 6 weathers, in 11 sections"),
        Family("pieces", pieces(("body", "change0"), (
            ("", "-", "+", "-VC", "+VC", "VC"), ("", "SH", "TS", "FZ", "BL"), ("", "RA", "SN", "BR", "FC", "NSW", "/")), "/-V"), j,
            "every choice of the parts of a weather; a part left out, repeated, moved, added; a character away"),
        Family("recent-pieces", pieces(("body",), (
            ("RE",), ("", "SH", "TS", "FZ"), ("", "RA", "SN"), ("", "BR", "FG"), ("", "FC", "SQ", "NSW")), "/-R"), jr,
            "the same, of a recent weather"),
        Family("recent-shapes", shapes(("body",), ["RERA", "RETSRA", "REFZFG", "RESH", "REBLSN", "REFC", "REDZBR"]), jr,
               "every text one character away from 7 recent weathers"),
        Family("compounds", cross(ALLCTX if tier == "thorough" else ("body", "change0"), compounds), j,
               "8 prefixes x all pairs of 32 descriptors and phenomena, with and without a sign between"),
        Family("recent-compounds", cross(("body",), lambda: ("RE" + t for t in compounds() if t[0] not in "-+")), jr,
               "the same without prefix, as recent weather"),
    ]


# ------------------------------------------------------------------ C13 temperatures, pressure
TEMP_BASE = {"temperatures": ["code", "temperature_in_celsius", "dewpoint_in_celsius"],
             "pressure": ["code", "in_hPa"]}


def temps_all():
    half = D2 + ["M" + x for x in D2] + ["-" + x for x in D2] + ["//", "XX", "MM", "M//"]
    for a in half:
        for b in half:
            yield a + "/" + b


def temps_quick():
    half = D2 + ["M" + x for x in D2]
    odd = ["00", "M00", "-07", "-00", "M05", "23", "//", "XX", "MM", "M//", "99", "M99"]
    for a in half:
        for b in half:
            yield a + "/" + b
    for a in half + odd:
        for b in odd:
            yield a + "/" + b
            yield b + "/" + a


def pressures():
    for u in ("Q", "A", "QNH", ""):
        for v in D4 + ["////"]:
            if u in ("Q", "A"):
                yield u + v
            elif int(v if v != "////" else 0) % 7 == 0:
                yield u + v
                yield u + v + "INS"


def pressures_all():
    for u in ("Q", "A", "QNH", ""):
        for v in D4 + ["////"]:
            yield u + v
            yield u + v + "INS"


@check("C13")
def c13(tier):
    th = tier == "thorough"
    jt = values(["temperatures"], TEMP_BASE)
    jp = values(["pressure"], TEMP_BASE)
    pv = ("9999", "9999", "10/10")
    ps = ["Q1013", "A2992", "QNH0987", "1013", "2992", "A////", "Q////", "////", "QNH2992INS",
          "2992INS", "A3000", "Q0995", "2500", "2501"]
    return [
        company.family(th, ["temperatures", "pressure"], ("temperatures", "pressure",), wide(), ctxs=("metar",), base=TEMP_BASE),
        Family("temperatures", cross(("body",), temps_all if th else temps_quick), jt,
               "all pairs of %d temperatures and dew points" % (304 if th else 200)),
        Family("pressures", cross(("body",), pressures_all if th else pressures, pre=pv), jp,
               "Q and A x 10000 values, QNH, none and INS x %d values" % (10000 if th else 1429)),
        Family("two-pressures", lambda: (("body", b, ("9999", "9999") + a) for a in itertools.chain(
            [()], ((x,) for x in ps)) for b in ps), values(["pressure"], TEMP_BASE),
            "all sequences of up to 2 of 14 pressures"),
        Family("temperature-shapes", shapes(("body",), ["29/16", "M05/M12", "//////"[:5], "00/M01", "XX/MM"]),
               jt, "every text one character away from 5 temperature groups"),
        Family("temperature-pieces", pieces(("body",), (
            ("", "M", "-"), ("29", "//", "XX", "MM"), ("", "/"), ("", "M", "-"), ("16", "//", "XX", "MM")), "/0MX-"), jt,
            "every choice of the parts of a temperature group; a part left out, repeated, moved, added; a character away"),
        Family("pressure-pieces", pieces(("body",), (
            ("", "A", "Q", "QNH"), ("2992", "1013", "////"), ("", "INS", "HPA")), "/0AQ", pre=pv), jp,
            "the same, of a pressure"),
        Family("pressure-shapes", shapes(("body",), ["A2992", "Q1013", "QNH2992INS", "1013"], pre=pv),
               jp, "every text one character away from 4 pressures"),
    ]


# ------------------------------------------------------------------ C14 RVR, runway state, ...
RWY = [n + s for n in D2 for s in ("", "L", "R", "C")]
RVR_BASE = {"runway_ranges": ["code", "name", "trend", "low_range", "high_range", "low_in_meters",
                              "high_in_meters"],
            "sea_state": ["code", "state", "temperature_in_celsius", "height_in_meters"]}


def rvr_names():
    for n in RWY:
        yield "R%s/0800" % n
        yield "R%s/P1500FTU" % n


def rvr_ranges():
    vals = ["00", "50", "050", "300", "0000", "0050", "0350", "0800", "1500", "2000", "9999", "6000"]
    for lo in [a + b for a in ("", "M", "P") for b in vals]:
        for hi in [""] + ["V" + a + b for a in ("", "M", "P") for b in vals]:
            for u in ("", "FT"):
                for t in ("", "N", "U", "D"):
                    yield "R07%s/%s%s%s%s" % ("L" if t == "U" else "", lo, hi, u, t)


def rvr_values():
    for v in D4 + D3 + D2:
        yield "R10/" + v
        if int(v) % 5 == 0:
            yield "R10R/0050V" + v + "FT"


def states_core():
    for dep in "0123456789/":
        for con in "0123456789/":
            for dpt in ("00", "05", "91", "99", "//"):
                for fri in ("00", "35", "91", "95", "99", "//"):
                    yield "R07/" + dep + con + dpt + fri
    for dpt in D2 + ["//"]:
        for fri in D2 + ["//"]:
            yield "R24L/49" + dpt + fri
    for n in RWY + [""]:
        for s in ("SNOCLO", "CLRD//", "490593"):
            if n or s != "490593":
                yield "R" + n + "/" + s


def states_full():
    for dep in "0123456789/":
        for con in "0123456789/":
            for dpt in D2 + ["//"]:
                for fri in D2 + ["//"]:
                    yield "R07C/" + dep + con + dpt + fri


def seas():
    for s in ("", "M"):
        for t in D2:
            for x in range(10):
                yield "W%s%s/S%d" % (s, t, x)
            for h in range(0, 1000, 1):
                if h % 10 == 5 or t in ("00", "19"):
                    yield "W%s%s/H%03d" % (s, t, h)


def shears():
    for n in RWY:
        yield "WS R" + n
        yield "WS RWY" + n
    yield "WS ALL RWY"


def shear_judge(case, st):
    body = T_METAR + tuple(case)
    exp, paths = model.metar(body)
    track(st, "metar", body, paths[0])
    r = build("metar", " ".join(body))
    w = r.windshears
    got = {"windshears": obs.plist("windshears", w), "all_runways": w.all_runways,
           "windshear_names": list(w.names), "codes": list(w.codes), "n": len(w)}
    want = pick(exp, ["windshears", "all_runways", "windshear_names"])
    want["codes"] = [x["code"] for x in exp["windshears"]]
    want["n"] = len(exp["windshears"])
    need(want, got, "")
    st.outcome(obs.canon(got))


def shear_lists():
    ws = ["WS R07", "WS RWY07", "WS R25L", "WS RWY10C", "WS R33R", "WS ALL RWY", "WS R36", "WS R99", "WS R88"]
    for t in shears():
        yield (t,)
    for k in (2, 3):
        for c in itertools.product(ws, repeat=k):
            yield c


def shear_words():
    """Two and three words which resemble a wind shear: a character of them away,
    in front of, behind and between wind shears."""
    seen = set()
    for second in ("R07", "R25L", "RWY07", "RWY10C", "R", "RWY", "ALL", "RWYX", "RXX", "RY07", "07"):
        for u in [second] + mutations(second, "0RWYLCA/ ", "rid"):
            seen.add("WS " + u)
    for t in ("WS ALL RWY",):
        seen.update(mutations(t, "0RWYSL/ ", "rid"))
    seen.update(a + " " + b for a in ("W", "S", "WSS", "SW", "WS/", "WT") for b in ("R07", "RWY07", "ALL RWY"))
    for t in sorted(seen):
        words = tuple(t.split())
        for before, after in (((), ()), (("WS", "R07"), ()), ((), ("WS", "RWY25L"))):
            yield before + words + after


def shear_words_judge(case, st):
    words = []
    for w in case:
        # the words WS R07, WS RWY07 and WS ALL RWY are one group
        if words and words[-1] == "WS" and re.match(r"R(WY)?\d\d", w):
            words[-1] = "WS " + w.replace("RWY", "R", 1)
        elif words[-1:] == ["ALL"] and words[-2:-1] == ["WS"] and w == "RWY":
            words[-2:] = ["WS ALL RWY"]
        else:
            words.append(w)
    if any(model.quirky(w) for w in words):
        return
    body = T_METAR + tuple(words)
    exp, paths = model.metar(body)
    track(st, "metar", body, paths[0])
    r = build("metar", " ".join(T_METAR + case))
    w = r.windshears
    need({"windshears": exp["windshears"], "names": exp["windshear_names"], "all": exp["all_runways"],
          "codes": [x["code"] for x in exp["windshears"]],
          "unparsed": " ".join(exp["unparsed_groups"]).split()},
         {"windshears": obs.plist("windshears", w), "names": list(w.names), "all": w.all_runways,
          "codes": list(w.codes), "unparsed": " ".join(despace(r.unparsed_groups)).split()}, "")
    st.outcome((obs.canon(exp["windshears"]), tuple(exp["unparsed_groups"])))


def rvr_lists():
    rs = ["R07/0800", "R25L/P1500N", "R10C/M0050V0350U", "R88/1200FTD", "R07/0350V0600FT"]
    for k in (1, 2, 3):
        for c in itertools.product(rs, repeat=k):
            yield ("body", c[-1], ("9999", "5000") + c[:-1])


@check("C14")
def c14(tier):
    th = tier == "thorough"
    jr = values(["runway_ranges", "runway_state"], RVR_BASE)
    js = values(["sea_state"], RVR_BASE)
    return [
        company.family(th, ["runway_ranges", "windshears", "windshear_names", "all_runways", "sea_state", "runway_state"], ("runway_ranges", "windshears", "sea_state", "runway_state",), wide(), ctxs=("metar",), base=RVR_BASE),
        company.lists_family(["runway_ranges", "windshears", "windshear_names", "all_runways"], ("runway_ranges", "windshears"), base=RVR_BASE),
        Family("rvr-runways", cross(("body",), rvr_names), jr, "400 runways"),
        Family("rvr-ranges", cross(("body",), rvr_ranges), jr, "36 lower x 37 upper x 2 units x 4 tendencies"),
        Family("rvr-values", cross(("body",), rvr_values), jr, "every 2, 3 and 4 digit range"),
        Family("rvr-lists", rvr_lists, jr, "all sequences of up to 3 of 5 ranges"),
        Family("runway-state", cross(("body",), states_full if th else states_core), jr,
               "11 deposits x 11 extents x %s" % ("101 depths x 101 frictions" if th else
                                                  "5 depths x 6 frictions; 101 x 101; 400 runways x closed/cleared")),
        Family("runway-state-names", cross(("body",), states_core), jr, "as above") if th else
        Family("runway-shapes", shapes(("body",), ["R07/490593", "R88/CLRD//", "R/SNOCLO", "R10L/0350V1500FTU",
                                                   "R25/P2000N", "R07////99//"]), jr,
               "every text one character away from 6 runway groups"),
        Family("rvr-pieces", pieces(("body",), (
            ("R07", "R25L", "R88"), ("", "/"), ("", "M", "P"), ("0800", "50", "150"), ("", "V"), ("", "M"), ("", "1200"), ("", "FT"),
            ("", "N", "U")), "/0V") if th else pieces(("body",), (
            ("R07", "R25L"), ("/",), ("", "P"), ("0800", "50"), ("", "V"), ("", "M"), ("", "1200"), ("", "FT"), ("", "U")), "/0V"), jr,
            "every choice of the parts of a runway range; a part left out, repeated, moved, added; a character away"),
        Family("runway-state-pieces", pieces(("body",), (
            ("R07", "R25L", "R"), ("/",), ("", "4", "/"), ("", "9", "/"), ("", "05", "//"), ("", "93", "//"), ("", "CLRD//", "SNOCLO")),
            "/0"), jr, "the same, of a runway state"),
        Family("sea-pieces", pieces(("body",), (
            ("W",), ("", "M"), ("15", "//", ""), ("", "/"), ("", "S", "H"), ("", "2", "105", "15")), "/0MSH"), js,
            "the same, of a sea state"),
        Family("sea-state", cross(("body",), seas), js, "200 temperatures x (10 states, 100 heights); all heights x 4"),
        Family("sea-shapes", shapes(("body",), ["W15/S2", "WM01/H105"]), js,
               "every text one character away from 2 sea states"),
        Family("wind-shear", shear_lists, shear_judge,
               "801 wind shear groups; all sequences of 2 and 3 of 9"),
        Family("wind-shear-words", shear_words, shear_words_judge,
               "words a character away from those of a wind shear, alone, behind and in front of one"),
    ]


# ------------------------------------------------------------------ all languages
def some(gen, k):
    """Every k-th of the generated tokens, first and last included."""
    xs = [t for t in dict.fromkeys(gen()) if isinstance(t, str)]
    return xs[::k] + xs[-1:]


def taf_temps():
    for k in "XN":
        for v in D2:
            for s in ("", "M"):
                yield "T%s%s%s/1518Z" % (k, s, v)


PRE = {"minimum_visibility": ("CAVOK",), "pressure": ("9999", "9999")}


def every_group(th):
    """(sections, field, tokens) over the value alphabets of every kind of group."""
    cond = ("body", "trend", "taf", "change1")
    one = 1 if th else 3
    return (
        (cond, "wind", some(winds_quick, one)),
        (cond, "prevailing_visibility", some(vis_four, 1 if th else 7) + some(vis_miles, 1) + some(vis_mixed, one) + ["CAVOK", "0000", "0SM"]),
        (cond, "weathers", some(weathers_all, 1)),
        (cond, "clouds", some(clouds_all, 1 if th else 7) + [
            c + h + k for c in COVERS for h in ("", "///", "000", "001", "015", "100") for k in CTYPES]),
        (("body",), "wind_variation", some(variations, one)),
        (("body",), "minimum_visibility", some(vis_min, 1 if th else 7)),
        (("body",), "recent_weather", some(recents, one)),
        (("body",), "temperatures", some(temps_all if th else temps_quick, 1) + ["00/00", "M00/M00", "//00", "00///", "XX/05"]),
        (("body",), "pressure", some(pressures, 1)),
        (("body",), "runway_ranges", some(rvr_names, 1) + some(rvr_ranges, 1)),
        (("body",), "runway_state", some(states_full if th else states_core, 1)),
        (("body",), "sea_state", some(seas, 1)),
        (("body",), "windshears", [t for t in shears()]),
        (("taf",), "max_temperatures", [t for t in taf_temps() if t[1] == "X"]),
        (("taf",), "min_temperatures", [t for t in taf_temps() if t[1] == "N"]))


# ------------------------------------------------------------------ C15 unit views
def all_views():
    for s in D2 + ["100", "149"]:
        for u in ("KT", "MPS"):
            yield "wind", "body", "250%sG%s%s" % (s, s, u)
            yield "wind", "change0", "250%sG%s%s" % (s, s, u)
            yield "wind", "trend", "250%sG%s%s" % (s, s, u)
            yield "wind", "taf", "250%sG%s%s" % (s, s, u)
    for d in DIRS + ["VRB"]:
        for c in ALLCTX:
            yield "wind", c, d + "15KT"
    for a in DIRS[1:]:
        for b in DIRS[1:]:
            yield "wind_variation", "body", a + "V" + b
    for v in range(0, 10000, 10):
        yield "prevailing_visibility", "body", "%04d" % v
        yield "prevailing_visibility", "taf", "%04d" % v
    for t in vis_miles():
        yield "prevailing_visibility", "body", t
        yield "prevailing_visibility", "change0", t
    for t in vis_mixed():
        yield "prevailing_visibility", "trend", t
    for d in COMPASS:
        for c in ALLCTX:
            yield "prevailing_visibility", c, "5000" + d
            yield "prevailing_visibility", c, "9999" + d
    for c in ALLCTX:
        yield "prevailing_visibility", c, "CAVOK"
        for h in D3:
            yield "clouds", c, "BKN" + h
    for c in ("VV", "FEW", "OVC", "SCT", "///"):
        for h in D3:
            yield "clouds", "body", c + h + "CB"


def metar_views():
    for v in range(0, 10000, 10):
        yield "minimum_visibility", "%04d" % v
    for d in COMPASS:
        yield "minimum_visibility", "1200" + d
    for t in rvr_values():
        yield "runway_ranges", t
    for v in D4[::3]:
        yield "runway_ranges", "R07/M%sVP%sFT" % (v, v)
    for s in ("", "M"):
        for a in D2:
            for b in ("00", "07", "M13", "//"):
                yield "temperatures", s + a + "/" + b
                yield "temperatures", b + "/" + s + a
    for t in pressures():
        yield "pressure", t
    for t in seas():
        yield "sea_state", t


def taf_temp_views():
    for k in "XN":
        for s in ("", "M"):
            for t in D2:
                yield ("T%s%s%s/1515Z" % (k, s, t),)


def views_judge(case, st):
    field, ctx, tok = case
    return values([field])((ctx, tok, PRE.get(field, ())), st)


def taf_temp_judge(case, st):
    body = T_TAF + tuple(case)
    exp, paths = model.taf(body)
    track(st, "taf", body, paths[0])
    r = build("taf", " ".join(body))
    for f in ("max_temperatures", "min_temperatures"):
        got = obs.tafs_temps(getattr(r, f))
        need(exp[f], got, f)
        st.outcome(obs.canon(got))


def pressure_scale(case, st):
    """mbar equals hPa, and so on, whatever the unit of the report."""
    return views_judge(case, st)


READ_TOKENS = (("wind", "25015G27KT"), ("wind", "VRB03MPS"), ("wind_variation", "070V130"), ("prevailing_visibility", "5000NE"),
               ("prevailing_visibility", "1 1/2SM"), ("minimum_visibility", "1200SW"), ("runway_ranges", "R07L/M0150VP0600FTU"),
               ("clouds", "BKN015CB"), ("temperatures", "29/M01"), ("pressure", "A2992"), ("pressure", "Q1013"), ("sea_state", "WM01/H105"),
               ("wind", "00000KT"), ("prevailing_visibility", "0000"), ("clouds", "OVC000"), ("temperatures", "00/M00"))


def read_orders():
    """Every ordered pair of views of a group."""
    for f, t in READ_TOKENS:
        for p in obs.PROPS[f]:
            for q in obs.PROPS[f]:
                yield f, t, p, q


def read_judge(case, st):
    f, t, p, q = case

    def group():
        r = build("metar", " ".join(T_METAR + (("CAVOK",) if f == "minimum_visibility" else ()) + (t,)))
        o = getattr(r, f)
        return o.items[0] if f in obs.LISTS else o
    alone = {p: getattr(group(), p), q: getattr(group(), q)}
    g = group()
    first = getattr(g, p)
    for name, v in ((q, getattr(g, q)), (p, getattr(g, p)), (p, first), (q, getattr(g, q))):
        need(alone[name], v, "%s after %s and %s" % (name, p, q))
    st.transitions += 4
    st.state(case)
    st.outcome((f, t, p, repr(first)))


PI = 3.141592653589793
FACTORS = {"FT_TO_M": 0.3048, "M_TO_FT": 1 / 0.3048, "SMI_TO_KM": 1.852, "KM_TO_SMI": 1 / 1.852, "KM_TO_M": 1000.0, "M_TO_KM": 0.001,
           "M_TO_SMI": 1 / 1852.0, "M_TO_DM": 10.0, "M_TO_CM": 100.0, "M_TO_IN": 1 / 0.0254, "DEGREES_TO_RADIANS": PI / 180,
           "DEGREES_TO_GRADIANS": 10 / 9.0, "KNOT_TO_MPS": 1852 / 3600.0, "MPS_TO_KNOT": 3600 / 1852.0, "KNOT_TO_MIPH": 1852 / 1609.344,
           "KNOT_TO_KPH": 1.852, "HPA_TO_INHG": 1 / 33.8638815789, "INHG_TO_HPA": 33.8638815789, "HPA_TO_BAR": 0.001, "BAR_TO_HPA": 1000.0,
           "MBAR_TO_HPA": 1.0, "HPA_TO_MBAR": 1.0, "HPA_TO_ATM": 1 / 1013.25}
SCALES = {"kelvin": (1.0, 273.15), "fahrenheit": (1.8, 32.0), "rankine": (1.8, 491.67)}


def conversions():
    for name in FACTORS:
        yield name, 1.0
    for scale in SCALES:
        for t in range(-2731, 2000):
            yield "celsius_to_" + scale, t / 10.0
            yield scale + "_to_celsius", t / 10.0


def conversion_judge(case, st):
    """The published factors and functions follow from the definition of the units."""
    name, x = case
    from aeromet_py.utils import Conversions
    f = getattr(Conversions, name, None)
    if f is None:
        return              # not published
    a, b = name.split("_to_") if "_to_" in name else (None, None)
    if a is None:
        want, got = FACTORS[name], f
    elif a == "celsius":
        want, got = x * SCALES[b][0] + SCALES[b][1], f(x)
    else:
        want, got = (x - SCALES[a][1]) / SCALES[a][0], f(x)
    if abs(got - want) > max(abs(want), 1e-3) * 5e-6:
        raise Problem("%s of %s: expected %s, got %s" % (name, x, want, got))
    st.transitions += 1
    st.state(case)
    st.outcome((name, got))


@check("C15")
def c15(tier):
    return [
        company.family(tier == "thorough", list(company.QUANTITIES), company.QUANTITIES[:-2] + ("temperatures",)),
        Family("conversions", conversions, conversion_judge,
               "every factor, and every function of temperature at every tenth of a degree from -273.1 to 199.9"),
        Family("views", all_views, views_judge,
               "all units of wind, visibility and cloud height, over their value ranges, by section"),
        Family("metar-views", lambda: ((f, "body", t) for f, t in metar_views()), views_judge,
               "all units of minimum visibility, RVR, temperature, pressure and sea state"),
        Family("taf-temperature-views", taf_temp_views, taf_temp_judge,
               "all units of 400 TAF temperatures"),
        Family("read-orders", read_orders, read_judge, "16 groups x all ordered pairs of their properties"),
    ]
