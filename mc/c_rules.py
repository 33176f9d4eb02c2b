"""C21, C22: flight rules and CAVOK from visibility, weather and clouds."""
import itertools

import company
import model
import obs
import ref
from common import T_METAR, T_TAF, build, need
from engine import Family, check

# what stands in the other sections: the worst and the best conditions
BAD = ("25015G25KT", "0100", "+TSRA", "OVC001CB")
GOOD = ("00000KT", "CAVOK")
NEAR = ("10005KT", "9999", "FEW060")
CTX = ("metar", "metar-trends", "trend1", "trend2", "taf", "taf-changes", "change", "fm", "prob")


def section(ctx, groups):
    """The section of a report of that kind which holds just these groups."""
    if ctx == "metar":
        return build("metar", " ".join(T_METAR + groups))
    if ctx == "metar-trends":
        return build("metar", model.metar_text(T_METAR + groups, (("TEMPO",) + BAD, ("BECMG",) + GOOD), "RMK OVC001 0100"))
    if ctx == "trend1":
        return build("metar", model.metar_text(T_METAR + BAD, (("BECMG", "FM1300") + groups, ("TEMPO",) + NEAR))).weather_trends.items[0]
    if ctx == "trend2":
        return build("metar", model.metar_text(T_METAR + GOOD, (("BECMG",) + BAD, ("TEMPO", "TL1400") + groups))).weather_trends.items[1]
    if ctx == "taf":
        return build("taf", " ".join(T_TAF + groups))
    if ctx == "taf-changes":
        return build("taf", model.taf_text(T_TAF + groups, (("TEMPO", "1514/1516") + BAD, ("FM151800",) + GOOD)))
    if ctx == "change":
        return build("taf", model.taf_text(T_TAF + BAD, (("BECMG", "1514/1516") + groups, ("TEMPO", "1518/1520") + GOOD))).changes_forecasted.items[0]
    if ctx == "fm":
        return build("taf", model.taf_text(T_TAF + GOOD, (("TEMPO", "1514/1516") + BAD, ("FM151800",) + groups))).changes_forecasted.items[1]
    return build("taf", model.taf_text(T_TAF + NEAR, (("FM151400",) + BAD, ("PROB40 TEMPO", "1518/1520") + groups))).changes_forecasted.items[1]


def groups_of(vis, weathers, clouds):
    return ((vis,) if vis else ()) + tuple(weathers) + tuple(clouds)


def judge(what):
    def f(case, st):
        ctx, vis, weathers, clouds = case
        if vis and vis.startswith("////") and ctx in ("taf", "taf-changes"):
            return
        o = section(ctx, groups_of(vis, weathers, clouds))
        v = ref.prevailing(vis)["in_meters"] if vis else None
        cs = [ref.cloud(c) for c in clouds]
        # the groups were decoded as they are meant to
        need([vis or None, list(weathers), list(clouds)],
             [o.prevailing_visibility.code, list(o.weathers.codes), list(o.clouds.codes)], "groups")
        if what == "rules":
            exp, got = ref.flight_rules(v, cs), o.flight_rules
        else:
            exp, got = ref.should_be_cavok(v, list(weathers), cs), o.should_be_cavok()
            need(exp, o.should_be_cavok(), "second call of should_be_cavok")
        need(exp, got, "%s of the section" % what)
        st.transitions += 1
        st.state(case)
        st.outcome((exp, vis, clouds))
    return f


VIS = (None, "0000", "0750", "0799", "0800", "0801", "1500", "1599", "1600", "1601", "4999", "5000", "5001", "7999", "8000",
       "8001", "9998", "9999", "CAVOK", "////", "1/4SM", "1/2SM", "7/8SM", "1SM", "2SM", "2 1/2SM", "3SM", "5SM", "P6SM", "10SM", "8KM",
       "5000NE", "9999NE", "15SM", "30KM", "99SM", "P99KM")
VIS8 = (None, "0400", "0800", "1600", "5000", "8000", "CAVOK", "////")
LAYERS = ("FEW001", "SCT002", "BKN001", "BKN002", "BKN///", "OVC005", "OVC010", "VV001", "VV///", "OVC030", "NSC",
          "SCT020CB", "//////", "BKN050TCU", "0VC009", "///", "BKN000", "VV000")
C7 = ("FEW001", "BKN000", "BKN001", "BKN///", "OVC005", "OVC010", "VV002", "OVC030")
HEIGHTS = ("000", "001", "002", "003", "004", "005", "009", "010", "029", "030", "099", "100", "999", "///")
COVERS = ("FEW", "SCT", "BKN", "OVC", "0VC", "VV", "NSC", "NCD", "SKC", "CLR", "///")


def rules_cases(th):
    def gen():
        for ctx in CTX:
            for v in VIS:
                for c in LAYERS:
                    yield ctx, v, (), (c,)
                yield ctx, v, (), ()
        for ctx in CTX if th else ("metar", "change"):
            for v in (None, "9999", "0801", "4999"):
                for cov in ("BKN", "OVC", "VV"):
                    for h in range(1000) if th else range(0, 120):
                        yield ctx, v, (), ("%s%03d" % (cov, h),)
            for cov in COVERS:
                for h in ("", "///", "000", "001", "002", "004", "005", "009", "010", "029", "030", "999"):
                    for t in ("", "CB", "TCU", "///"):
                        tok = cov + h + t
                        d = ref.cloud(tok)
                        if d and not ref.weather(tok):
                            for v in (None, "9999", "1000"):
                                yield ctx, v, (), (tok,)
        for ctx in ("metar", "taf", "trend1", "change") if th else ("metar", "change"):
            for v in range(0, 10000, 1 if th else 7):
                if "%04d" % v in ("1000",):
                    continue
                for cs in ((), ("BKN004",), ("BKN009", "OVC002")):
                    yield ctx, "%04d" % v, (), cs
    return gen


def layer_lists(th):
    def gen():
        for ctx in CTX if th else ("metar", "trend2", "taf-changes", "fm"):
            for v in VIS8:
                for cs in itertools.product(LAYERS[:12] if th else C7, repeat=3):
                    yield ctx, v, (), cs
            for v in (None, "9999", "1600"):
                for cs in itertools.product(LAYERS[:14], repeat=2):
                    yield ctx, v, (), cs
                for a, b in itertools.product(HEIGHTS, repeat=2):
                    for x in ("BKN", "OVC", "VV") if th else ("BKN", "VV"):
                        yield ctx, v, (), (x + a, "OVC" + b)
                        yield ctx, v, (), ("FEW" + b, x + a, "OVC" + b)
        for ctx in ("metar", "change"):
            for v in (None, "9999"):
                for cs in itertools.product(LAYERS[:11] if th else C7, repeat=4):
                    yield ctx, v, (), cs
    return gen


VIS_C = ("", "0799", "1600", "4999", "8000", "9999", "CAVOK", "////", "1 1/2SM", "P6SM")
LISTS_C = ("", "FEW001", "BKN001", "OVC005", "BKN010", "VV002", "VV///", "BKN///", "NSC", "FEW050", "SCT060 BKN100", "FEW060CB",
           "SCT004 BKN009 OVC020", "BKN030TCU", "//////")


@check("C21")
def c21(tier):
    th = tier == "thorough"
    return [
        Family("limits", rules_cases(th), judge("rules"),
               "37 visibilities x 19 layers in 9 sections; every layer kind; every ceiling height%s; every%s visibility" % (
                   ("", "") if th else (" to 12000 ft", " seventh"))),
        Family("lists", layer_lists(th), judge("rules"),
               "8 visibilities x all lists of up to 3, and all lists of 4, of %d layers; pairs of ceilings at every two of 14 heights" % (11 if th else 8)),
        Family("company", company.conditions(VIS_C if not th else tuple(v or "" for v in VIS), LISTS_C), company.judge(["flight_rules"]),
               "%d visibilities x 15 lists of layers x every group of every other kind, bare and in a full report, and in sections" % len(VIS if th else VIS_C)),
        company.lists_family(["flight_rules"], ("clouds",)),
    ]


CAVOK_LAYERS = ("FEW050", "FEW049", "SCT049", "BKN050", "OVC100", "BKN049", "FEW060CB", "SCT070TCU", "NSC", "NCD", "SKC", "CLR",
                "VV050", "VV100", "VV///", "FEW000", "OVC999", "OVC051///", "FEW048CB")
CL8 = ("FEW050", "SCT049", "OVC100", "FEW060CB", "BKN080TCU", "NSC", "VV060", "FEW010")
WX = ((), ("-RA",), ("BR",), ("VCTS",), ("-RA", "BR"), ("TS",))


def cavok_cases(th):
    def gen():
        for ctx in CTX:
            for v in VIS:
                for w in WX:
                    yield ctx, v, w, ()
                    for c in CAVOK_LAYERS:
                        yield ctx, v, w, (c,)
            for cov in COVERS:
                for h in ("", "///", "000", "001", "049", "050", "051", "100"):
                    for t in ("", "CB", "TCU", "///"):
                        tok = cov + h + t
                        if ref.cloud(tok) and not ref.weather(tok):
                            for v in (None, "9999", "9998"):
                                yield ctx, v, (), (tok,)
                            yield ctx, "9999", (), ("FEW060", tok)
                            yield ctx, "CAVOK", (), (tok, "OVC080")
        for ctx in CTX if th else ("metar", "taf"):
            for h in range(1000):
                for cov in ("FEW", "SCT", "BKN", "OVC", "VV"):
                    yield ctx, "9999", (), ("%s%03d" % (cov, h),)
        for ctx in CTX if th else ("metar", "trend1", "taf", "fm"):
            for v in ("9999", "9998", "CAVOK", None):
                for k in (2, 3, 4) if th else (2, 3):
                    for cs in itertools.product(CL8, repeat=k):
                        yield ctx, v, (), cs
            if not th:
                for cs in itertools.product(("FEW050", "SCT049", "FEW060CB", "NSC"), repeat=4):
                    yield ctx, "9999", (), cs
            for v in range(0, 10000, 1 if th else 13):
                yield ctx, "%04d" % v, (), ("FEW050",)
            for v in ("5SM", "6SM", "P6SM", "7SM", "10SM", "10KM", "9KM", "15KM"):
                yield ctx, v, (), ("FEW050",)
    return gen


@check("C22")
def c22(tier):
    th = tier == "thorough"
    return [Family("conditions", cavok_cases(th), judge("cavok"),
                   "37 visibilities x 6 weathers x 20 layers in 9 sections; every kind of layer alone, first and second; every layer height; lists of up to %d of 8 layers; visibilities" % (
                       4 if th else 3)),
            Family("company", company.conditions(VIS_C if not th else tuple(v or "" for v in VIS), LISTS_C), company.judge(["should_be_cavok"]),
                   "%d visibilities x 15 lists of layers x every group of every other kind, bare and in a full report, and in sections" % len(VIS if th else VIS_C)),
            company.lists_family(["should_be_cavok"], ("clouds", "weathers"))]
