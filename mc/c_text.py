"""C06-C08: layout of the text, truncate mode, robustness."""
import itertools

import c_groups
import company
import env
import model
import obs
from common import M, T_METAR, T_TAF, Y, build, mutations, need
from engine import Family, Problem, check

FULL_METAR = (
    "METAR PADK 151230Z AUTO 09014G25KT 070V130 1 1/2SM 1200NE R07L/0800 R25/M0350VP1500FTU -RA BR FEW005 BKN010CB 09/M01 A2992 RERA "
    "WS R07 WS RWY25L W15/S2 R07/490593 TEMPO FM1300 TL1400 25010KT 2 1/4SM TSRA BKN005 BECMG AT1430 9999 RMK A01 1 1/2SM",
    "SPECI MROC 152358Z 00000KT CAVOK 29/18 Q1013 WS ALL RWY NOSIG",
    "KMIA 130053Z 25005KT 10SM FEWT030 FEW045 29/23 A2994 RMK AO2 SLP140 T02940233",
    "METAR PADK 151230Z 1/2SM FG VV001 M01/M01 BECMG FM1300 1 1/2SM",
    "METAR UUDD NIL",
)
FULL_TAF = (
    "TAF AMD PADK 151130Z 1512/1612 09014G25KT 1 1/2SM -RA BR FEW005 BKN010CB TX29/1518Z TNM01/1606Z FM151400 25010KT 2 1/4SM "
    "PROB30 TEMPO 1514/1516 TSRA BKN005 BECMG 1518/1520 9999 XYZ PROB40 TEMPO 1520/1524 1/4SM FG TEMPO 1602/1604 BR",
    "TAF FMMI 151130Z 1512/1612 09014KT 9999 SCT020 PROB40 1520/1524 5000 BR",
    "TAF LFBE 231700Z NIL",
    "TAF COR FKKD 271700Z 2718/2824 CNL",
    "KJFK 151130Z 1512/1612 VRB03KT P6SM SKC FM160600 20010KT 5SM HZ",
)
SEPS = (" ", "  ", "\n", "\t", "\r\n", " \n      ", "\x0b", "\x0c", "\r", "\n\n")
LEAD = ("", " ", "\n", "\t ", "\r\n  ")
TRAIL = ("", " ", "\n", "=", " =", "=\n", "\n=", " = \r\n", "\t=")


def snapshot(kind, r):
    return obs.report(r), str(r), r.to_json()


def layout_judge(case, st):
    kind, words, seps, lead, trail = case
    text = lead + words[0] + "".join(s + w for s, w in zip(seps, words[1:])) + trail
    base = build(kind, " ".join(words))
    r = build(kind, text)
    need(" ".join(words), r.raw_code, "raw_code")
    a, b = snapshot(kind, base), snapshot(kind, r)
    need(a[0], b[0], "report")
    need(a[1], b[1], "text")
    need(a[2], b[2], "JSON")
    st.transitions += len(words)
    st.state((words, seps, lead, trail))
    st.outcome(a[1])


def texts():
    for t in FULL_METAR:
        yield "metar", tuple(t.split(" "))
    for t in FULL_TAF:
        yield "taf", tuple(t.split(" "))


def layouts(th):
    def gen():
        for kind, words in texts():
            n = len(words) - 1
            plain = (" ",) * n
            for lead in LEAD:
                for trail in TRAIL:
                    yield kind, words, plain, lead, trail
                    yield kind, words, ("\n",) * n, lead, trail
            for s in SEPS:
                yield kind, words, (s,) * n, "", "="
                for i in range(n):
                    yield kind, words, plain[:i] + (s,) + plain[i + 1:], "", ""
                    for s2 in SEPS if th else ("\n", "  "):
                        for j in range(i + 1, n):
                            yield kind, words, plain[:i] + (s,) + plain[i + 1:j] + (s2,) + plain[j + 1:], "", ""
            for i in range(n):
                for j in range(i + 1, n + 1):
                    yield kind, words, plain[:i] + ("\n",) * (j - i) + plain[j:], " ", "="
    return gen


SMALLS = (("metar", "METAR PADK 151230Z 1 1/2SM WS R07 TEMPO 2 1/4SM"), ("metar", "PADK 9999 WS ALL RWY NOSIG RMK X 1"),
          ("taf", "TAF AMD PADK 1 1/2SM PROB30 TEMPO 1 1/2SM TS"), ("taf", "TAF FMMI 151130Z FM151400 PROB40 TEMPO BR"),
          ("metar", "PADK 9999 BECMG 5000 TEMPO FM1300 BR"), ("taf", "PADK PROB30 BR PROB40 TEMPO TEMPO BECMG CAVOK"))


def assignments(th):
    def gen():
        seps = SEPS[:5] if th else (" ", "\n", "  ")
        for kind, t in SMALLS:
            words = tuple(t.split(" "))
            for a in itertools.product(seps, repeat=len(words) - 1):
                yield kind, words, a, "", ""
    return gen


LAYOUTS = (("\n", "", ""), ("  ", " ", "="), ("\t", "\n", " ="), ("\r\n", "", "=\n"), ("\x0b", "", ""), (" \n\t ", "\t", "\t"), (" ", "  ", "=="))


def layout_company(th, source=None):
    """Reports with every two groups, each in one or all of the layouts."""
    def gen():
        for n, (kind, body, secs, remark) in enumerate((source or company.reports(False))()):
            if not th and n % 3 and not source:
                continue
            words = tuple((model.metar_text(body, secs, remark) if kind == "metar" else model.taf_text(body, secs)).split(" "))
            for sep, lead, trail in LAYOUTS if th else (LAYOUTS[(n if source else n // 3) % len(LAYOUTS)],):
                yield kind, words, (sep,) * (len(words) - 1), lead, trail
    return gen


@check("C06")
def c06(tier):
    th = tier == "thorough"
    return [
        Family("assignments", assignments(th), layout_judge,
               "6 texts of up to 10 words x all assignments of %d separators to the gaps" % (5 if th else 3)),
        Family("layouts", layouts(th), layout_judge,
               "10 texts x every separator in one and two gaps (and in every run of gaps), 5 beginnings x 9 ends"),
        Family("odd-words", layout_company(th, company.odd()), layout_judge, company.ODD),
        Family("company", layout_company(th), layout_judge,
               "%s reports with every two groups of different kinds x %s 7 layouts" % (("the", "the") if th else ("every third of the", "one of")) ),
    ]


# ------------------------------------------------------------------ C07
BADGROUPS = ("XYZ", "FEWT030", "12345", "//", "9999NDV", "QFE0987", "BKN01", "09014K")
PLAIN_METAR = (("METAR", "PADK", "151230Z", "09014KT", "9999", "-RA", "BKN030", "29/18", "Q1013"),
               (("BECMG", "FM1300", "25010KT", "5000", "TSRA"), ("TEMPO", "0800", "BKN005")), "RMK AO2 XYZ")
PLAIN_TAF = (("TAF", "PADK", "151130Z", "1512/1612", "09014KT", "9999", "-RA", "BKN030", "TX29/1518Z"),
             (("FM151400", "25010KT", "5000"), ("PROB30 TEMPO", "1514/1516", "TSRA", "BKN005"), ("BECMG", "1518/1520", "CAVOK")))


def trunc_judge(case, st):
    kind, text = case
    r = build(kind, text)
    un = list(r.unparsed_groups)
    st.transitions += 2
    st.state(text)
    try:
        t = build(kind, text, truncate=True)
    except env.ParserError as e:
        if not un:
            raise Problem("raised %s although nothing is unparsed" % e)
        msg = str(e)
        if not any(u in msg for u in un) or r.raw_code not in msg:
            raise Problem("the message %r does not name what is unparsed (%r)" % (msg, un))
        # every unparsed group of the section which failed is named
        st.outcome(tuple(un))
        return
    if un:
        raise Problem("unparsed groups %r did not raise" % un)
    need(obs.report(r), obs.report(t), "report with truncate")
    need(str(r), str(t), "text with truncate")
    explicit = build(kind, text, truncate=False)
    need(obs.report(r), obs.report(explicit), "report with truncate=False")
    st.outcome(text)


def sections_of(kind):
    if kind == "metar":
        body, trends, remark = PLAIN_METAR
        return [body] + list(trends), remark
    body, changes = PLAIN_TAF
    return [body] + list(changes), ""


def text_of(kind, secs, remark):
    return " ".join(" ".join(s) for s in secs) + (" " + remark if remark else "")


def insertions(kind, secs, bad, first=True):
    for i, s in enumerate(secs):
        for j in range(0 if i == 0 else 1, len(s) + 1):
            yield secs[:i] + [s[:j] + (bad,) + s[j:]] + secs[i + 1:]


def trunc_cases(th):
    def gen():
        for kind in ("metar", "taf"):
            secs, remark = sections_of(kind)
            for keep in range(len(secs) + 1):
                some = secs[:max(keep, 1)]
                for rm in (remark, "", "RMK"):
                    if kind == "taf" and rm:
                        continue
                    yield kind, text_of(kind, some, rm)
                    for b in BADGROUPS:
                        for one in insertions(kind, some, b):
                            yield kind, text_of(kind, one, rm)
                            for b2 in BADGROUPS if th else BADGROUPS[:2]:
                                if rm == remark:
                                    for two in insertions(kind, one, b2):
                                        yield kind, text_of(kind, two, rm)
            for t in (FULL_METAR if kind == "metar" else FULL_TAF):
                yield kind, t
                w = t.split(" ")
                for i in range(len(w)):
                    yield kind, " ".join(w[:i] + w[i + 1:])
                    yield kind, " ".join(w[:i] + [w[i][1:] or "X"] + w[i + 1:])
                    yield kind, " ".join(w[:i] + [w[i] + "X"] + w[i + 1:])
                    for j in range(len(w)):
                        yield kind, " ".join(w[:i] + [w[j]] + w[i:])
    return gen


def trunc_safe(case, st):
    """Leaves out the texts which are no report (too many groups, no such date)."""
    try:
        build(*case)
    except (ValueError, env.RangeError):
        return
    return trunc_judge(case, st)


def trunc_company(source):
    def gen():
        for kind, body, secs, remark in source():
            yield kind, model.metar_text(body, secs, remark) if kind == "metar" else model.taf_text(body, secs)
    return gen


@check("C07")
def c07(tier):
    th = tier == "thorough"
    return [
        Family("odd-words", trunc_company(company.odd()), trunc_judge, company.ODD),
        Family("company", trunc_company(company.reports(False)), trunc_judge, "reports with every two groups of different kinds, bare and otherwise full, and with every two groups of a section"),
        Family("placements", trunc_cases(th), trunc_safe,
                   "%s unknown groups at every position of every section of a METAR and a TAF with 0 to 3 further sections, every pair of positions, "
                   "and 10 reports with each word left out, changed and repeated" % len(BADGROUPS))]


# ------------------------------------------------------------------ C08
def robust_judge(case, st):
    kind, text = case
    if not text.strip(" \n\t\r\x0b\x0c="):
        return
    cls = env.Metar if kind == "metar" else env.Taf
    st.transitions += 1
    st.state(case)
    trunc = None
    for t in (False, True):
        try:
            r = cls(text, year=Y, month=M, truncate=t)
        except env.ParserError:
            if not t:
                raise Problem("raised ParserError without truncate", "parser-error")
            st.outcome("ParserError")
            continue
        except env.RangeError:
            if not many(kind, text):
                raise Problem("raised RangeError without too many groups", "range-error")
            st.outcome("RangeError")
            return
        except ValueError:
            if not impossible(text):
                raise
            st.outcome("ValueError")
            return
        if t:
            continue
        o = obs.report(r)
        read_all(r)
        st.outcome((len(o["unparsed_groups"]), o["flight_rules"], o["time"]["time"]))


def read_all(r):
    """Reads every form of the report and of its parts."""
    parts = [getattr(r, n) for n in ("type_", "station", "time", "modifier", "wind", "prevailing_visibility", "weathers", "clouds")]
    if hasattr(r, "weather_trends"):
        parts += [getattr(r, n) for n in ("wind_variation", "minimum_visibility", "runway_ranges", "temperatures", "pressure", "recent_weather",
                                          "windshears", "sea_state", "runway_state", "weather_trends")]
        subs = list(r.weather_trends)
        parts += [t.trend_indicator for t in subs]
        for t in subs:
            parts += [t.trend_indicator.period_from, t.trend_indicator.period_until]
    else:
        parts += [getattr(r, n) for n in ("missing", "cancelled", "valid", "max_temperatures", "min_temperatures", "changes_forecasted")]
        subs = list(r.changes_forecasted)
        parts += [c.change_indicator for c in subs] + [c.change_indicator.valid for c in subs]
    for s in subs:
        parts += [s, s.wind, s.prevailing_visibility, s.weathers, s.clouds]
        s.should_be_cavok(), s.flight_rules
    for lst in [p for p in parts if hasattr(p, "codes")]:
        parts += list(lst)
        len(lst), lst.codes
    for p in parts + [r]:
        str(p)
        p.as_dict()
        p.to_json()
    r.should_be_cavok(), r.flight_rules


def many(kind, text):
    """May the text hold more groups of a kind than a report can?"""
    if kind == "metar":
        return sum(text.count(w) for w in ("TEMPO", "BECMG", "NOSIG")) > 2
    return text.count("TX") > 2 or text.count("TN") > 2 or sum(
        text.count(w) for w in ("TEMPO", "BECMG", "PROB", "FM")) > 8


def impossible(text):
    """May the text hold a date which October does not have?"""
    return False


CORPUS = (("metar", FULL_METAR[0]), ("metar", FULL_METAR[1]), ("metar", FULL_METAR[3]), ("taf", FULL_TAF[0]), ("taf", FULL_TAF[3]), ("taf", FULL_TAF[1]))
FEWCHARS = "A0/ Z9MP+=\n"
EVERY = "".join(chr(i) for i in range(32, 127)) + "\t\n\r\u00b0\u0660\u00e9"


def char_cases(th):
    def gen():
        for kind, text in CORPUS:
            for m in mutations(text, EVERY if th else FEWCHARS):
                yield kind, m
            for i in range(len(text)):
                yield kind, text[:i]
                yield kind, text[i:]
                if i + 1 < len(text):
                    yield kind, text[:i] + text[i + 1] + text[i] + text[i + 2:]
    return gen


FRAG = ("TEMPO", "BECMG", "NOSIG", "RMK", "PROB30", "FM151400", "FM1300", "TL2400", "AT0000", "METAR", "TAF", "PADK", "151230Z", "152400Z",
        "1512/1612", "NIL", "CNL", "AMD", "/", "//", "///", "////", "//////", "1", "1/2SM", "0/0SM", "WS", "R07", "ALL", "RWY", "R/SNOCLO", "TX29/1518Z",
        "TN//1518Z", "9999", "VV///", "29/", "A////", "-", "+", "RE", "W//S2", "_", "=", ".", "TEMPO_", "PROB40_TEMPO", "WS_R07", "\\", "(", "[", "*", "?",
        "{}", "%s", "|", "$", "^", "0", "M", "FM", "\u00bd", "\u0661\u0662")


def frag_cases(th):
    def gen():
        for kind in ("metar", "taf"):
            for k in (1, 2, 3):
                for c in itertools.product(FRAG if k < 3 or th else FRAG[:32:2] + ("_", "PROB40_TEMPO"), repeat=k):
                    yield kind, " ".join(c)
            head = "METAR PADK 151230Z " if kind == "metar" else "TAF PADK 151130Z 1512/1612 "
            for c in itertools.product(FRAG, repeat=2):
                yield kind, head + " ".join(c)
                yield kind, "".join(c)
    return gen


def short_cases(th):
    """Every text of up to three characters; every report of one strange word."""
    def gen():
        for kind in ("metar", "taf"):
            for k in (1, 2, 3) if th else (1, 2):
                for c in itertools.product(EVERY[:95] if k < 3 else "A0/ MZ+-_.VRKTFEW", repeat=k):
                    yield kind, "".join(c)
            for i in range(1, 0x250 if not th else 0x3000):
                yield kind, "PADK " + chr(i) + " 9999"
                yield kind, "PADK 9" + chr(i) + "99 TEMPO" + chr(i) + " BECMG" + chr(i)
            for n in (1, 2, 5, 10, 100, 1000):
                for w in ("9", "/", "A", " ", "A ", "/ ", "1 ", "TEMPO ", "-RA ", "BKN010 ", "1 1/2SM ", "WS R07 ", "RMK ", "FM151400 ", "PROB30 TEMPO ", "1/",
                          "R07/", "TX29/1518Z "):
                    yield kind, "PADK " + w * n
                    yield kind, w * n
    return gen


def long_words(th):
    """Long words of one repeated part, which nearly are groups."""
    units = tuple(chr(i) for i in range(33, 127)) + ("RA", "TS", "SH", "0V", "1/", "FT", "CB", "VC", "//", "07", "TEMPO", "10_", "M0", "KT", "-R", "A0")
    def gen():
        for kind in ("metar", "taf"):
            for head in ("", "PADK ", "PADK 9999 TEMPO ", "PADK 9999 RMK ") if th else ("PADK ", "PADK 9999 TEMPO "):
                for pre in ("", "RE", "-", "TX", "FM", "R07/", "WS R", "1 ", "Q", "VV", "090", "PROB"):
                    for u in units:
                        for tail in ("", "X", "!", "KT", "SM", "/", "CB", " 1/2SM") if th else ("", "X", "!", "SM"):
                            yield kind, head + pre + u * (48 if len(u) == 1 else 30) + tail
    return gen


def words_cases(th):
    """Groups at the limits of their patterns, alone and after one another."""
    odd = ("00000KT", "/////KT", "VRB//KT", "///99MPS", "360P99GP99KT", "000V000", "010V360", "0000", "////", "////N", "0/1SM", "1/0SM", "99 9/9SM", "9/9KM",
           "M1/4SM", "P99SM", "CAVOK", "R00/00", "R99L/M00VP9999FTN", "R88/SNOCLO", "R99/CLRD//", "R//SNOCLO", "R12///////", "R/490593", "R12/0000//", "R12/99////",
           "-", "+", "VC", "-VC", "FZ", "RE", "RETS", "REUP", "///", "VV", "VV///", "VV000", "FEW", "FEW///", "BKN///", "OVC///", "0VC000", "//////", "/////////",
           "//////CB", "///000", "NSC", "NSCCB", "//////TCU", "XX/MM", "MM/XX", "-0/-0", "M00/M99", "/////", "-01/-99", "Q////", "A////", "QNH////INS", "////INS",
           "Q0000", "A0000", "0000INS", "WS ALL RWY", "WS R00", "WS RWY99L", "W00/S0", "WM99/H999", "W15/S9", "NIL", "TEST", "FINO", "CORR", "TX00/0100Z",
           "TNM00/3123Z", "0100/0100", "3123/3124", "3100/0124", "FM010000", "FM312359", "FM0000", "TL2400", "AT2459", "010000Z", "312459Z")
    def gen():
        for kind in ("metar", "taf"):
            heads = ("", "PADK ", "METAR PADK 312400Z ") if kind == "metar" else ("", "PADK ", "TAF PADK 312400Z 0100/0124 ")
            tails = ("", " TEMPO %s", " BECMG FM0030 %s RMK %s", " NOSIG %s") if kind == "metar" else (
                "", " TEMPO %s", " FM312330 %s", " PROB30 TEMPO 0100/3124 %s")
            for a in odd:
                for h in heads:
                    for t in tails:
                        yield kind, (h + a + t.replace("%s", a)).strip()
            for a, b in itertools.product(odd, repeat=2):
                yield kind, heads[1] + a + " " + b
                if th:
                    yield kind, heads[2] + a + " " + b
                    yield kind, heads[2] + "9999 " + ("TEMPO " if kind == "metar" else "FM010200 ") + a + " " + b
    return gen


def number_cases(th):
    """Every number of groups of every kind, up to some beyond the most a report holds."""
    def gen():
        kinds = {"rvr": ("R07/0600", "R25L/P2000N", "R10/0500V0800FT"), "wx": ("-RA", "BR", "+TSGR", "VCSH"),
                 "cl": ("FEW010", "SCT020CB", "BKN///", "//////TCU"), "q": ("Q1013", "A2992"),
                 "ws": ("WS R07", "WS RWY25L", "WS ALL RWY"), "v": ("9999", "0800N")}
        head = "METAR PADK 151230Z 09014KT"
        pick = lambda k, n: " " + " ".join(kinds[k][i % len(kinds[k])] for i in range(n)) if n else ""
        for v in range(4):
            for r in range(0, 6):
                for w in range(0, 6):
                    for c in range(0, 7):
                        yield "metar", head + pick("v", v) + pick("rvr", r) + pick("wx", w) + pick("cl", c)
        for q in range(4):
            for s in range(6):
                for re_ in ("", " RERA", " RERA RETS"):
                    for end in ("", " W15/S2 R07/490593", " W15/H015 W15/S2 R88/SNOCLO R99/CLRD//"):
                        yield "metar", head + " 9999 29/M00" + pick("q", q) + re_ + pick("ws", s) + end
        for n in range(5):
            for w in itertools.product(("TEMPO", "BECMG", "NOSIG"), repeat=n):
                for body in (" FM1300 TL1400 25010G20KT 0800 RA BR FG FEW001 SCT002 BKN003 OVC004", " CAVOK", " TSRA", ""):
                    yield "metar", head + "".join(" " + x + body for x in w)
        taf = "TAF PADK 151130Z 1512/1612 09014KT 9999"
        words = ("FM15%02d00", "BECMG 15%02d/15%02d", "TEMPO 15%02d/15%02d", "PROB30 15%02d/15%02d", "PROB40 TEMPO 15%02d/15%02d")
        for n in range(12):
            for j in range(len(words) + 1):
                for body in (" 25010G20KT 0800 RA BR FG FEW001 SCT002 BKN003 OVC004", " CAVOK", ""):
                    t = taf
                    for i in range(n):
                        w = words[i % len(words) if j == len(words) else j]
                        t += " " + (w % ((13 + i,) if w.count("%") == 1 else (13 + i, 14 + i) if i < 10 else (13, 14))) + body
                    yield "taf", t
        for x in range(5):
            for n in range(5):
                for c in range(7):
                    for w in range(5):
                        for cut in ("", " FM151500 CAVOK"):
                            yield "taf", taf + pick("wx", w) + pick("cl", c) + " TX29/1518Z" * x + " TNM01/1606Z" * n + cut
    return gen


def kind_cases(th):
    """Every group over the value alphabets of its kind, in each of its sections."""
    def gen():
        for ctxs, f, toks in c_groups.every_group(th):
            for c in ctxs:
                for t in toks:
                    kind, body, secs = c_groups.sections_of(c, t, c_groups.PRE.get(f, ()))
                    yield kind, c_groups.text_of(kind, body, secs)
    return gen


def range_judge(case, st):
    """A TAF is refused if and only if it holds too many changes or temperatures."""
    body, changes = case
    try:
        model.taf(body, changes)
        want = "a report"
    except model.TooMany:
        want = "RangeError"
    for t in (False, True):
        got = "a report"
        try:
            env.Taf(model.taf_text(body, changes), year=Y, month=M, truncate=t)
        except env.RangeError:
            got = "RangeError"
        except env.ParserError:
            if not t:
                raise
        need(want, got, "creation%s" % (" with truncate" if t else ""))
    st.transitions += len(body) + len(changes)
    st.state((body, changes))
    st.outcome((want, len(changes), len(body)))


def range_cases(th):
    def gen():
        words = (("FM15%02d00", "CAVOK"), ("BECMG", "15%02d/15%02d", "CAVOK"), ("TEMPO", "15%02d/15%02d", "CAVOK"),
                 ("PROB30", "15%02d/15%02d", "CAVOK"), ("PROB40 TEMPO", "15%02d/15%02d", "CAVOK"))
        fill = lambda w, i: tuple(x % ((12 + i,) * x.count("%")) for x in w)
        for n in range(12):
            for kinds in itertools.product(range(5), repeat=2):
                yield T_TAF, tuple(fill(words[kinds[i % 2]], i) for i in range(n))
        for c in itertools.product(range(5) if th else (0, 2, 4), repeat=7):
            if th or c[:3] == c[3:6] or sorted(c) == list(c):
                for n in (7, 8, 9):
                    yield T_TAF, tuple(fill(words[c[i % 7]], i) for i in range(n))
        for k in range(7 if th else 6):
            for ts in itertools.product(("TX29/1518Z", "TNM01/1606Z", "TN05/1603Z"), repeat=k):
                for change in ((), (("TEMPO", "1513/1515", "CAVOK"),)):
                    yield T_TAF + ("9999",) + ts, change
                    yield T_TAF + ts[:2] + ("BKN010",) + ts[2:], change
    return gen


@check("C08")
def c08(tier):
    th = tier == "thorough"
    return [
        Family("characters", char_cases(th), robust_judge,
               "6 reports with every section: every deletion, insertion, replacement by %d characters, exchange, prefix and suffix" % (
                   len(EVERY) if th else len(FEWCHARS))),
        Family("fragments", frag_cases(th), robust_judge, "all sequences of up to 3 of %d fragments" % len(FRAG)),
        Family("odd-words", trunc_company(company.odd()), robust_judge, company.ODD),
        Family("limits", words_cases(th), robust_judge, "77 groups at the limits of their kind in 12 settings, and all pairs"),
        Family("numbers", number_cases(th), robust_judge,
               "all numbers of groups of every repeatable kind, and of trends and changes, up to some beyond the most"),
        Family("refused", range_cases(th), range_judge,
               "TAFs with 0 to 11 changes of all pairs of kinds, 7 to 9 of mixed kinds, all sequences of up to %d temperatures" % (6 if th else 5)),
        Family("groups", kind_cases(th), robust_judge,
               "every kind of group over its value alphabets (the largest thinned in the quick tier), in its sections"),
        Family("short", short_cases(th), robust_judge,
               "all texts of up to %d characters; all characters to U+%04X in 2 settings; 18 words repeated up to 1000 times" % (
                   3 if th else 2, 0x2fff if th else 0x24f)),
        Family("long-words", long_words(th), robust_judge,
               "12 beginnings x 110 characters and parts repeated 48 (30) times x %d ends in %d settings" % ((8, 4) if th else (4, 2))),
    ]
