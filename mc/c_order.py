"""C01-C05, C30, C31: accounting, order and sections of the groups."""
import collections
import itertools
import re

import company
import env
import model
import obs
import ref
from common import CHANGES, M, T_METAR, T_TAF, Y, build, codes, despace, need, pick, track
from engine import Family, Problem, check

METAR_FIELDS = ["station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility",
                "minimum_visibility", "runway_ranges", "weathers", "clouds", "temperatures",
                "pressure", "recent_weather", "windshears", "sea_state", "runway_state"]
TREND_FIELDS = ["wind", "prevailing_visibility", "weathers", "clouds"]
TAF_FIELDS = ["modifier", "station", "time", "missing", "cancelled", "wind",
              "prevailing_visibility", "weathers", "clouds"]

# one token for every field of a METAR, then tokens which several fields accept,
# then tokens which none does
CANON = ("METAR", "PADK", "151230Z", "AUTO", "09014KT", "070V130", "CAVOK", "1200NE", "R07/0800",
         "R25L/P1500N", "R10C/M0050V0350U", "-RA", "BR", "VCTS", "FEW005", "SCT015", "BKN030CB",
         "OVC100", "29/M01", "A2992", "Q1013", "RETS", "WS R07", "WS R25L", "WS RWY36C", "W15/S2",
         "R07/490593")
AMBIGUOUS = ("1013", "////", "///", "//////", "TEST", "SHRA", "NIL", "5000", "TAF", "SPECI", "COR",
             "/////", "R88/SNOCLO", "WS ALL RWY", "1 1/2SM", "TS", "MROC")
JUNK = ("XYZ", "FEWT030", "9999NDV", "12345", "QFE0987", "//", "09014", "WS", "R07", "ALL", "RWY")
TINY = ("PADK", "151230Z", "09014KT", "9999", "1200NE", "R07/0800", "-RA", "BKN030CB", "29/M01",
        "A2992", "RETS", "WS R07", "///", "SHRA", "XYZ", "1 1/2SM")
SMALL = ("METAR", "PADK", "151230Z", "AUTO", "09014KT", "070V130", "CAVOK", "1200NE", "R07/0800",
         "-RA", "BKN030CB", "29/M01", "A2992", "RETS", "WS R07", "W15/S2", "R07/490593",
         "1013", "////", "///", "TEST", "SHRA", "XYZ", "1 1/2SM", "WS ALL RWY")


def join(words):
    """The groups which the words of a section make up."""
    out, i = [], 0
    while i < len(words):
        w, nxt = words[i], words[i + 1] if i + 1 < len(words) else ""
        if i and all(c in "0123456789" for c in w) and nxt.endswith("SM") and "/" in nxt:
            out.append(w + " " + nxt)
            i += 2
        elif w.endswith("WS") and nxt == "ALL" and words[i + 2:i + 3] == ["RWY"]:
            out.append(w + " ALL RWY")
            i += 3
        elif w.endswith("WS") and re.match(r"R(WY)?\d\d", nxt):
            out.append(w + " " + nxt)
            i += 2
        else:
            out.append(w)
            i += 1
    return out


def legal(body):
    """Sequences whose words would join into other groups are not generated,
    nor are more than three groups of two words (no report has more)."""
    if sum(g.startswith("WS R") for g in body) > 3:
        return False
    if sum(" " in g and g.endswith("SM") for g in body) > 3:
        return False
    return join(" ".join(body).split(" ")) == list(body)


def walk(kind, tokens, st, path):
    track(st, kind, tokens, path)


def metar_codes(r):
    d = {f: (list(getattr(r, f).codes) if f in obs.LISTS else getattr(r, f).code)
         for f in METAR_FIELDS}
    return d


def section_codes(o):
    return {"wind": o.wind.code, "prevailing_visibility": o.prevailing_visibility.code,
            "weathers": list(o.weathers.codes), "clouds": list(o.clouds.codes)}


def flat(d):
    out = []
    for v in d.values():
        if isinstance(v, list):
            out += v
        elif v is not None:
            out.append(v)
    return out


def subsequence(xs, ys):
    it = iter(ys)
    return all(any(x == y for y in it) for x in xs)


# ------------------------------------------------------------------ C01
def norm_ws(t):
    return "WS R" + t[6:] if t.startswith("WS RWY") else t


def conserve_metar(case, st):
    """Every group is the code of one field, or unparsed; nothing else is."""
    body, trends, remark = case
    tokens = [t for t in body] + [t for tr in trends for t in tr]
    text = model.metar_text(body, trends, remark)
    r = build("metar", text)
    got = flat(metar_codes(r))
    ntr = 0
    for t in r.weather_trends.items:
        got += flat(section_codes(t))
        code = t.trend_indicator.code
        got += code.split(" ") if code else []
        ntr += 1
    typ = r.type_.code
    un = despace(r.unparsed_groups)
    have = collections.Counter(norm_ws(t) for t in got)
    have.update(norm_ws(t) for t in un)
    want = collections.Counter(norm_ws(t) for t in tokens)
    if want[typ] > have[typ]:
        have[typ] += 1               # the type is its token; otherwise the default
    elif typ != "METAR":
        raise Problem("type %s is not in the report" % typ)
    extra = have - want
    lost = want - have
    if extra:
        raise Problem("groups %r are reported but are not in the report" % dict(extra))
    p = r.pressure.code
    for g in list(lost):
        # the only group which may vanish is a pressure replaced by a later one
        if ref.pressure(g) and p is not None and lost[g] == 1 and len(lost) == 1 and \
                p in tokens[tokens.index(g) + 1:]:
            continue
        raise Problem("group %r is neither decoded nor unparsed" % g)
    if not subsequence([norm_ws(u) for u in un], [norm_ws(t) for t in tokens]):
        raise Problem("unparsed groups %r are not in the order of the report" % un)
    out, path = ref.run("metar", body)
    track(st, "metar", body, path)
    for tr in trends:
        o2, p2 = ref.run("trend", tr)
        track(st, "trend", tr, p2)
    st.outcome((tuple(got), tuple(un)))


def seqs(alpha, lo, hi, ok=legal):
    for k in range(lo, hi + 1):
        for c in itertools.product(alpha, repeat=k):
            if ok is None or ok(c):
                yield c


def bodies(alpha, lo, hi, pre=()):
    def gen():
        for c in seqs(alpha, lo, hi):
            b = pre + c
            if legal(b):
                yield (b, (), "")
    return gen


def changes_of(base, inserts, double=False, moves=True):
    """The report with one (two) groups deleted, moved, repeated, inserted."""
    def singles(b):
        n = len(b)
        for i in range(n):
            yield b[:i] + b[i + 1:]
        for i in range(n + 1):
            for t in inserts:
                yield b[:i] + (t,) + b[i:]
        if moves:
            for i in range(n):
                rest = b[:i] + b[i + 1:]
                for j in range(n):
                    if i != j:
                        yield rest[:j] + (b[i],) + rest[j:]
                for j in range(n + 1):
                    yield b[:j] + (b[i],) + b[j:]
            for i in range(n):
                for t in inserts:
                    yield b[:i] + (t,) + b[i + 1:]
    seen = set()
    first = [b for b in singles(base)]
    for b in first:
        if b not in seen and legal(b):
            seen.add(b)
            yield b
    if double:
        for f in first:
            for b in singles(f):
                if b not in seen and legal(b):
                    seen.add(b)
                    yield b


SHORT = ("METAR", "PADK", "151230Z", "09014KT", "9999", "-RA", "BKN030", "29/18", "Q1013", "RERA",
         "WS R07")
TR_ALPHA = ("FM1300", "TL1400", "AT1330", "25010KT", "5000", "TSRA", "OVC010CB", "XYZ", "///", "NSW",
            "A2992", "29/16", "1 1/2SM", "PADK", "1200NE")


def trend_cases(depth):
    def gen():
        base = T_METAR + ("09014KT", "9999")
        for w in ("TEMPO", "BECMG", "NOSIG"):
            for c in seqs(TR_ALPHA, 0, depth):
                yield (base, ((w,) + c,), "")
        for w1 in ("TEMPO", "BECMG", "NOSIG"):
            for w2 in ("TEMPO", "BECMG"):
                for c1 in seqs(TR_ALPHA, 1, 1):
                    for c2 in seqs(TR_ALPHA, 1, 2):
                        yield (base, ((w1,) + c1, (w2,) + c2), "RMK " + " ".join(c2))
    return gen


def words_of(r, kind):
    """All the words which a report accounts for."""
    if kind == "metar":
        have, parts = flat(metar_codes(r)) + r.remark.split(), r.weather_trends.items
    else:
        have, parts = flat(taf_codes(r)), r.changes_forecasted.items
    have += r.unparsed_groups
    for t in parts:
        have += flat(section_codes(t))
        i = t.trend_indicator if kind == "metar" else t.change_indicator
        have += [i.code] if i.code else []
        if kind == "taf" and i.code and i.code[:2] == "FM" and i.valid.code:
            have.append(i.valid.code)
    return collections.Counter(w for c in have for w in c.replace("_", " ").split())


def conserve_words(case, st):
    """Every word is accounted for, wherever the sections are taken to begin."""
    kind, words = case
    try:
        r = build(kind, " ".join(words))
    except env.RangeError:
        return
    have, want = words_of(r, kind), collections.Counter(words)
    if want[r.type_.code] > have[r.type_.code]:
        have[r.type_.code] += 1
    if have != want:
        raise Problem("words lost %r, invented %r" % (dict(want - have), dict(have - want)))
    for t in r.weather_trends.items if kind == "metar" else r.changes_forecasted.items:
        # a word which resembles a change word is none
        code = (t.trend_indicator if kind == "metar" else t.change_indicator).code or ""
        for w in code.split(" "):
            if w and not re.fullmatch(r"TEMPO|BECMG|NOSIG|(FM|TL|AT)\d{4}" if kind == "metar" else
                                      r"TEMPO|BECMG|PROB[34]0|FM\d{6}|\d{4}/\d{4}", w):
                raise Problem("%s is taken for a change word" % w)
    st.state((kind, words))
    st.transitions += len(words)
    st.outcome(tuple(r.unparsed_groups))


METAR_LIKE = ("TEMPO", "BECMG", "NOSIG", "RMK", "TEMPOX", "BECMG1", "NOSIG/", "RMKS", "XTEMPO", "-BECMG", "1NOSIG", "XRMK",
              "tempo", "25010KT", "XYZ", "SHRA", "FM1300", "BKN005")
TAF_LIKE = ("TEMPO", "BECMG", "PROB30", "PROB40", "FM151400", "FM1", "FM15140", "FM1514000", "FMX", "TEMPOX", "BECMG1", "PROB",
            "PROB10", "PROB300", "PROBX", "XTEMPO", "-PROB30", "1FM151400", "fm151400", "1516/1520", "5000", "XYZ")


def like(th):
    def gen():
        for kind, head, alpha in (("metar", T_METAR, METAR_LIKE), ("taf", T_TAF, TAF_LIKE)):
            for pre in ((), ("9999",), ("9999", "XYZ")):
                for k in range(1, 5 if th else 4):
                    for c in itertools.product(alpha, repeat=k):
                        yield kind, head + pre + c
    return gen


def likes(kind, th):
    return Family("words-like-section-words", lambda: (c for c in like(th)() if c[0] == kind), conserve_words,
                  "heading followed by all sequences of up to %d of %d words, %d of which begin with, contain or are section "
                  "words: every word accounted for once" % ((4 if th else 3,) + ((18, 13) if kind == "metar" else (22, 19))))


def long_texts(kind, th):
    """Texts with many groups, of which one in the middle differs."""
    head = T_METAR if kind == "metar" else T_TAF
    def gen():
        for n in (30, 45, 64, 65, 99, 100, 101, 128, 129, 200, 256, 257, 400) + ((1000, 1024, 1025, 4097) if th else ()):
            yield kind, head + tuple("X%04d" % i for i in range(n))
            yield kind, head + ("XYZ",) * n
            yield kind, head + ("9999",) + ("5000NE",) * n + ("FEW010",)
            yield kind, head + ("9999", "TEMPO") + tuple("X%04d" % i for i in range(n)) + ("5000",)
            yield kind, head + ("X" * n, "9999", "FEW010" * n)
            yield kind, head + ("9999", "BECMG", "X" * n, "5000", "5" * n)
    return Family("long-texts", gen, conserve_words, "texts of up to %d groups, and groups of up to %d letters" % (
        (4097, 6 * 4097) if th else (400, 2400)))


COMPANY = "reports with every two groups of different kinds, bare and otherwise full, and with every two groups of a section"


def in_company(kind, form, source=None):
    """The reports of company.py of a kind, as the cases of a judge."""
    def gen():
        for k, body, secs, remark in (source or company.reports(False))():
            if k == kind:
                yield form(body, secs, remark)
    return gen


def flat_words(body, secs, remark):
    return (body + tuple(w for s in secs for w in s) + tuple(remark.split()),)


@check("C01")
def c01(tier):
    th = tier == "thorough"
    full = CANON + AMBIGUOUS + JUNK
    return [
        Family("company", in_company("metar", lambda b, s, r: (b, s, r)), conserve_metar, COMPANY),
        Family("full-lists", in_company("metar", lambda b, s, r: (b, s, r), company.full_lists()), conserve_metar, company.FULL_LISTS),
        Family("odd-words", in_company("metar", lambda b, s, r: (b, s, r), company.odd()), conserve_metar, company.ODD),
        Family("sequences", bodies(full, 1, 3 if th else 2), conserve_metar,
               "all sequences of up to %d of %d groups" % (3 if th else 2, len(full))),
        Family("sequences-after-heading", bodies(full, 1, 3 if th else 2, T_METAR), conserve_metar,
               "type, station and time followed by all sequences of up to %d of %d groups" % (
                   3 if th else 2, len(full))),
        Family("deep-sequences", bodies(SMALL if th else TINY, 3, 4, ("PADK",)), conserve_metar,
               "station followed by all sequences of 3 and 4 of %d groups" % len(SMALL if th else TINY)),
        Family("changes", lambda: ((b, (), "") for b in changes_of(CANON, full)), conserve_metar,
               "a report with every field full: every deletion, move, repetition, replacement and "
               "insertion of a group of %d" % len(full)),
        Family("double-changes", lambda: ((b, (), "") for b in changes_of(
            SHORT, SMALL if th else ("1013", "XYZ", "///", "SHRA"), True, th)),
            conserve_metar, "an ordinary report: every pair of such changes" if th else
            "an ordinary report: every pair of deletions and insertions"),
        Family("trends", trend_cases(4 if th else 3), conserve_metar,
               "all trends of up to %d groups of 15; all pairs of trends of 1 and 2 groups" % (4 if th else 3)),
        likes("metar", th),
        long_texts("metar", th),
    ]


# ------------------------------------------------------------------ C02
def order_metar(case, st):
    body, trends, remark = case
    exp, paths = model.metar(body, trends, remark)
    walk("metar", body, st, paths[0])
    r = build("metar", model.metar_text(body, trends, remark))
    got = metar_codes(r)
    want = codes(exp, METAR_FIELDS)
    need(want, got, "codes")
    if "type" in [f for f, t in exp["order"]] and r.type_.code != exp["type_"]["code"]:
        raise Problem("type %s, expected %s" % (r.type_.code, exp["type_"]["code"]))
    need([norm_ws(u) for u in exp["unparsed_groups"]],
         [norm_ws(u) for u in despace(r.unparsed_groups)], "unparsed_groups")
    for tr, t, p in zip(exp["weather_trends"], r.weather_trends.items, paths[1:]):
        walk("trend", tuple(tk for f, tk in tr["order"]), st, p)
        need(codes(tr, TREND_FIELDS), section_codes(t), "trend")
        need(tr["indicator"]["code"], t.trend_indicator.code, "trend indicator")
        need(tr["unparsed_groups"], despace(t.unparsed_groups), "trend unparsed")
    need(len(exp["weather_trends"]), len(r.weather_trends), "number of trends")
    st.outcome(obs.canon([want, exp["unparsed_groups"]]))


def access(kind, canon):
    """For every position of the transducer: a shortest and a longest way to it."""
    slots = ref.SLOTS[kind]
    for p in range(len(slots) + 1):
        yield p, canon[:p]
        # the shortest: a single group which jumps there, if there is one
        for t in canon:
            if p and ref.step(kind, 0, t)[0] == p:
                yield p, (t,)
                break


def cover(kind, canon, alpha, depth, wrap, pre=()):
    """Transition cover: access sequence, then every sequence, then the canonical
    report as the suffix which tells every position from every other."""
    def gen():
        seen = set()
        for p, acc in access(kind, canon):
            for c in seqs(alpha, 0, depth, None):
                for suf in ((), canon):
                    b = acc + c + suf
                    if b and b not in seen and legal(b):
                        seen.add(b)
                        yield wrap(b)
    return gen


def few(bits, n, k=4):
    c = bin(bits).count("1")
    return c <= k or c >= n - k


def subsets_metar(every):
    """Every set of fields present, lists with one group and full."""
    groups = []
    for f, _, n in ref.compact(ref.METAR_SLOTS):
        groups.append((f, n))
    i, items = 0, []
    for f, n in groups:
        items.append((CANON[i:i + n], n))
        i += n
    sets = [bits for bits in range(1 << len(items)) if every or few(bits, len(items))]
    for bits in sets:
        yield tuple(t for k, (ts, n) in enumerate(items) if bits >> k & 1 for t in ts)
    for bits in sets:
        if any(bits >> k & 1 and n > 1 for k, (ts, n) in enumerate(items)):
            yield tuple(t for k, (ts, n) in enumerate(items) if bits >> k & 1 for t in ts[:1])


def multiplicities():
    """Every number of groups of every list, up to one more than it holds."""
    lists = {"R": ("R07/0800", "R25L/P1500N", "R10C/M0050V0350U", "R33/1000"),
             "W": ("-RA", "BR", "VCTS", "TS"), "C": ("FEW005", "SCT015", "BKN030CB", "OVC100", "BKN200"),
             "P": ("A2992", "Q1013", "Q1014"), "S": ("WS R07", "WS R25L", "WS RWY36C", "WS R36")}
    for a in range(5):
        for b in range(5):
            for c in range(6):
                for t in (0, 1, 2):
                    for p in range(4):
                        for s in range(5):
                            yield (T_METAR + ("09014KT", "CAVOK") + lists["R"][:a] + lists["W"][:b]
                                   + lists["C"][:c] + ("29/18", "30/19")[:t] + lists["P"][:p]
                                   + lists["S"][:s] + ("W15/S2",))


T_CANON = ("TEMPO", "FM1300", "TL1400", "25010KT", "5000", "TSRA", "BR", "DZ", "FEW005", "SCT010",
           "BKN020CB", "OVC100")


def as_trend(w):
    def wrap(b):
        return (T_METAR + ("09014KT", "9999"), ((w,) + b,), "")
    return wrap


@check("C02")
def c02(tier):
    th = tier == "thorough"
    full = CANON + AMBIGUOUS + JUNK[:4]
    return [
        Family("company", in_company("metar", lambda b, s, r: (b, s, r)), order_metar, COMPANY),
        Family("full-lists", in_company("metar", lambda b, s, r: (b, s, r), company.full_lists()), order_metar, company.FULL_LISTS),
        Family("odd-words", in_company("metar", lambda b, s, r: (b, s, r), company.odd()), order_metar, company.ODD),
        Family("transition-cover", cover("metar", CANON, full, 1, lambda b: (b, (), "")), order_metar,
               "every position of the 27-field order, reached in the shortest and longest way, then "
               "every one of %d groups, then nothing and the distinguishing suffix" % len(full)),
        Family("transition-pairs", cover("metar", CANON, full if th else SMALL, 2, lambda b: (b, (), "")),
               order_metar, "the same with every pair of %d groups" % (len(full) if th else len(SMALL))),
        Family("sequences", bodies(full, 1, 3 if th else 2), order_metar,
               "all sequences of up to %d of %d groups" % (3 if th else 2, len(full))),
        Family("subsets", lambda: ((b, (), "") for b in subsets_metar(th) if b), order_metar,
               "all 2^17 sets of fields, lists full and with one group" if th else
               "all sets of up to 4, or without up to 4, of the 17 fields, lists full and with one group"),
        Family("multiplicities", lambda: ((b, (), "") for b in multiplicities() if legal(b)), order_metar,
               "all numbers of ranges, weathers, layers, temperatures, pressures and wind shears"),
        Family("changes", lambda: ((b, (), "") for b in changes_of(CANON, full)), order_metar,
               "a report with every field full: every single change of a group"),
        Family("double-changes", lambda: ((b, (), "") for b in changes_of(
            SHORT, SMALL if th else ("1013", "XYZ", "///", "SHRA"), True, th)),
            order_metar, "an ordinary report: every pair of such changes" if th else
            "an ordinary report: every pair of deletions and insertions"),
        Family("trend-cover", cover("trend", T_CANON, TR_ALPHA, 2 if not th else 3, lambda b: as_trend("BECMG")(
            b[1:] if b[:1] == ("TEMPO",) else b) if "TEMPO" not in b[1:] else as_trend("BECMG")(
                tuple(t for t in b if t != "TEMPO"))), order_metar,
               "every position of the order of a trend, then every pair of 15 groups, then the suffix"),
        Family("trends", trend_cases(3), order_metar,
               "all trends of up to 3 groups of 15; all pairs of trends of 1 and 2 groups"),
    ]


# ------------------------------------------------------------------ C03 TAF
TAF_CANON = ("TAF", "AMD", "PADK", "151130Z", "NIL", "1512/1612", "CNL", "09014KT", "9999", "-RA",
             "BR", "VCTS", "FEW005", "SCT015", "BKN030CB", "OVC100", "TX29/1518Z", "TNM01/1606Z",
             "TX28/1612Z", "TN02/1512Z")
TAF_AMB = ("COR", "FMMI", "METAR", "SHRA", "///", "//////", "CAVOK", "P6SM", "1 1/2SM", "0800NE", "TEST",
           "NSW", "VRB03G15KT", "NSC")
TAF_JUNK = ("XYZ", "/////KT", "////", "A2992", "29/16", "QNH2992INS", "070V130", "R07/0800", "AUTO", "RETS")
TAF_SMALL = ("TAF", "AMD", "PADK", "151130Z", "NIL", "1512/1612", "CNL", "09014KT", "9999", "-RA",
             "BKN030CB", "TX29/1518Z", "TNM01/1606Z", "XYZ", "SHRA", "///", "COR", "FMMI", "1 1/2SM", "////")
TAF_TINY = ("AMD", "PADK", "151130Z", "NIL", "1512/1612", "CNL", "09014KT", "9999", "-RA", "BKN030CB",
            "TX29/1518Z", "XYZ", "SHRA", "///", "1 1/2SM")
CH_CANON = ("BECMG", "1514/1516", "09014KT", "9999", "-RA", "BR", "VCTS", "FEW005", "SCT015", "BKN030CB",
            "OVC100")
CH_ALPHA = ("1514/1516", "25010KT", "5000", "TSRA", "OVC010CB", "XYZ", "///", "NSW", "CAVOK", "////",
            "TX29/1518Z", "1 1/2SM", "PADK", "29/16", "/////KT", "BR", "SCT020")


def taf_ok(body):
    n = collections.Counter(t[:2] for t in body if ref.taf_temperature(t))
    return max(n.values(), default=0) <= 2


def taf_codes(t):
    d = {f: (list(getattr(t, f).codes) if f in obs.LISTS else getattr(t, f).code)
         for f in TAF_FIELDS}
    d["valid"] = t.valid.code
    d["max_temperatures"] = list(t.max_temperatures.codes)
    d["min_temperatures"] = list(t.min_temperatures.codes)
    return d


def order_taf(case, st):
    body, changes = case
    try:
        exp, paths = model.taf(body, changes)
    except (model.TooMany, NotImplementedError):
        return
    walk("taf", body, st, paths[0])
    r = build("taf", model.taf_text(body, changes))
    want = codes(exp, TAF_FIELDS + ["valid", "max_temperatures", "min_temperatures"])
    got = taf_codes(r)
    need(want, got, "codes")
    need(exp["type_"]["code"], r.type_.code, "type")
    need(exp["unparsed_groups"], despace(r.unparsed_groups), "unparsed_groups")
    need(len(exp["changes_forecasted"]), len(r.changes_forecasted), "number of changes")
    tokens = collections.Counter(body)
    for e, c, p in zip(exp["changes_forecasted"], r.changes_forecasted.items, paths[1:]):
        toks = tuple(tk for f, tk in e["order"])
        walk("change", toks, st, p)
        tokens.update(toks)
        need(codes(e, TREND_FIELDS), section_codes(c), "change")
        need(e["indicator"]["code"], c.change_indicator.code, "change indicator")
        need(e["unparsed_groups"], despace(c.unparsed_groups), "change unparsed")
    # accounting, independently of the order of the fields
    have = collections.Counter(flat(got))
    have.update(despace(r.unparsed_groups))
    for c in r.changes_forecasted.items:
        have.update(flat(section_codes(c)))
        code = c.change_indicator.code
        if code:
            if code.startswith("PROB") and " TEMPO" in code:
                have[code[:12]] += 1
                code = code[13:]
            have.update(x for x in code.split(" ") if x)
    if tokens[r.type_.code] > have[r.type_.code]:
        have[r.type_.code] += 1
    if have != tokens:
        raise Problem("groups lost %r, invented %r" % (dict(tokens - have), dict(have - tokens)))
    st.outcome(obs.canon([want, exp["unparsed_groups"]]))


def taf_bodies(alpha, lo, hi, pre=()):
    def gen():
        for c in seqs(alpha, lo, hi):
            b = pre + c
            if legal(b) and taf_ok(b):
                yield (b, ())
    return gen


def in_changes(words, gen_):
    def gen():
        for w in words:
            for c in gen_():
                yield (T_TAF, ((w,) + c,))
    return gen


CHANGE_WORDS = ("BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO")


def change_seqs(depth):
    def gen():
        for w in CHANGE_WORDS:
            for c in seqs(CH_ALPHA, 0, depth):
                yield (T_TAF, ((w,) + c,))
        for c in seqs(tuple(t for t in CH_ALPHA if "/15" not in t), 0, depth):
            yield (T_TAF, (("FM151400",) + c,))
    return gen


def many_changes():
    """Every number of changes, of every kind, with their groups in their own period."""
    kinds = (("FM151400", "24010KT", "5000"), ("BECMG", "1515/1517", "9999", "NSW"),
             ("TEMPO", "1516/1520", "1 1/2SM", "SHRA", "XYZ"), ("PROB30", "1518/1520", "BKN005"),
             ("PROB40 TEMPO", "1520/1524", "OVC010CB", "FG"))
    for k in range(0, 5):
        for c in itertools.product(kinds, repeat=k):
            yield (T_TAF + ("09014KT", "9999"), c)
    for k in range(5, 9):
        for i in range(5):
            yield (T_TAF, tuple(kinds[(i + j) % 5] for j in range(k)))
            yield (T_TAF, tuple(kinds[i] for j in range(k)))


@check("C03")
def c03(tier):
    th = tier == "thorough"
    full = TAF_CANON + TAF_AMB + TAF_JUNK
    cover_ch = cover("change", CH_CANON, CH_ALPHA, 2, lambda b: b)
    return [
        Family("company", in_company("taf", lambda b, s, r: (b, s)), order_taf, COMPANY),
        Family("full-lists", in_company("taf", lambda b, s, r: (b, s), company.full_lists()), order_taf, company.FULL_LISTS),
        Family("odd-words", in_company("taf", lambda b, s, r: (b, s), company.odd()), order_taf, company.ODD),
        Family("transition-cover", lambda: ((b, ()) for b in cover("taf", TAF_CANON, full, 1, lambda b: b)()
                                            if taf_ok(b[:b.index(TAF_CANON[0], 1)] if TAF_CANON[0] in b[1:] else b)),
               order_taf, "every position of the 20-field order, shortest and longest way, then every one of "
               "%d groups, then nothing and the distinguishing suffix" % len(full)),
        Family("transition-pairs", lambda: ((b, ()) for b in cover(
            "taf", TAF_CANON, full if th else TAF_SMALL, 2, lambda b: b)()), order_taf,
            "the same with every pair of groups"),
        Family("sequences", taf_bodies(full, 1, 3 if th else 2), order_taf,
               "all sequences of up to %d of %d groups" % (3 if th else 2, len(full))),
        Family("sequences-after-heading", taf_bodies(full, 1, 3 if th else 2, T_TAF), order_taf,
               "heading and period followed by all sequences of up to %d of %d groups" % (3 if th else 2, len(full))),
        Family("deep-sequences", taf_bodies(TAF_SMALL if th else TAF_TINY, 3, 4), order_taf,
               "all sequences of 3 and 4 of %d groups" % len(TAF_SMALL if th else TAF_TINY)),
        Family("subsets", lambda: ((tuple(t for k, t in enumerate(TAF_CANON) if bits >> k & 1), ())
                                   for bits in range(1, 1 << len(TAF_CANON)) if th or few(bits, len(TAF_CANON))),
               order_taf, "all sets of groups of a full TAF" if th else
               "all sets of up to 4, or without up to 4, of the 20 groups of a full TAF"),
        Family("changes-of-body", lambda: ((b, ()) for b in changes_of(TAF_CANON, full) if taf_ok(b)), order_taf,
               "a full TAF: every single change of a group"),
        Family("change-groups", change_seqs(3), order_taf,
               "7 change words followed by all sequences of up to 3 of %d groups" % len(CH_ALPHA)),
        Family("change-cover", lambda: ((T_TAF, (("BECMG",) + tuple(t for t in b if t != "BECMG"),))
                                        for b in cover_ch()), order_taf,
               "every position of the order of a change, then every pair of groups, then the suffix"),
        Family("many-changes", many_changes, order_taf,
               "all sequences of up to 4 of 5 change groups; 5 to 8 change groups"),
        likes("taf", th),
        long_texts("taf", th),
    ]


# ------------------------------------------------------------------ C04, C05 sections
def split_metar(words):
    """Sections of a METAR: (body, trend, remark, trends)."""
    body, trend, remark, cur = [], [], [], "body"
    out = {"body": [], "trend": [], "remark": []}
    for w in words:
        if w in ("NOSIG", "TEMPO", "BECMG"):
            cur = "trend"
        elif w == "RMK":
            cur = "remark"
        out[cur].append(w)
    trends = []
    for w in out["trend"]:
        if w in ("TEMPO", "BECMG") or not trends:
            trends.append([w])
        else:
            trends[-1].append(w)
    return out["body"], out["trend"], out["remark"], trends


def sections_metar(case, st):
    words = case[0]
    body, trend, remark, trends = split_metar(words)
    r = build("metar", " ".join(words))
    want = [" ".join(body), " ".join(trend), " ".join(remark)]
    need(want, list(r.sections), "sections")
    need(want, [r.body, r.trend, r.remark], "body, trend, remark")
    need(" ".join(words), r.raw_code, "raw_code")
    # nothing of a section is decoded in another
    exp, paths = model.metar(tuple(body), tuple(map(tuple, trends)), " ".join(remark))
    need(codes(exp, METAR_FIELDS), metar_codes(r), "codes")
    need(len(trends), len(r.weather_trends), "number of trends")
    for e, t in zip(exp["weather_trends"], r.weather_trends.items):
        need(e["code"], t.code, "trend code")
        need(codes(e, TREND_FIELDS), section_codes(t), "trend codes")
        need(e["indicator"]["code"], t.trend_indicator.code, "trend indicator")
    need(exp["unparsed_groups"], despace(r.unparsed_groups), "unparsed_groups")
    st.state((want[0], want[1], want[2]))
    st.transitions += len(words)
    st.outcome(tuple(want))


SEC_WORDS = ("NOSIG", "TEMPO", "BECMG", "RMK")


def sec_ok(ws):
    """At most two trends, none of them empty, NOSIG first among them."""
    n = ws.count("TEMPO") + ws.count("BECMG")
    trend_words = [w for w in ws if w in ("NOSIG", "TEMPO", "BECMG")]
    if len(trend_words) > 2 or trend_words.count("NOSIG") > 1 or "NOSIG" in trend_words[1:]:
        return False
    for i, w in enumerate(ws):
        if w in ("TEMPO", "BECMG") and (i + 1 == len(ws) or ws[i + 1] in SEC_WORDS):
            return False
    return True


def section_words(alpha, depth, pre):
    def gen():
        for k in range(depth + 1):
            for c in itertools.product(SEC_WORDS + alpha, repeat=k):
                if sec_ok(c):
                    yield (pre + c,)
    return gen


NOT_METAR = ("FM131200", "PROB30", "INTER", "TL1400", "TEMP", "BECM", "NOSI", "RM", "RE", "NIL", "AND", "TAF", "1512/1612", "BLU", "QNH1013", "CNL",
             "tempo", "rmk", "COR", "SPECI", "FM", "SLP140")
NOT_TAF = ("RMK", "NOSIG", "INTER", "TL1400", "AT1300", "TEMP", "BECM", "PRO", "FM", "FMX1200", "AMD", "COR", "NIL", "AND", "METAR", "tempo", "becmg",
           "QNH2992INS", "TX12/1516Z", "rmk", "NXT", "WND")


def other_words(alpha, sec, head):
    """Words which begin no section, at every place between those which do."""
    def gen():
        for s in itertools.product(sec, repeat=2):
            for base in ((), s[:1], s[:1] + ("9999",), s[:1] + ("9999",) + s[1:] + ("BKN010",)):
                for i in range(len(base) + 1):
                    for w in alpha:
                        yield (head + base[:i] + (w,) + base[i:],)
                        yield (head + base[:i] + (w, "25010KT") + base[i:],)
                        yield (head + ("25010KT",) + base[:i] + (w, w) + base[i:],)
    def unique():
        seen = set()
        for c in gen():
            if c not in seen and sec_ok(c[0][len(head):]):
                seen.add(c)
                yield c
    return unique


REMARKS = ("RMK A01", "RMK AO2 SLP140 T02940233", "RMK 9999 TSRA BKN010 29/16 A2992", "RMK RMK X",
           "RMK QFE0987 | A=B".replace("=", ":"), "RMK WS R07 1 1/2SM", "RMK FM1200 PROB30 METAR PADK 151230Z",
           "RMK //// /// VEL MAX VTO 25KT", "RMK 20%/30 (A) [B] {C} \\d+ .* ? $1 ^", "RMK TEMP NOSI BECM TEMPS RM")


def remark_cases():
    bodies_ = (T_METAR, T_METAR + ("09014KT", "9999", "BKN030", "29/18", "Q1013"), CANON, ("PADK",))
    trs = ((), (("NOSIG",),), (("TEMPO", "5000", "TSRA"),), (("BECMG", "FM1300", "25010KT"), ("TEMPO", "1 1/2SM")),
           (("TEMPO", "0800"), ("BECMG", "CAVOK")), (("TEMPO", "0800"), ("TEMPO", "BKN005")),
           (("BECMG", "0800"), ("BECMG", "BKN005")), (("NOSIG",), ("TEMPO", "0800")))
    for b in bodies_:
        for t in trs:
            for rm in REMARKS + ("",):
                words = " ".join(b).split(" ") + [w for tr in t for x in tr for w in x.split(" ")] + rm.split(" ")
                yield (tuple(w for w in words if w), b, t, rm)


def remark_judge(case, st):
    words, body, trends, remark = case
    r = build("metar", " ".join(words))
    alone = build("metar", model.metar_text(body, trends))
    a, b = obs.metar(r), obs.metar(alone)
    need(remark, a["remark"], "remark")
    for k in ("raw_code", "sections", "remark"):
        a.pop(k), b.pop(k)
    need(b, a, "with the remark")
    st.transitions += len(words)
    st.state((body, trends, remark))
    st.outcome((remark, obs.canon(a["weather_trends"])))


@check("C04")
def c04(tier):
    th = tier == "thorough"
    return [
        Family("company", in_company("metar", flat_words), sections_metar, COMPANY),
        Family("odd-words", in_company("metar", flat_words, company.odd()), sections_metar, company.ODD),
        Family("words", section_words(("9999", "BKN010", "TL1400", "XYZ"), 7 if th else 6,
                                      ("METAR", "PADK", "151230Z")), sections_metar,
               "all sequences of up to %d words of 4 section words and 4 groups" % (7 if th else 6)),
        Family("words-after-body", section_words(("5000", "OVC005", "RETS", "FM1300", "25015G25KT", "29/16"), 5 if th else 4,
                                                 T_METAR + ("09014KT", "9999", "SCT020", "29/18", "A2992")),
               sections_metar, "all sequences of up to %d words of 4 section words and 6 groups" % (5 if th else 4)),
        Family("other-words", other_words(NOT_METAR, SEC_WORDS, T_METAR), sections_metar,
               "22 words which begin no section, at every place in 4 arrangements of all pairs of section words"),
        Family("remarks", remark_cases, remark_judge,
               "4 bodies x 8 trends x 11 remarks: the remark changes nothing else"),
    ]


def split_taf(tokens):
    body, changes, joined = [], [], []
    for t in tokens:
        if t == "TEMPO" and joined and joined[-1] in ("PROB30", "PROB40"):
            joined[-1] += " TEMPO"
        else:
            joined.append(t)
    for i, t in enumerate(joined):
        w = t.split(" ")[0]
        if i and (w in ("TEMPO", "BECMG", "PROB30", "PROB40") or
                  (w.startswith("FM") and w[2:3].isdigit())):
            changes.append([t])
        elif changes:
            changes[-1].append(t)
        else:
            body.append(t)
    return tuple(body), tuple(map(tuple, changes))


def sections_taf(case, st):
    tokens = case[0]
    body, changes = split_taf(tokens)
    try:
        exp, paths = model.taf(body, changes)
    except (model.TooMany, NotImplementedError):
        return
    r = build("taf", " ".join(tokens))
    want = [" ".join(body), " ".join(" ".join(c) for c in changes)]
    need(want, list(r.sections), "sections")
    need(want, [r.body, r.weather_changes], "body, weather_changes")
    need(" ".join(tokens), r.raw_code, "raw_code")
    need(codes(exp, TAF_FIELDS), {f: v for f, v in taf_codes(r).items() if f in TAF_FIELDS}, "codes")
    need([e["code"] for e in exp["changes_forecasted"]], [c.code for c in r.changes_forecasted.items],
         "codes of the changes")
    need([e["indicator"]["code"] for e in exp["changes_forecasted"]],
         [c.change_indicator.code for c in r.changes_forecasted.items], "change indicators")
    for e, c in zip(exp["changes_forecasted"], r.changes_forecasted.items):
        need(codes(e, TREND_FIELDS), section_codes(c), "change codes")
    need(exp["unparsed_groups"], despace(r.unparsed_groups), "unparsed_groups")
    st.state(tuple(want))
    st.transitions += len(tokens)
    st.outcome(tuple(want))


def taf_words(alpha, depth, heads):
    def gen():
        for h in heads:
            for k in range(depth + 1):
                for c in itertools.product(alpha, repeat=k):
                    yield (h + c,)
    return gen


HEADS = tuple(a + (s, "151130Z", "1512/1612") for a in ((), ("TAF",), ("TAF", "AMD"), ("TAF", "COR"), ("AMD",))
              for s in ("PADK", "FMMI", "FM1X", "FMEE", "BECM", "TEMP", "KTAF")
              if not (s == "FM1X" and a))


def fm_stations():
    codes_ = sorted(c for c in stations() if c.startswith("FM"))
    for a in ((), ("TAF",), ("TAF", "AMD"), ("TAF", "COR"), ("AMD",)):
        for s in codes_:
            for rest in ((), ("FM151800", "25010KT"), ("BECMG", "1513/1515", "9999"), ("PROB30 TEMPO", "1513/1515", "TS")):
                yield (a + (s, "151130Z", "1512/1612", "09014KT") + rest,)


def stations():
    import gzip
    import json
    import os
    with gzip.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "stations.json.gz")) as f:
        return [r[1] for r in json.loads(f.read()) if r[1] != "None"]


CH_SEC = ("FM151800", "TEMPO", "BECMG", "PROB30", "PROB40 TEMPO", "1514/1516", "9999", "XYZ", "FM160130")


@check("C05")
def c05(tier):
    th = tier == "thorough"
    return [
        Family("company", in_company("taf", flat_words), sections_taf, COMPANY),
        Family("odd-words", in_company("taf", flat_words, company.odd()), sections_taf, company.ODD),
        Family("words", taf_words(CH_SEC[:8], 6 if th else 5, (T_TAF,)), sections_taf,
               "all sequences of up to %d of 8 words and groups" % (6 if th else 5)),
        Family("headings", taf_words(CH_SEC + ("SHRA", "1 1/2SM"), 3, HEADS), sections_taf,
               "%d headings x all sequences of up to 3 of 11 words and groups" % len(HEADS)),
        Family("other-words", other_words(NOT_TAF, ("FM151800", "TEMPO", "BECMG", "PROB30", "PROB40 TEMPO"), T_TAF), sections_taf,
               "22 words which begin no section, at every place in 4 arrangements of all pairs of change words"),
        Family("fm-stations", fm_stations, sections_taf, "every station code which begins with FM"),
        Family("many-changes", lambda: ((b + tuple(t for c in ch for t in c),) for b, ch in many_changes()),
               sections_taf, "all sequences of up to 4 of 5 change groups; 5 to 8 change groups"),
        Family("prob-tempo", lambda: ((T_TAF + tuple(t for i in range(n) for t in (w[i % len(w)], "15%02d/15%02d" % (12 + i, 14 + i), "TSRA")),)
                                      for n in range(9) for w in itertools.product(
                                          ("PROB30 TEMPO", "PROB40 TEMPO", "PROB30", "TEMPO"), repeat=2)), sections_taf,
               "0 to 8 change groups alternating 4 probability words"),
    ]


# ------------------------------------------------------------------ C30 absent groups
FIELDS = ("type_", "station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "temperatures",
          "pressure", "recent_weather", "sea_state", "runway_state", "missing", "cancelled", "valid", "trend_indicator", "change_indicator")
COLLECTIONS = ("runway_ranges", "weathers", "clouds", "windshears", "weather_trends", "max_temperatures", "min_temperatures",
               "changes_forecasted")


def truth(x):
    """An absent group is false and has no length, another has that of its code; the same of lists."""
    for f in FIELDS:
        g = getattr(x, f, None)
        if g is not None and not (f == "trend" or callable(g)):
            n = len(g.code) if g.code is not None else 0
            need(n, len(g), "length of " + f)
            need(n > 0, bool(g), "truth of " + f)
    for f in COLLECTIONS:
        lst = getattr(x, f, None)
        if lst is not None:
            need(len(lst.items), len(lst), "length of " + f)
            need(len(lst.items) > 0, bool(lst), "truth of " + f)
            for i in lst.items:
                if i.code is not None:
                    need(len(i.code), len(i), "length of an item of " + f)
                need(i.code is not None, bool(i), "truth of an item of " + f)


def absent_metar(case, st):
    """Fields whose group is not in the report have no value."""
    kind, toks = case
    if kind == "metar":
        exp, paths = model.metar(toks)
        r = x = build("metar", " ".join(toks))
        got = obs.metar(r)
        present = {f for f, t in exp["order"] if f}
        single = [f for f in obs.METAR_SINGLE if f not in ("type_", "time", "station")]
        lists = obs.METAR_LISTS
    elif kind == "taf":
        exp, paths = model.taf(toks)
        r = x = build("taf", " ".join(toks))
        got = obs.taf(r)
        present = {f for f, t in exp["order"] if f}
        single = ["modifier", "missing", "cancelled", "wind", "prevailing_visibility"]
        lists = ["weathers", "clouds"]
        for f in ("max_temperatures", "min_temperatures"):
            need(len(exp[f]), len(got[f]), f)
    elif kind == "trend":
        e, paths = model.metar(T_METAR + ("25015G25KT", "0800", "FG", "VV001"), (toks,))
        exp = e["weather_trends"][0]
        r = build("metar", model.metar_text(T_METAR + ("25015G25KT", "0800", "FG", "VV001"), (toks,)))
        x = r.weather_trends.items[0]
        got = obs.trend(x)
        present = {f for f, t in exp["order"] if f}
        single, lists = ["wind", "prevailing_visibility"], ["weathers", "clouds"]
        if "period" not in present:
            need(exp["indicator"], got["indicator"], "trend indicator")
    else:
        e, paths = model.taf(T_TAF + ("25015G25KT", "0800", "FG", "VV001"), (toks,))
        exp = e["changes_forecasted"][0]
        r = build("taf", model.taf_text(T_TAF + ("25015G25KT", "0800", "FG", "VV001"), (toks,)))
        x = r.changes_forecasted.items[0]
        got = obs.change(x)
        present = {f for f, t in exp["order"] if f}
        single, lists = ["wind", "prevailing_visibility"], ["weathers", "clouds"]
    truth(r)
    if x is not r:
        truth(x)
    for f in single:
        if f not in present:
            need(exp[f], got[f], "absent " + f)
    for f in lists:
        if f not in present:
            need([], got[f], "absent " + f)
    if kind == "metar" and "station" not in present or kind == "taf" and "station" not in present:
        need({p: None for p in obs.PROPS["station"]}, got["station"], "absent station")
    if not present & {"prevailing_visibility", "clouds"}:
        need(None, got["flight_rules"], "flight rules without visibility and clouds")
        need(False, got["should_be_cavok"], "should_be_cavok without visibility and clouds")
        need(False, got["ceiling"], "ceiling without clouds")
    track(st, kind, toks, paths[0] if kind in ("metar", "taf") else paths[-1])
    st.outcome(obs.canon(got))


def absent_cases(th):
    for b in subsets_metar(th):
        if b:
            yield ("metar", b)
    tc = TAF_CANON[:16]
    for bits in range(1, 1 << len(tc)):
        if th or few(bits, len(tc)):
            yield ("taf", tuple(t for k, t in enumerate(tc) if bits >> k & 1))
    for w in ("TEMPO", "BECMG", "NOSIG"):
        t = T_CANON[1:]
        for bits in range(1 << len(t)):
            yield ("trend", (w,) + tuple(x for k, x in enumerate(t) if bits >> k & 1))
    for w in CHANGE_WORDS + ("FM151400",):
        t = CH_CANON[1:] if w != "FM151400" else CH_CANON[2:]
        for bits in range(1 << len(t)):
            yield ("change", (w,) + tuple(x for k, x in enumerate(t) if bits >> k & 1))


def parts_judge(case, st):
    """The parts which a group does not have are absent from its values."""
    import c_groups as g
    ctx, tok, f = case
    if model.quirky(tok):
        return
    kind, body, secs = g.sections_of(ctx, tok, g.PRE.get(f, ()))
    e = g.where(kind, ctx, g.expected(kind, body, secs)[0])[f]
    x = getattr(g.where_obj(ctx, build(kind, g.text_of(kind, body, secs))), f)
    if f in obs.LISTS:
        got = obs.plist(f, x)
    elif f.endswith("_temperatures"):
        got = obs.tafs_temps(x)
    else:
        got = obs.props(f, x)
    es, gs = (e, got) if isinstance(e, list) else ([e], [got])
    need(len(es), len(gs), "number of " + f)
    for a, b in zip(es, gs):
        for k, v in a.items():
            if v is None or v is False:
                need(v, b[k], "absent %s of %s" % (k, tok))
        st.transitions += 1
        st.outcome((f, tuple(k for k in b if b[k] is None or b[k] is False)))
    st.state((ctx, tok, f))


def part_cases(th):
    import c_groups as g
    for ctxs, f, toks in g.every_group(th):
        for c in ctxs:
            for t in toks:
                yield c, t, f


def nothing_there(e, g, path=""):
    """What is absent from the model of the report is absent from the report."""
    if isinstance(e, dict):
        for k, v in e.items():
            if k in g and k not in ("should_be_cavok", "flight_rules", "ceiling", "station", "order"):
                nothing_there(v, g[k], path + "." + k)
    elif isinstance(e, list) and e and len(e) == len(g):
        for n, (a, b) in enumerate(zip(e, g)):
            nothing_there(a, b, "%s[%d]" % (path, n))
    elif e is None or e is False or e == []:
        need(e, g, "absent" + path)


def nothing_judge(case, st):
    kind, body, secs, remark = case
    if kind == "metar":
        exp = model.metar(body, secs, remark)[0]
        r = build("metar", model.metar_text(body, secs, remark))
    else:
        exp = model.taf(body, secs)[0]
        r = build("taf", model.taf_text(body, secs))
    got = obs.report(r)
    nothing_there(exp, got)
    st.transitions += len(exp)
    st.state(case)
    st.outcome(tuple(k for k in exp if exp[k] in (None, [], False)))


@check("C30")
def c30(tier):
    return [Family("company", company.reports(False), nothing_judge, COMPANY),
            Family("parts", lambda: part_cases(tier == "thorough"), parts_judge,
                   "every kind of group over its value alphabets (the largest thinned in the quick tier), in its sections"),
            Family("subsets", lambda: absent_cases(tier == "thorough"), absent_metar,
                   ("all 2^17 sets of fields of a METAR, 2^16 sets of groups of a TAF" if tier == "thorough"
                    else "all sets of up to 4, or without up to 4, of the 17 fields of a METAR and of the "
                    "16 groups of a TAF") + ", and all sets of groups of trends and changes, for every change word")]


# ------------------------------------------------------------------ C31 locality
RICH = (
    ("time", ("151230Z",)), ("modifier", ("AUTO", "COR", "NIL")),
    ("wind", ("00000KT", "VRB03G15MPS", "/////KT", "25035G50KT")),
    ("wind_variation", ("070V130", "350V010")),
    ("prevailing_visibility", ("9999", "CAVOK", "1 1/2SM", "0050", "////", "P6SM", "5000NE")),
    ("minimum_visibility", ("1200NE", "0000", "////")),
    ("runway_ranges", ("R07/0800", "R88/P1500FTU", "R10C/M0050V0350D")),
    ("weathers", ("-RA", "VCTS", "+FZFG", "NSW")),
    ("clouds", ("BKN015", "VV///", "OVC010CB", "NSC", "//////TCU", "FEW100")),
    ("temperatures", ("29/M01", "//////"[:5], "M00/M10")),
    ("pressure", ("A2992", "Q0987", "2992INS")),
    ("recent_weather", ("RETS", "RERA")),
    ("windshears", ("WS R07", "WS ALL RWY")),
    ("sea_state", ("W15/S2", "WM01/H105")),
    ("runway_state", ("R07/490593", "R99/CLRD//", "R/SNOCLO")),
)


def local_judge(case, st):
    """In company every group has the value which it has alone."""
    toks = case[0]
    body = ("METAR", "PADK") + tuple(t for f, t in toks)
    r = build("metar", " ".join(body))
    for f, t in toks:
        pre = ("METAR", "PADK")
        # a minimum visibility needs a prevailing one before it to be read as such
        alone = build("metar", " ".join(pre + (("CAVOK",) if f == "minimum_visibility" else ()) + (t,)))
        if f in obs.LISTS:
            a = [g for g in obs.plist(f, getattr(alone, f)) if g["code"] == t]
            b = [g for g in obs.plist(f, getattr(r, f)) if g["code"] == t]
        else:
            a, b = obs.props(f, getattr(alone, f)), obs.props(f, getattr(r, f))
        if not a:
            raise Problem("%s is not decoded as %s" % (t, f))
        need(a, b, "%s in company" % f)
        st.outcome(obs.canon(b))
    st.transitions += len(body)
    st.state(body)


def local_cases(k):
    def gen():
        for idx in itertools.combinations(range(len(RICH)), k):
            fields = [RICH[i] for i in idx]
            names = [f for f, _ in fields]
            # a minimum visibility is the second visibility group
            if "minimum_visibility" in names and "prevailing_visibility" not in names:
                continue
            for toks in itertools.product(*[ts for f, ts in fields]):
                yield (tuple(zip(names, toks)),)
    return gen


def wide():
    """Field -> groups which cover the combinations of their parts."""
    import c_groups as g

    def prod(*parts):
        return ["".join(p) for p in itertools.product(*parts)]
    w = [t for t in prod(("VRB", "///", "000", "250", "360"), ("00", "12", "//", "120"), ("", "G35", "GP100"), ("KT", "MPS")) if ref.wind(t)]
    c = prod(("FEW", "SCT", "BKN", "OVC", "0VC", "VV", "NSC", "NCD", "SKC", "CLR", "///"), ("", "///", "000", "005", "100"), ("", "CB", "TCU", "///"))
    x = [t for t in prod(("", "-", "+VC"), ("", "SH", "FZ", "TS"), ("RA", "SN", "FG", "VA", "SQ", "FC", "NSW")) if ref.weather(t)]
    return {
        "time": ("151230Z", "010000Z", "312459Z"),
        "modifier": ("COR", "CORR", "AMD", "NIL", "AUTO", "TEST", "FINO"),
        "wind": w,
        "wind_variation": ("070V130", "350V010", "010V360", "180V180"),
        "prevailing_visibility": ("9999", "CAVOK", "0000", "0050", "5000", "9000", "10SM", "1 1/2SM", "1/4SM", "P6SM", "M1/4SM", "3KM",
                                  "////", "5000NE", "////N", "9999SW", "0800W", "0SM", "12 1/2SM"),
        "minimum_visibility": ("1200NE", "0000", "////", "////SW", "5000", "0300N", "9999"),
        "runway_ranges": prod(("R07/", "R10C/", "R88/", "R24L/"), ("0800", "M0050", "P1500"), ("", "V2000", "VP2000"), ("", "FT"), ("", "N", "D")),
        "weathers": x,
        "clouds": [t for t in c if ref.cloud(t) and not ref.weather(t)],
        "temperatures": prod(("29", "M01", "00", "M00", "-05", "//", "XX"), ("/",), ("16", "M01", "00", "//", "MM")),
        "pressure": ("A2992", "Q0987", "2992INS", "QNH1013", "Q////", "QNH2992INS"),
        "recent_weather": ("RETS", "RERA", "RETSRA", "REFZFG", "RESQ", "REVA", "RESHSN"),
        "windshears": ("WS R07", "WS ALL RWY", "WS R07L", "WS RWY25C"),
        "sea_state": prod(("W15/", "WM01/", "W00/"), ("S0", "S2", "S9", "H000", "H105")),
        "runway_state": ("R07/490593", "R99/CLRD//", "R/SNOCLO", "R88/CLRD//", "R07////////", "R10L/019935", "R24/////99//", "R07/SNOCLO"),
    }


def wide_pairs(th):
    w = wide()
    step = {f: max(1, len(ts) // (90 if th else 24)) for f, ts in w.items()}
    for a, b in itertools.combinations(w, 2):
        if "minimum_visibility" in (a, b) and a != "prevailing_visibility":
            continue
        for n, s in enumerate(w[a]):
            # the step and its phase vary, so that all groups occur
            for t in w[b][n % step[b]::step[b]]:
                if "WS RWY" not in s + t:
                    yield (((a, s), (b, t)),)


def section_local(case, st):
    """A group has the same value in a body, a trend, a TAF and a change period."""
    f, t, others = case
    vals = []
    for kind in ("metar", "trend", "nosig", "trend2", "taf", "change", "fm", "prob"):
        toks = tuple(others[0]) + (t,) + tuple(others[1])
        if kind == "metar":
            o = build("metar", " ".join(T_METAR + toks))
        elif kind == "trend":
            o = build("metar", model.metar_text(T_METAR, (("TEMPO",) + toks,))).weather_trends.items[0]
        elif kind == "nosig":
            o = build("metar", model.metar_text(T_METAR, (("NOSIG",) + toks,))).weather_trends.items[0]
        elif kind == "trend2":
            o = build("metar", model.metar_text(T_METAR + ("36040KT", "0100", "FG", "VV001"), (
                ("BECMG", "TL1300", "VRB01KT", "0200"), ("TEMPO", "FM1300") + toks,))).weather_trends.items[1]
        elif kind == "taf":
            o = build("taf", " ".join(T_TAF + toks))
        elif kind == "change":
            o = build("taf", model.taf_text(T_TAF, (("BECMG", "1513/1515") + toks,))).changes_forecasted.items[0]
        elif kind == "fm":
            o = build("taf", model.taf_text(T_TAF + ("36040KT", "0100", "FG", "VV001"), (
                ("TEMPO", "1513/1515", "0200"), ("FM151800",) + toks))).changes_forecasted.items[1]
        else:
            o = build("taf", model.taf_text(T_TAF, (("FM151300", "0200"), ("BECMG", "1514/1515", "VRB01KT"), (
                "PROB30 TEMPO", "1518/1520") + toks))).changes_forecasted.items[2]
        d = obs.part(o, ["wind", "prevailing_visibility"], ["weathers", "clouds"])
        d.update(obs.derived(o))
        vals.append((kind, d))
        st.transitions += len(toks)
    for kind, d in vals[1:]:
        need(vals[0][1], d, "%s, as in the body" % kind)
    st.state((f, t, others))
    st.outcome(obs.canon(vals[0][1]))


def section_cases():
    rich = {f: ts for f, ts in RICH}
    w = ("00000KT", "VRB03G15MPS", "25035G50KT", "P99KT"[:0] or "360P49KT", "12008MPS")
    v = ("9999", "CAVOK", "1 1/2SM", "0050", "P6SM", "5000NE", "1/4SM", "10SM", "3KM")
    x = ("-RA", "VCTS", "+FZFG", "NSW", "SHSN")
    c = ("BKN015", "VV///", "OVC010CB", "NSC", "//////TCU", "FEW100", "SCT///", "VV001", "OVC000")
    parts = [("wind", w), ("prevailing_visibility", v), ("weathers", x), ("clouds", c)]
    for bits in range(1, 16):
        sel = [p for k, p in enumerate(parts) if bits >> k & 1]
        for toks in itertools.product(*[ts for f, ts in sel]):
            yield (sel[0][0], toks[0], ((), toks[1:]))
    for cs in itertools.product(c, repeat=3):
        yield ("clouds", cs[0], (("5000",), cs[1:]))


def language_judge(case, st):
    """One group, as the only one of its field, in every section of one METAR and one TAF."""
    f, t = case
    m = build("metar", model.metar_text(T_METAR + (t,), (("TEMPO", "FM1300", t), ("BECMG", t)), "RMK " + t))
    n2 = build("metar", model.metar_text(T_METAR, (("NOSIG", t), ("BECMG", "TL1400", t))))
    secs = [("metar", m)] + [("trend%d" % n, x) for n, x in enumerate(m.weather_trends.items + n2.weather_trends.items)]
    partial = "/" in t and f in ("wind", "prevailing_visibility") and ref.prevailing(t, False) is None
    c = build("taf", model.taf_text(T_TAF + (() if partial else (t,)), () if partial else (
        ("BECMG", "1513/1515", t), ("FM151800", t), ("TEMPO", "1520/1524", t), ("PROB30 TEMPO", "1600/1604", t), ("PROB40", t))))
    if not partial:
        secs += [("taf", c)] + [("change%d" % n, x) for n, x in enumerate(c.changes_forecasted.items)]
        need(11, len(secs), "number of sections")
    want = None
    for name, o in secs:
        d = obs.part(o, ["wind", "prevailing_visibility"], ["weathers", "clouds"])
        d.update(obs.derived(o))
        st.transitions += 1
        if want is None:
            want = d
            g = d[f]
            if [g["code"]] != [t] if isinstance(g, dict) else [x["code"] for x in g] != [t]:
                raise Problem("%s is not decoded as %s" % (t, f))
        else:
            need(want, d, "%s in %s, as in the body" % (t, name))
    st.state(case)
    st.outcome(obs.canon(want))


def language(th):
    import c_groups as g
    winds = itertools.chain(g.winds_quick(), g.winds_speed() if th else (
        d + s + x + u for d in ("250", "VRB") for u in ("KT", "MPS") for s in ("08", "105") for x in ["G" + y for y in g.D2 + g.D3[::9]]))
    for t in winds:
        if ref.wind(t):
            yield "wind", t
    for t in itertools.chain(g.vis_four() if th else (v + d for v in g.D4[::20] + ["9999", "////"] for d in g.COMPASS), g.vis_miles(), g.vis_mixed()):
        if ref.prevailing(t):
            yield "prevailing_visibility", t
    for t in g.weathers_all():
        if ref.weather(t):
            yield "weathers", t
    for c in g.COVERS:
        for h in (g.D3 if th else g.D3[:100] + g.D3[100::25]) + ["", "///"]:
            for k in g.CTYPES:
                if ref.cloud(c + h + k) and not ref.weather(c + h + k):
                    yield "clouds", c + h + k


def listed_pairs(th):
    w = wide()
    for f in ("runway_ranges", "weathers", "clouds", "windshears"):
        ts = [t for t in w[f] if "RWY2" not in t]
        for kind in ("metar", "trend", "change") if f in ("weathers", "clouds") else ("metar",):
            for n, a in enumerate(ts):
                for b in ts if kind == "metar" or th else ts[n % 5::5]:
                    yield f, (a, b), kind


LISTED = {
    "runway_ranges": ("R07/0800", "R88/P1500FTU", "R10C/M0050V0350D", "R07L/0800N", "R99/2000V3000"),
    "weathers": ("-RA", "VCTS", "+FZFG", "NSW", "RA", "BR", "SQ"),
    "clouds": ("BKN015", "VV///", "OVC010CB", "NSC", "//////TCU", "FEW100", "SCT///", "OVC015", "0VC003", "NCD", "VV002"),
    "windshears": ("WS R07", "WS ALL RWY", "WS R07L", "WS R25C"),
}


def list_judge(case, st):
    """Every item of a list has the value which it has alone in it."""
    f, toks, kind = case

    def get(ts):
        if kind == "metar":
            return obs.plist(f, getattr(build("metar", " ".join(T_METAR + ts)), f))
        if kind == "trend":
            return obs.plist(f, getattr(build("metar", model.metar_text(T_METAR + ("9999",), (("TEMPO",) + ts,))).weather_trends.items[0], f))
        return obs.plist(f, getattr(build("taf", model.taf_text(T_TAF, (("BECMG", "1513/1515") + ts,))).changes_forecasted.items[0], f))
    got = get(toks)
    need(len(toks), len(got), "number of items of " + f)
    for t, g in zip(toks, got):
        a = get((t,))
        if len(a) != 1:
            raise Problem("%s is not decoded as %s" % (t, f))
        need(a[0], g, "%s in a list, as alone" % t)
        st.transitions += 1
        st.outcome(obs.canon(g))
    st.state(case)


def list_cases(th):
    for f, ts in LISTED.items():
        for kind in ("metar", "trend", "change") if f in ("weathers", "clouds") else ("metar",):
            for k in (2, 3) + ((4,) if th and f == "clouds" else ()):
                for c in itertools.product(ts, repeat=k):
                    yield f, c, kind


_alone = {}
LOCAL = ("modifier", "wind", "wind_variation", "prevailing_visibility", "minimum_visibility", "runway_ranges", "weathers", "clouds",
         "temperatures", "pressure", "recent_weather", "windshears", "sea_state", "runway_state", "station", "time")


def value_alone(f, tok, kind):
    """What the group says as the only one of a report of the kind."""
    import c_groups as g
    k = (f, tok, kind)
    if k not in _alone:
        pre = ("METAR", "PADK") + g.PRE.get(f, ())
        if f == "modifier" and kind == "taf":
            r = build("taf", "TAF %s PADK 151130Z 1512/1612" % tok)
        elif f in ("station", "time"):
            r = build("metar", " ".join(("METAR",) + (("PADK",) if f == "time" else ()) + (tok,)))
        else:
            r = build("metar", " ".join(pre + (tok,)))
        if f in obs.LISTS:
            found = [x for x in obs.plist(f, getattr(r, f)) if x["code"] == tok]
        else:
            found = [obs.props(f, getattr(r, f))]
        if len(found) != 1 or found[0]["code"] != tok:
            raise Problem("%s is not decoded as %s" % (tok, f))
        _alone[k] = found[0]
    return _alone[k]


def company_judge(case, st):
    """In a whole report, and in its sections, every group has the value which it has alone."""
    kind, body, secs, remark = case
    if kind == "metar":
        exp = model.metar(body, secs, remark)[0]
        r = build("metar", model.metar_text(body, secs, remark))
        parts = [(exp, r)] + list(zip(exp["weather_trends"], r.weather_trends.items))
    else:
        exp = model.taf(body, secs)[0]
        r = build("taf", model.taf_text(body, secs))
        parts = [(exp, r)] + list(zip(exp["changes_forecasted"], r.changes_forecasted.items))
    for e, x in parts:
        at = collections.Counter()
        last = {f: tok for f, tok in e["order"]}
        for f, tok in e["order"]:
            if f not in LOCAL or tok != last[f] and f == "pressure":
                continue
            if f in obs.LISTS:
                g = getattr(x, f).items
                if at[f] >= len(g):
                    raise Problem("%s is missing" % tok)
                g = obs.props(f, g[at[f]])
                at[f] += 1
            else:
                g = obs.props(f, getattr(x, f))
            need(value_alone(f, tok, kind), g, "%s in company" % f)
            st.transitions += 1
    st.state(case)
    st.outcome(len(parts))


@check("C31")
def c31(tier):
    th = tier == "thorough"
    return [
        Family("company", company.reports(th), company_judge, COMPANY),
        Family("full-lists", company.full_lists(), company_judge, company.FULL_LISTS),
        Family("odd-words", company.odd(), company_judge, company.ODD),
        Family("pairs", local_cases(2), local_judge, "all pairs of 49 groups of different fields"),
        Family("triples", local_cases(3), local_judge, "all triples of 49 groups of different fields"),
        Family("sections", section_cases, section_local,
               "all combinations of 5 winds, 9 visibilities, 5 weathers and 9 layers in 8 sections"),
        Family("languages", lambda: language(th), language_judge,
               "the languages of winds, visibilities, weathers and layers, each group in 11 sections"),
        Family("wide pairs", lambda: wide_pairs(th), local_judge,
               "pairs of groups of different fields out of %d which cover the combinations of their parts" % sum(map(len, wide().values()))),
        Family("pairs in lists", lambda: listed_pairs(th), list_judge, "all pairs of 216 ranges, 84 weathers, 220 layers and 3 wind shears in their lists"),
        Family("lists", lambda: list_cases(th), list_judge,
               "all lists of 2 and 3%s of 5 ranges, 7 weathers, 11 layers, 4 wind shears" % (" (layers: 4)" if th else "")),
    ] + ([Family("quadruples", local_cases(4), local_judge, "all quadruples of 49 groups")] if th else [])
