"""C16-C20: dates and times of reports, valid periods, changes, temperatures, trends."""
import calendar
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
from datetime import datetime, timedelta

import company
import env
import model
import obs
import ref
from common import CHARS, build, mutations, need
from engine import Family, Problem, check

YEARS = (2023, 2024)
EDGE_YEARS = (1900, 1999, 2000, 2023, 2024, 2099, 2100)


def observe_time(r):
    return obs.props("time", r.time)


# ------------------------------------------------------- near misses (C16-C20)
SECTION_WORDS = ("RMK", "TEMPO", "BECMG", "NOSIG", "PROB")


def split_words(words):
    """(body, sections) of the words of a TAF or METAR, None where a word only begins like one
    which starts a section."""
    body, secs = [], []
    words = [x for w in words for x in ((w,) if w in ("PROB30 TEMPO", "PROB40 TEMPO") else w.split(" ")) if x]
    for w in words:
        head = w.split(" ")[0]
        begins = head in ("TEMPO", "BECMG", "PROB30", "PROB40", "NOSIG")
        if not begins and any(head.startswith(x) for x in SECTION_WORDS):
            return None
        if words[0] == "TAF" and head[:2] == "FM" and head[2:3].isdigit():
            begins = True
        if begins:
            secs.append([w])
        elif secs:
            secs[-1].append(w)
        else:
            body.append(w)
    return tuple(body), tuple(map(tuple, secs))


def near_judge(case, st):
    """The group which was altered is decoded, or unparsed, as its own text demands."""
    words, y, m = case
    if any(model.quirky(w) for w in words):
        return
    split = split_words(words)
    if split is None:
        return
    body, secs = split
    st.transitions += len(words)
    st.state(words)
    if words[0] == "TAF":
        try:
            exp, _ = model.taf(body, secs, y, m)
        except (model.TooMany, NotImplementedError):
            return
        except ValueError:
            return              # no such date: C08
        r = build("taf", model.taf_text(body, secs), year=y, month=m)
        got = {"time": observe_time(r), "valid": obs.valid(r.valid),
               "max_temperatures": obs.tafs_temps(r.max_temperatures), "min_temperatures": obs.tafs_temps(r.min_temperatures),
               "unparsed_groups": [g.replace("_", " ") for g in r.unparsed_groups]}
        need({k: exp[k] for k in got}, got, "near miss")
        ind = [obs.change(c)["indicator"] for c in r.changes_forecasted.items]
        want = [e["indicator"] for e in exp["changes_forecasted"]]
        if any(s[0][:2] == "FM" and ref.fm_token(s[0]) is None for s in secs):
            # nothing defines where the change before one which cannot be read ends
            ind, want = [e["code"] for e in ind], [e["code"] for e in want]
        need(want, ind, "indicators")
    else:
        try:
            exp, _ = model.metar(body, secs, "", y, m)
        except model.TooMany:
            return
        r = build("metar", model.metar_text(body, secs), year=y, month=m)
        got = {"time": observe_time(r), "unparsed_groups": [g.replace("_", " ") for g in r.unparsed_groups]}
        need({k: exp[k] for k in got}, got, "near miss")
        need([e["indicator"] for e in exp["weather_trends"]],
             [obs.trend(t)["indicator"] for t in r.weather_trends.items], "indicators")
    st.outcome(obs.canon(got))


def near(forms, chars=CHARS, twice=None):
    """forms: (words, index of the word which is altered); every text one character away from it, and
    two of those of another alphabet."""
    def gen():
        for words, i, y, m in forms:
            seen = {words[i]}
            seen.update(mutations(words[i], chars))
            if twice:
                for u in mutations(words[i], twice):
                    seen.update(mutations(u, twice))
            for u in sorted(seen):
                yield words[:i] + (u,) + words[i + 1:], y, m
    return gen


def near_family(th, forms, what):
    return Family("near misses", near(forms, CHARS, "0123MTZ/" if th else None), near_judge,
                  what + " one character away from it" + (", and two of 8 characters" if th else ""))


N_METAR = ("METAR", "PADK", "151230Z", "09014KT", "9999")
N_TAF = ("TAF", "PADK", "151130Z", "1512/1618", "09014KT", "9999")
NEAR16 = ((N_METAR, 2, 2022, 10), (N_METAR[:3], 2, 2022, 12), (N_TAF, 2, 2022, 10), (N_TAF[:3], 2, 2022, 12),
          (("METAR", "PADK", "AUTO", "310000Z", "9999"), 3, 2022, 10))
NEAR17 = ((N_TAF, 3, 2022, 10), (("TAF", "AMD", "PADK", "311130Z", "3112/0112", "9999"), 4, 2022, 10),
          (("TAF", "PADK", "1500/1524", "CAVOK"), 2, 2022, 10))


def near18():
    b = N_TAF
    out = []
    for w in (("FM151800",), ("FM161200",), ("BECMG", "1514/1516"), ("TEMPO", "1514/1524"), ("PROB30", "1514/1516"), ("PROB40 TEMPO", "1600/1602")):
        for before in ((), ("FM151300", "5000"), ("TEMPO", "1513/1515")):
            for after in (("BR",), ("BR", "BECMG", "1616/1618", "CAVOK")):
                for k in range(len(w)):
                    out.append((b + before + w + after, len(b + before) + k, 2022, 10))
    return out


NEAR19 = tuple((N_TAF + pre + (t,) + post, len(N_TAF + pre), 2022, 10) for t in ("TX29/1515Z", "TN09/1606Z", "TXM01/1512Z", "TNM10/1600Z")
               for pre in ((), ("TX25/1514Z", "TN05/1605Z")) for post in ((), ("BECMG", "1514/1516", "BR")))
NEAR20 = tuple((N_METAR + pre + (w, t) + post, len(N_METAR + pre) + 1, 2022, 10) for w in ("BECMG", "TEMPO", "NOSIG")
               for t in ("FM1300", "TL1400", "AT1359", "FM1430") for pre in ((), ("BECMG", "5000")) for post in ((), ("BR",), ("TL1430", "BR"))
               if not (w == "NOSIG" and pre))


# what stands in company
TIMES = tuple("%02d%s%sZ" % (d, h, m) for d in (1, 9, 15, 28, 30, 31) for h in ("00", "12", "23", "24") for m in ("00", "30", "59"))
VALIDS = ("1512/1618", "1512/1612", "1500/1524", "1518/1518", "0100/0124", "3124/0206", "3118/0124", "1612/1712", "1424/1524", "1506/1706")
TEMP_LISTS = tuple(" ".join(x) for k in (1, 2, 3) for x in itertools.permutations(
    ("TX29/1518Z", "TNM01/1606Z", "TX00/1612Z", "TN10/0100Z"), k) if k < 3 or x[0] < x[1]) + ("TXM09/3123Z", "TN00/1523Z", "TX05/1500Z")


def change_lists():
    pool = (("FM151300", "9999"), ("FM151630",), ("FM160100", "BR", "NSC"), ("BECMG", "1514/1516", "CAVOK"), ("BECMG", "1518/1524"),
            ("TEMPO", "1513/1518", "0300"), ("PROB30", "1520/1522", "BR"), ("PROB40 TEMPO", "1600/1604", "VV001"), ("TEMPO", "XYZ"))
    begin = {"FM151300": 13, "FM151630": 16.5, "FM160100": 25, "1514/1516": 14, "1518/1524": 18}
    for k in (1, 2, 3):
        for c in itertools.product(pool, repeat=k):
            b = [begin[w] for s in c for w in s[:2] if w in begin]
            if all(x < y for x, y in zip(b, b[1:])) and (k < 3 or c[0][0][:2] == "FM" or c[1][0][:2] == "FM"):
                if not any(a[0] == "PROB30" and len(a) == 1 for a in c):
                    yield c


CHANGE_LISTS = tuple(change_lists())
TREND_LISTS = tuple(
    (("NOSIG",),) + x if x else (("NOSIG",),) for x in ((), (("TEMPO", "FM1300", "0500"),), (("BECMG", "AT1430"),))) + tuple(
    ((w,) + p + c,) + x for w in ("TEMPO", "BECMG") for p in ((), ("FM1300",), ("TL1359",), ("AT1330",), ("FM1231", "TL1430"), ("TL1300", "FM1245"))
    for c in ((), ("09025G40KT", "0500", "FG", "VV001"), ("XYZ",)) for x in ((), (("TEMPO" if w == "BECMG" else "BECMG", "TL1400", "BR"),)))


# ------------------------------------------------------------------ C16
TEXT = {"metar": ("METAR PADK %s 09014KT", "PADK %s", "SPECI PADK %s NOSIG RMK X"),
        "taf": ("TAF PADK %s 1512/1612 09014KT", "PADK %s", "TAF AMD PADK %s 1512/1612")}


def time_judge(case, st):
    kind, form, tok, year, month = case
    text = TEXT[kind][form] % tok
    text = " ".join(text.split())
    st.transitions += 1
    st.state((kind, form, tok, year, month))
    if tok and ref.time_token(tok) is None:
        exp = ref.time_fields(None, datetime(year, month, 1))
        r = build(kind, text, year=year, month=month)
        if tok not in r.unparsed_groups:
            raise Problem("%s is not unparsed" % tok)
    elif tok:
        try:
            exp = ref.time_fields(tok, ref.report_time(tok, year, month))
        except ValueError:
            try:
                r = build(kind, text, year=year, month=month)
            except ValueError:
                st.outcome("error")
                return
            raise Problem("the date does not exist, but the report is dated %s" % r.time.time)
        r = build(kind, text, year=year, month=month)
    else:
        exp = ref.time_fields(None, datetime(year, month, 1))
        r = build(kind, text, year=year, month=month)
    need(exp, observe_time(r), "time")
    st.outcome(exp["time"])


def time_cases(th):
    def gen():
        minutes = range(60) if th else (0, 7, 30, 59)
        for y in YEARS:
            for m in range(1, 13):
                for d in range(1, 32):
                    for h in range(25):
                        for mi in minutes:
                            yield ("metar", 0, "%02d%02d%02dZ" % (d, h, mi), y, m)
                            if th or mi in (0, 30):
                                yield ("taf", 0, "%02d%02d%02dZ" % (d, h, mi), y, m)
        for kind in ("metar", "taf"):
            for form in (0, 1, 2):
                for y in EDGE_YEARS:
                    for m in range(1, 13):
                        for d in (1, 9, 10, 27, 28, 29, 30, 31):
                            for hm in ("0000", "0001", "1200", "2359", "2400", "2401", "2459"):
                                yield (kind, form, "%02d%sZ" % (d, hm), y, m)
                        yield (kind, form, "", y, m)
            for d in range(1, 32):
                for h in range(25):
                    for mi in range(60):
                        yield (kind, 0, "%02d%02d%02dZ" % (d, h, mi), 2024, 1)
            for tok in ("001200Z", "321200Z", "152500Z", "151260Z", "15123Z", "1512300Z", "151230", "151230K",
                        "Z151230", "151 230Z".replace(" ", "X"), "401200Z", "159900Z"):
                yield (kind, 0, tok, 2024, 2)
    return gen


SHIM = r"""
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
/* VERIF_EPOCH: what time it is; "epoch@n#k": it is a second later from the n-th reading on (k makes it a new history) */
static char last[64]; static long reads;
static int fake(long *s) {
  char *e = getenv("VERIF_EPOCH"), *at;
  if (!e || !*e) return 0;
  *s = atol(e);
  if ((at = strchr(e, '@'))) {
    if (strncmp(last, e, sizeof last - 1)) { strncpy(last, e, sizeof last - 1); reads = 0; }
    if (reads++ >= atol(at + 1)) ++*s;
  }
  return 1;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  long s;
  if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && fake(&s)) { t->tv_sec = s; t->tv_nsec = 999999000; return 0; }
  return syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval *t, void *z) {
  struct timespec x; clock_gettime(CLOCK_REALTIME, &x); t->tv_sec = x.tv_sec; t->tv_usec = x.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { struct timespec x; clock_gettime(CLOCK_REALTIME, &x); if (p) *p = x.tv_sec; return x.tv_sec; }
"""

CLOCKS = tuple(calendar.timegm(t) for t in (
    (2022, 6, 15, 12, 0, 0), (2022, 12, 31, 23, 59, 59), (2023, 1, 1, 0, 0, 0), (2023, 2, 28, 23, 30, 0),
    (2024, 2, 29, 0, 30, 0), (2024, 2, 29, 23, 59, 59), (2023, 4, 30, 20, 0, 0), (2023, 5, 1, 3, 0, 0),
    (2000, 2, 29, 12, 0, 0), (2035, 10, 31, 11, 0, 0)))
ZONES = ("UTC0", "XST12", "XST-14", "XST5XDT,M3.2.0,M11.1.0", "XST-5:45", "XST-10XDT,M10.1.0,M4.1.0/3")
CLOCK_CODES = (("metar", "METAR PADK 151230Z 09014KT 9999"), ("metar", "PADK 010000Z"), ("metar", "PADK 282400Z NOSIG"),
               ("metar", "METAR PADK"), ("metar", "METAR PADK 290030Z"), ("metar", "METAR PADK 310930Z BECMG FM1000 TL1100 5000"),
               ("taf", "TAF PADK 151130Z 1512/1612"), ("taf", "TAF PADK 311130Z 0100/0124 09014KT TX20/0112Z"),
               ("taf", "TAF PADK"), ("taf", "TAF PADK 290530Z 2906/3006"))
GIVEN = ((None, None), (2022, None), (None, 2), (None, 12), (2024, 2), (2023, 2), (2022, 10))

CHILD = r"""
import json, os, sys, time
d = json.load(sys.stdin)
os.environ["VERIF_EPOCH"] = str(d["import"])
assert int(time.time()) == d["import"], "the clock is not controlled"
sys.path.insert(0, d["mc"])
import env, obs
out = []
n = 0
for clock in d["clocks"]:
    os.environ["VERIF_EPOCH"] = str(clock)
    for kind, text in d["codes"]:
        for y, m in d["given"]:
            kw = {}
            if "@" in str(clock):
                n += 1
                os.environ["VERIF_EPOCH"] = clock + "#%d" % n
            if y is not None: kw["year"] = y
            if m is not None: kw["month"] = m
            try:
                r = (env.Metar if kind == "metar" else env.Taf)(text, **kw)
                o = json.loads(json.dumps(obs.jsonable(obs.report(r))))
            except ValueError as e:
                o = "ValueError"
            out.append(o)
sys.stdout.write(json.dumps(out))
"""


class Clock:
    """A library which lets the environment decide what time it is."""

    def __init__(self):
        self.dir = None

    def lib(self):
        if self.dir is None or not os.path.exists(os.path.join(self.dir, "clock.so")):
            self.dir = tempfile.mkdtemp(prefix="verif-clock-")
            c = os.path.join(self.dir, "clock.c")
            with open(c, "w") as f:
                f.write(SHIM)
            subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", os.path.join(self.dir, "clock.so"), c], check=True)
        return os.path.join(self.dir, "clock.so")

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


def clock_judge(case, st):
    zone, start, clocks = case
    c = Clock()
    try:
        e = dict(os.environ, TZ=zone, LD_PRELOAD=c.lib(), VERIF_EPOCH=str(start))
        p = subprocess.run([sys.executable, "-W", "ignore", "-B", "-c", CHILD], env=e, text=True, capture_output=True, timeout=60,
                           input=json.dumps({"import": start, "clocks": clocks, "codes": CLOCK_CODES, "given": GIVEN,
                                             "mc": os.path.dirname(os.path.abspath(__file__))}))
    finally:
        c.close()
    if p.returncode:
        if "the clock is not controlled" in p.stderr:
            raise RuntimeError(p.stderr)
        raise Problem("the process failed: " + p.stderr[-500:])
    got = iter(json.loads(p.stdout))
    for clock in clocks:
        now = datetime(1970, 1, 1) + timedelta(seconds=clock)
        for kind, text in CLOCK_CODES:
            for y, m in GIVEN:
                o = next(got)
                st.transitions += 1
                st.state((zone, start, clock, text, y, m))
                yy, mm = y if y is not None else now.year, m if m is not None else now.month
                what = "%s year=%s month=%s at %s (imported at %s, TZ=%s)" % (text, y, m, now, start, zone)
                try:
                    exp, _ = expected(kind, text, yy, mm)
                except ValueError:
                    if o != "ValueError":
                        raise Problem(what + ": the date does not exist")
                    continue
                if o == "ValueError":
                    raise Problem(what + ": raised ValueError")
                exp = obs.jsonable({k: v for k, v in exp.items() if k in o and k not in ("station",)})
                strip_order(exp)
                need(exp, o, what)
                st.outcome(json.dumps(o["time"]))


ENDS = tuple(calendar.timegm(t) for t in ((2022, 12, 31, 23, 59, 59), (2023, 1, 31, 23, 59, 59), (2023, 2, 28, 23, 59, 59),
                                          (2024, 2, 29, 23, 59, 59), (2024, 4, 30, 23, 59, 59), (1999, 12, 31, 23, 59, 59)))


def tick_judge(case, st):
    """A month ends at any of the readings of the clock: everything is of one of the two months."""
    zone, end, readings = case
    c = Clock()
    clocks = ["%d@%d" % (end, k) for k in range(readings)]
    given = [g for g in GIVEN if None in g]
    try:
        e = dict(os.environ, TZ=zone, LD_PRELOAD=c.lib(), VERIF_EPOCH=str(CLOCKS[0]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-B", "-c", CHILD], env=e, text=True, capture_output=True, timeout=60,
                           input=json.dumps({"import": CLOCKS[0], "clocks": clocks, "codes": CLOCK_CODES, "given": given,
                                             "mc": os.path.dirname(os.path.abspath(__file__))}))
    finally:
        c.close()
    if p.returncode:
        if "the clock is not controlled" in p.stderr:
            raise RuntimeError(p.stderr)
        raise Problem("the process failed: " + p.stderr[-500:])
    got = iter(json.loads(p.stdout))
    for clock in clocks:
        for kind, text in CLOCK_CODES:
            for y, m in given:
                o = next(got)
                st.transitions += 1
                st.state((zone, clock, text, y, m))
                exps = []
                for s in (end, end + 1):
                    now = datetime(1970, 1, 1) + timedelta(seconds=s)
                    try:
                        exp, _ = expected(kind, text, y if y is not None else now.year, m if m is not None else now.month)
                        exp = obs.jsonable(exp)
                        strip_order(exp)
                    except ValueError:
                        exp = "ValueError"
                    exps.append(exp)
                what = "%s year=%s month=%s, %s passes at reading %s of the clock" % (text, y, m, now, clock.split("@")[1])
                wrong = None
                for x in exps:
                    try:
                        if isinstance(x, str) or isinstance(o, str):
                            need(x if isinstance(x, str) else "a report", o if isinstance(o, str) else "a report", what)
                        else:
                            need({k: v for k, v in x.items() if k in o and k != "station"}, o, what)
                        break
                    except Problem as p_:
                        wrong = p_
                else:
                    raise wrong
                st.outcome(json.dumps(o if isinstance(o, str) else o["time"]))


def tick_cases(th):
    def gen():
        for z in ZONES if th else ZONES[:3]:
            for s in ENDS if th else ENDS[:4]:
                yield (z, s, 12 if th else 7)
    return gen


def strip_order(d):
    for k in ("weather_trends", "changes_forecasted"):
        for x in d.get(k, ()):
            x.pop("order", None)


def expected(kind, text, y, m):
    words = text.split(" ")
    if kind == "metar":
        for i, w in enumerate(words):
            if w in ("NOSIG", "BECMG", "TEMPO"):
                return model.metar(tuple(words[:i]), (tuple(words[i:]),), "", y, m)
        return model.metar(tuple(words), (), "", y, m)
    return model.taf(tuple(words), (), y, m)


def clock_cases(th):
    def gen():
        for z in ZONES:
            for s in CLOCKS[:3] if not th else CLOCKS:
                yield (z, s, CLOCKS)
                yield (z, s, CLOCKS[::-1])
    return gen


@check("C16")
def c16(tier):
    th = tier == "thorough"
    return [
        Family("dates", time_cases(th), time_judge,
               "all days 1-31 x hours 0-24 x %s of all months of 2023 and 2024, all times of a month, 8 days x 7 times of "
               "all months of 7 years in 3 forms, no time group, and unusable groups" % ("all minutes" if th else "4 minutes")),
        Family("clocks", clock_cases(th), clock_judge,
               "6 time zones x %d times of import x 10 times of use in both orders x 10 reports x 7 ways to give year and "
               "month, in processes with a controlled clock" % (len(CLOCKS) if th else 3), limit=60),
        Family("month-ends-meanwhile", tick_cases(th), tick_judge,
               "%d time zones x %d ends of months x the end falls before each of the first %d readings of the clock x 10 reports "
               "x 4 ways to give year and month" % ((6, 6, 12) if th else (3, 4, 7)), limit=60),
        near_family(th, NEAR16, "5 reports with every time"),
        company.family(th, ["time"], ("time",), {"time": TIMES}, ctxs=("metar", "taf")),
    ]


# ------------------------------------------------------------------ C17
def dates(th):
    """Days of issue: all of two years, or those around the ends of months."""
    for y in YEARS:
        t = datetime(y, 1, 1)
        while t.year == y:
            n = calendar.monthrange(t.year, t.month)[1]
            if th or t.day <= 2 or t.day >= n - 2 or t.day == 15:
                yield t
            t += timedelta(days=1)
    for y in (1900, 2000, 2100, 2399, 2400):       # the centuries of which only every fourth leaps
        for t in (datetime(y, 2, 27), datetime(y, 2, 28), datetime(y, 3, 1), datetime(y, 12, 31)):
            yield t
    for y in (1904, 2000, 2400):
        yield datetime(y, 2, 29)


def valid_judge(case, st):
    tok, year, month, vtok = case
    text = " ".join(x for x in ("TAF PADK", tok, vtok, "09014KT") if x)
    r = build("taf", text, year=year, month=month)
    t = ref.report_time(tok, year, month) if tok else datetime(year, month, 1)
    if vtok:
        frm, until = ref.valid_period(ref.valid_token(vtok), t)
    else:
        frm = t.replace(minute=0) + timedelta(hours=1)
        until = frm + timedelta(hours=24)
    need(model.valid_fields(vtok or None, frm, until), obs.valid(r.valid), "valid")
    st.transitions += 2
    st.state((tok, year, month, vtok))
    st.outcome((frm, until))


def valid_cases(th):
    def gen():
        for t in dates(th):
            n = calendar.monthrange(t.year, t.month)[1]
            for h in ("0030", "1130", "2359", "2400") if not th else ("0000", "0030", "0600", "1130", "1700", "2300", "2359", "2400"):
                tok = "%02d%sZ" % (t.day, h)
                yield (tok, t.year, t.month, "")
                for gap in (0, 1, 2, 3, 10, 27, 29):
                    a = t + timedelta(days=gap)
                    for fh, uh in ((0, 24), (12, 12), (23, 0), (6, 23), (0, 1)):
                        for gap2 in (0, 1, 2, 3) if gap < 4 else (1,):
                            b = a + timedelta(days=gap2)
                            yield (tok, t.year, t.month, "%02d%02d/%02d%02d" % (a.day, fh, b.day, uh))
        for d in range(1, 32):
            for e in range(1, 32):
                for y, m, i in ((2023, 1, 31), (2024, 2, 29), (2023, 2, 28), (2023, 12, 31), (2023, 4, 1)):
                    yield ("%02d1130Z" % i, y, m, "%02d06/%02d12" % (d, e))
        for fh in range(24):
            for uh in range(25):
                for a, b in ((15, 15), (15, 16), (31, 1)):
                    yield ("%02d2330Z" % a, 2023, 12, "%02d%02d/%02d%02d" % (a, fh, b, uh))
        for m in range(1, 13):
            for y in YEARS:
                yield ("", y, m, "")
                for v in ("0100/0124", "0212/0312", "2806/0106", "3100/0100"):
                    yield ("", y, m, v)
        for h in range(25):
            for mi in (0, 1, 30, 59):
                for y, m, d in ((2023, 10, 15), (2023, 12, 31), (2024, 2, 28), (2024, 2, 29), (2023, 2, 28)):
                    yield ("%02d%02d%02dZ" % (d, h, mi), y, m, "")
    return gen


@check("C17")
def c17(tier):
    th = tier == "thorough"
    return [Family("periods", valid_cases(th), valid_judge,
                   "%s of 2023 and 2024, and the ends of February of 5 centuries, x times x gaps before and in the period x hours; all day pairs; all hour pairs; no period" % (
                       "all days" if th else "the days around the ends of all months")),
            near_family(th, NEAR17, "3 reports with every period"),
            company.family(th, ["valid"], ("valid", "time"), {"valid": VALIDS, "time": TIMES}, ctxs=("taf",))]


# ------------------------------------------------------------------ C18
SETTINGS = (("151130Z", 2022, 10, "1512/1618"), ("301730Z", 2022, 9, "3018/0124"), ("312330Z", 2022, 12, "0100/0206"),
            ("281130Z", 2023, 2, "2812/0118"), ("281730Z", 2024, 2, "2818/0124"), ("291130Z", 2024, 2, "2912/0112"),
            ("310530Z", 2022, 10, "3106/0106"), ("281130Z", 2100, 2, "2812/0118"), ("281730Z", 2000, 2, "2818/0124"))


def change_words(setting, hours):
    """Change groups at some hours of the validity."""
    tok, y, m, v = setting
    frm, until = ref.valid_period(ref.valid_token(v), ref.report_time(tok, y, m))
    out = []
    for h, mi in hours:
        a = frm + timedelta(hours=h)
        b = min(a + timedelta(hours=2), until)
        p = "%02d%02d/%02d%02d" % (a.day, a.hour, b.day, b.hour)
        out.append((h * 60 + mi, "FM%02d%02d%02d" % (a.day, a.hour, mi)))
        out.append((h * 60, "BECMG " + p))
        out.append((None, "TEMPO " + p))
        out.append((None, "PROB30 " + p))
        out.append((None, "PROB40 TEMPO " + p))
    return out


def tokens_of(change):
    w = change.split(" ")
    if w[0].startswith("PROB") and w[1:2] == ["TEMPO"]:
        w = [w[0] + " TEMPO"] + w[2:]
    return tuple(w)


def ordered(seq):
    """The beginnings of FM and BECMG follow each other."""
    s = [k for k, _ in seq if k is not None]
    return all(a < b for a, b in zip(s, s[1:]))


def periods_judge(case, st):
    tok, y, m, v, changes = case
    body = ("TAF", "PADK", tok) + ((v,) if v else ()) + ("09014KT", "9999")
    chs = tuple(tokens_of(c) for c in changes)
    exp, paths = model.taf(body, chs, y, m)
    r = build("taf", model.taf_text(body, chs), year=y, month=m)
    got = [obs.change(c)["indicator"] for c in r.changes_forecasted.items]
    want = [e["indicator"] for e in exp["changes_forecasted"]]
    need(exp["valid"], obs.valid(r.valid), "valid")
    need(want, got, "periods")
    st.transitions += len(changes)
    st.state((tok, v, tuple(changes)))
    st.outcome(obs.canon([w["valid"] for w in want]))


def change_histories(depth, hours, settings):
    def gen():
        for s in settings:
            words = change_words(s, hours)
            for k in range(depth + 1):
                for seq in itertools.product(words, repeat=k):
                    if ordered(seq):
                        yield s + (tuple(c for _, c in seq),)
    return gen


def long_histories(settings):
    """Eight changes: every choice of the kinds FM, BECMG, TEMPO and PROB at rising hours."""
    def gen():
        for s in settings:
            words = change_words(s, [(h, 0) for h in range(1, 17, 2)])
            by = [words[i * 5:i * 5 + 5] for i in range(8)]
            for kinds in itertools.product((0, 1, 2), repeat=8):
                yield s + (tuple(by[i][k][1] for i, k in enumerate(kinds)),)
    return gen


def fm_times(th):
    def gen():
        for s in SETTINGS:
            tok, y, m, v = s
            frm, until = ref.valid_period(ref.valid_token(v), ref.report_time(tok, y, m))
            n = int((until - frm).total_seconds() // 3600)
            for h in range(n):
                for mi in range(60) if th else (0, 1, 29, 30, 59):
                    a = frm + timedelta(hours=h, minutes=mi)
                    fm = "FM%02d%02d%02d" % (a.day, a.hour, a.minute)
                    yield s + ((fm,),)
                    for d in (30, 59, 60, 61, 90, 300):
                        b = a + timedelta(minutes=d)
                        if b < until:
                            yield s + ((fm, "FM%02d%02d%02d" % (b.day, b.hour, b.minute)),)
                            c = b.replace(minute=0) + timedelta(hours=1)
                            e = c + timedelta(hours=2)
                            yield s + ((fm, "TEMPO %02d%02d/%02d%02d" % (c.day, c.hour, e.day, e.hour),
                                        "BECMG %02d%02d/%02d%02d" % (c.day, c.hour, e.day, e.hour)),)
            for h in range(n):
                for d in range(1, n - h + 1, 1 if th else 3):
                    a, b = frm + timedelta(hours=h), frm + timedelta(hours=h + d)
                    bh = "%02d%02d" % (b.day, b.hour)
                    if b.hour == 0:
                        e = b - timedelta(days=1)
                        yield s + (("TEMPO %02d%02d/%02d24" % (a.day, a.hour, e.day),),)
                    for w in ("BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"):
                        yield s + (("%s %02d%02d/%s" % (w, a.day, a.hour, bh),),)
        # no period of their own, or of the forecast
        for v in ("1512/1618", ""):
            for k in (1, 2):
                for ws in itertools.product(("BECMG", "TEMPO", "PROB30", "PROB40 TEMPO", "TEMPO 1514/1516", "BECMG 1516/1518"), repeat=k):
                    if ws[0] == "PROB30" and ws[-1].startswith("TEMPO"):
                        continue         # one indicator
                    yield ("151130Z", 2022, 10, v, ws)
                    yield ("151130Z", 2022, 10, v, ws[:1] + ("FM151900",) + ws[1:]) if not (
                        k == 2 and ws[1].startswith("BECMG")) else ("151130Z", 2022, 10, v, ws[:1])
    return gen


@check("C18")
def c18(tier):
    th = tier == "thorough"
    h3 = ((2, 0), (5, 30), (9, 0))
    return [
        Family("times", fm_times(th), periods_judge,
               "9 validities around ends of months x all hours x %s of FM, alone, before another FM or BECMG at 6 distances; "
               "all hour pairs of the other kinds; no periods" % ("all minutes" if th else "5 minutes")),
        Family("histories", change_histories(4 if th else 3, h3, SETTINGS if th else SETTINGS[:1] + SETTINGS[2:3]), periods_judge,
               "all sequences of up to %d changes of 5 kinds at 3 hours" % (4 if th else 3)),
        Family("month-end-histories", change_histories(3, h3, SETTINGS[1:]) if th else change_histories(
            2, h3, SETTINGS), periods_judge, "the same of up to %d changes in 9 settings" % (3 if th else 2)),
        Family("long", long_histories(SETTINGS if th else SETTINGS[1:2]), periods_judge,
               "all sequences of 8 changes of FM, BECMG and TEMPO at rising hours"),
        near_family(th, near18(), "6 changes, with and without others, with every word and period"),
        company.family(th, ["indicator"], ("changes", "period"), {"changes": CHANGE_LISTS}, ctxs=("taf", "change")),
    ]


# ------------------------------------------------------------------ C19
def temps_judge(case, st):
    tok, y, m, toks = case
    body = ("TAF", "PADK", tok, "1512/1612", "09014KT") + toks
    exp, path = model.taf(body, (), y, m)
    r = build("taf", " ".join(body), year=y, month=m)
    o = {k: obs.tafs_temps(getattr(r, k)) for k in ("max_temperatures", "min_temperatures")}
    need({k: exp[k] for k in o}, o, "temperatures")
    need([], list(r.unparsed_groups), "unparsed_groups")
    st.transitions += len(toks)
    st.state(case)
    st.outcome(obs.canon(o))


def temps_cases(th):
    def gen():
        for t in dates(th):
            for h in ("0030", "1730", "2400"):
                tok = "%02d%sZ" % (t.day, h)
                for gap in (0, 1, 2, 3, 15, 27):
                    a = t + timedelta(days=gap + (h == "2400"))
                    for hh in (0, 11, 23):
                        yield (tok, t.year, t.month, ("TX29/%02d%02dZ" % (a.day, hh),))
                        yield (tok, t.year, t.month, ("TNM09/%02d%02dZ" % (a.day, hh),))
        for x in range(100):
            for sign in ("", "M"):
                for k in "XN":
                    yield ("151130Z", 2022, 10, ("T%s%s%02d/1518Z" % (k, sign, x),))
        for d in range(1, 32):
            for hh in range(24):
                for y, m, i in ((2022, 10, 15), (2024, 2, 28), (2023, 12, 31)):
                    yield ("%02d1130Z" % i, y, m, ("TX30/%02d%02dZ" % (d, hh), "TN10/%02d%02dZ" % (d, hh)))
        pool = ("TX30/1518Z", "TX31/1618Z", "TN10/1606Z", "TNM01/1706Z", "TX00/1512Z", "TNM00/1512Z")
        for k in range(5):
            for c in itertools.product(pool, repeat=k):
                if max(sum(t[1] == x for t in c) for x in "XN") <= 2:
                    yield ("151130Z", 2022, 10, c)
    return gen


@check("C19")
def c19(tier):
    th = tier == "thorough"
    return [Family("temperatures", temps_cases(th), temps_judge,
                   "%s of 2023 and 2024, and the ends of February of 5 centuries, x times x gaps x hours; all values; all days and hours; all orders of up to 4 of 6 groups" % (
                       "all days" if th else "the days around the ends of all months")),
            near_family(th, NEAR19, "4 temperatures, first or third and with or without changes, with every group"),
            company.family(th, ["max_temperatures", "min_temperatures"], ("temperatures",), {"temperatures": TEMP_LISTS}, ctxs=("taf",))]


# ------------------------------------------------------------------ C20
T_DATES = ((1900, 2, 28), (2000, 2, 28), (2000, 2, 29), (2100, 2, 28), (2022, 10, 15), (2022, 10, 31), (2022, 12, 31), (2023, 2, 28), (2024, 2, 28), (2024, 2, 29), (2023, 4, 30), (2023, 3, 1))


def trend_judge(case, st):
    y, m, tok, trends = case
    body = ("METAR", "PADK", tok, "09014KT", "9999")
    exp, paths = model.metar(body, trends, "", y, m)
    r = build("metar", model.metar_text(body, trends), year=y, month=m)
    need(len(trends), len(r.weather_trends), "number of trends")
    for e, t in zip(exp["weather_trends"], r.weather_trends.items):
        o = obs.trend(t)
        need(e["indicator"], o["indicator"], "trend indicator")
        need(e["unparsed_groups"], o["unparsed_groups"], "unparsed")
        st.outcome(obs.canon([o["indicator"][k] for k in ("from", "until", "at")]))
    st.transitions += sum(len(t) for t in trends)
    st.state(case)


def hm(t, midnight=False):
    return "2400" if midnight and t.hour == t.minute == 0 else "%02d%02d" % (t.hour, t.minute)


def trend_times(th):
    def gen():
        minutes = (0, 1, 20, 30, 50, 59) if not th else range(0, 60)
        for y, m, d in T_DATES if not th else T_DATES:
            for h in range(25) if th else (0, 1, 11, 21, 22, 23, 24):
                for mi in minutes:
                    if h == 24 and mi:
                        continue
                    tok = "%02d%02d%02dZ" % (d, h, mi)
                    init = datetime(y, m, d) + timedelta(hours=h, minutes=mi)
                    yield (y, m, tok, (("NOSIG",),))
                    offs = sorted({0, 1, 29, 30, 31, 59, 60, 61, 89, 90, 119, 120} | {60 - mi, 120 - mi, 59 - mi, 119 - mi} - {-1, 0})
                    for k in offs:
                        if not 0 <= k <= 120:
                            continue
                        t = init + timedelta(minutes=k)
                        for p in ("FM", "TL", "AT"):
                            yield (y, m, tok, (("BECMG", p + hm(t), "5000"),))
                            if t.hour == t.minute == 0:
                                yield (y, m, tok, (("TEMPO", p + "2400", "5000"),))
        # all minutes of the two hours
        for h, mi in ((12, 0), (12, 30), (22, 0), (22, 30), (23, 15), (23, 59), (0, 0)):
            for y, m, d in ((2022, 12, 31), (2022, 10, 15)):
                init = datetime(y, m, d, h, mi)
                for k in range(121):
                    for p in ("FM", "TL", "AT"):
                        yield (y, m, init.strftime("%d%H%MZ"), (("TEMPO", p + hm(init + timedelta(minutes=k))),))
    return gen


def trend_pairs(th):
    def gen():
        step = 10 if th else 20
        for y, m, d in ((2022, 10, 15), (2022, 12, 31), (2024, 2, 28)):
            for h, mi in ((11, 0), (11, 30), (22, 0), (22, 40), (23, 0), (23, 59), (0, 0)):
                init = datetime(y, m, d, h, mi)
                tok = init.strftime("%d%H%MZ")
                ks = range(0, 121, step)
                for a in ks:
                    for b in ks:
                        ta, tb = hm(init + timedelta(minutes=a), True), hm(init + timedelta(minutes=b), a % 40 == 0)
                        if a <= b:
                            yield (y, m, tok, (("BECMG", "FM" + ta, "TL" + tb, "5000"),))
                            yield (y, m, tok, (("TEMPO", "TL" + tb, "FM" + ta, "5000"),))
                        yield (y, m, tok, (("BECMG", "FM" + ta, "5000"), ("TEMPO", "TL" + tb, "0800")))
                        yield (y, m, tok, (("TEMPO", "5000"), ("BECMG", "AT" + tb, "0800")))
                        yield (y, m, tok, (("TEMPO", "AT" + ta, "TL" + tb, "5000"),))
                        yield (y, m, tok, (("NOSIG",), ("BECMG", "FM" + ta, "AT" + tb, "5000")))
    return gen


@check("C20")
def c20(tier):
    th = tier == "thorough"
    return [
        Family("times", trend_times(th), trend_judge,
               "12 dates x %s report times x the times at and around every boundary of the two hours x FM, TL, AT; all minutes of "
               "the two hours of 14 reports" % ("all" if th else "37")),
        Family("pairs", trend_pairs(th), trend_judge,
               "21 reports x all pairs of times in steps of %d minutes, in one and two trends" % (10 if th else 20)),
        near_family(th, NEAR20, "4 times in first and second trends with every group"),
        company.family(th, ["indicator"], ("trends", "period"), {"trends": TREND_LISTS}, ctxs=("metar", "trend")),
    ]
