"""A small world of reports, their complete observation, and baselines.

A baseline is what a report says when it is the only one ever created in its
process; every baseline is computed in a forked process of its own.
"""
import os
import pickle
import re
import traceback

import _strptime  # noqa: F401  (imported lazily by datetime.strptime)
import env
import obs
from engine import Problem

# (kind, text, arguments); the reports differ from each other in every field
METARS = (
    "METAR PADK 151230Z 12010G20KT 100V150 3000 1200NE R10/P0600N -RA BKN008 10/M02 Q1012 "
    "RESHRA WS R12 W12/S3 R10/293050 TEMPO FM1300 24015KT 2000",
    "SPECI PAKH 011155Z AUTO 24006MPS 5KM R24L/0400V0800U BR FEW012CB M05/M10 A2992 WS ALL RWY "
    "NOSIG RMK SLP1",
    "METAR PAUT 302359Z COR 00000KT CAVOK 00/00 Q0998 BECMG TL0110 VRB03KT TSRA SCT020TCU BECMG AT0120 CAVOK",
    "METAR XXXX 311200Z NIL",
    "METAR PAFM ///// 1 1/2SM VV001 XYZ R22/CLRD// TEMPO FOO 9999 NSC",
    "PAKP 150000Z VRB02KT 9999 SCT030 BKN100 RA FG SQ W10/H125 TEMPO FM2330 AT0030 3000 BECMG TEMPO OVC010",
)
TAFS = (
    "TAF PADK 151130Z 1512/1612 12010KT 9999 SCT030 TX12/1515Z TNM01/1605Z BECMG 1513/1515 20010KT "
    "FM151800 3000 BR PROB30 TEMPO 1520/1524 -RA",
    "TAF AMD PAKH 302300Z 3100/0106 24006MPS 5KM BR OVC004 FM310400 VRB03KT P6SM SKC FM311000 18015G25KT "
    "2SM RA TEMPO 3112/3114 TSRA",
    "TAF PAUT 010500Z NIL",
    "TAF COR PAFM 150500Z 1506/1512 CNL",
    "TAF XXXX 9999 BKN010CB QQQ PROB40 1606/1609 FZRA ZZZ BECMG FM151200 CAVOK",
    "PANC 312330Z 0100/0206 CAVOK TX00/0112Z TX05/0212Z TN01/0103Z TNM00/0203Z TEMPO 0103/0105 BCFG "
    "BECMG 0106/0108 +SHRA BKN040CB",
)
FAILING = (
    ("metar", "METAR PADK 151230Z 12010KT QQQ TEMPO 12010KT ZZZ", {"truncate": True}),
    ("taf", "TAF PADK 151130Z 1512/1612 CAVOK QQQ FM151500 CAVOK ZZZ", {"truncate": True}),
    ("taf", "TAF PADK 151130Z 1512/1612 CAVOK TX01/1512Z TX02/1513Z TX03/1514Z TEMPO 1513/1514 RA", {}),
)
# all lists full, not in any order, with equal items
FULL = (
    ("metar", "METAR CORR PAJN 151230Z AUTO 35028G41MPS 320V020 1500SW 0800NE R31/P2000 R13R/0300V0900FTD R13R/0300V0900FTD "
     "+TSRA BR +TSRA SCT030CB FEW/// BKN012 BKN012 M01/M03 A2950 Q1001 RESN WS R31 WS R13 WS R31 WM02/S7 R31/SNOCLO "
     "BECMG TL1400 FM1300 18005KT 9999 SN BR SN OVC090 FEW010 SCT/// FEW010 NOTHING TEMPO AT1330 1/2SM RMK Z A", {}),
    ("taf", "TAF PAJN 281130Z 2812/3018 VRB99G100KT 1 3/4SM VCTS -SN VCTS BKN090 FEW/// SCT030 FEW/// TX09/2914Z TN02/2905Z "
     "TXM03/2814Z TNM11/3005Z TEMPO 2820/2822 RA FM301000 27010KT FM290600 -RA BECMG 2914/2916 FG SN FG OVC002 FEW001 OVC002 "
     "PROB40 2818/2819 TEMPO 2820/2822 RA PROB30 TEMPO 3001/3003 0100 BECMG 3012/3014 CAVOK", {}),
)
REPORTS = tuple([("metar", t, {}) for t in METARS] + [("taf", t, {}) for t in TAFS]) + FAILING + (
    ("metar", METARS[0], {"year": 2021, "month": 12}),
    ("taf", TAFS[0], {"year": 2020, "month": 2}),
    ("metar", FAILING[0][1], {}),
) + FULL
NAMES = ["M%d" % i for i in range(len(METARS))] + ["T%d" % i for i in range(len(TAFS))] \
    + ["F%d" % i for i in range(len(FAILING))] + ["M0'", "T0'", "F0'"] + ["MF", "TF"]
Y, M = 2022, 10


def create(i):
    """The report, or the error of its creation."""
    kind, text, kw = REPORTS[i]
    try:
        return (env.Metar if kind == "metar" else env.Taf)(text, **dict({"year": Y, "month": M}, **kw))
    except Exception as e:
        return e


SUB_METAR = ["type_", "station", "time", "modifier", "wind", "wind_variation", "prevailing_visibility",
             "minimum_visibility", "runway_ranges", "weathers", "clouds", "temperatures", "pressure",
             "recent_weather", "windshears", "sea_state", "runway_state", "weather_trends"]
SUB_TAF = ["type_", "station", "time", "modifier", "missing", "cancelled", "valid", "wind",
           "prevailing_visibility", "weathers", "clouds", "max_temperatures", "min_temperatures",
           "changes_forecasted"]


def subs(r):
    return SUB_METAR if hasattr(r, "weather_trends") else SUB_TAF


def attempt(f, *args):
    """f's value, or the error it raises: that is what the report says, too."""
    try:
        return f(*args)
    except Exception as e:
        return ("raised", type(e).__name__, re.sub(" at 0x[0-9a-f]+", "", str(e)))


def forms(g):
    """Text, dictionary and JSON of a report, group or list."""
    return [attempt(str, g), attempt(lambda: g.as_dict()), attempt(lambda: g.to_json())]


def dump(r):
    """Everything a report says, through its documented interface."""
    if isinstance(r, Exception):
        return ("error", type(r).__name__, str(r))
    d = attempt(obs.report, r)
    if not isinstance(d, dict):
        d = {"report": d}
    d["forms"] = forms(r)
    for f in subs(r):
        g = getattr(r, f)
        d["forms:" + f] = forms(g)
        if hasattr(g, "items"):
            d["codes:" + f] = attempt(lambda: list(g.codes))
            d["len:" + f] = attempt(len, g)
            for i, it in enumerate(g):
                d["item:%s:%d" % (f, i)] = forms(it)
                for h in ("trend_indicator", "change_indicator", "clouds", "weathers", "wind",
                          "prevailing_visibility"):
                    if hasattr(it, h):
                        d["item:%s:%d:%s" % (f, i, h)] = forms(getattr(it, h))
    return d


def forked(f, *args):
    """f's result, computed in a forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as p:
                pickle.dump(f(*args), p)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as p:
        data = p.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("no result from the child")
    return pickle.loads(data)


def baseline(i):
    return dump(create(i))


def warm_regexes():
    """Compiles the regular expressions the implementation uses, so that not
    every pristine process has to; only the cache of the module re is touched."""
    import re
    cache = getattr(re, "_cache", None)
    if not isinstance(cache, dict):
        return

    def used():
        for i in range(len(REPORTS)):
            create(i)
        return [(k[1], int(k[2])) for k in re._cache if isinstance(k, tuple) and k[0] is str]
    for p, f in forked(used):
        try:
            re.compile(p, f)
        except (re.error, ValueError):
            pass


_base = {}


def baselines():
    if not _base:
        warm_regexes()
        for i in range(len(REPORTS)):
            _base[i] = forked(baseline, i)
    return _base


def same(i, r, what):
    """The report says what it says on its own."""
    got = dump(r)
    exp = baselines()[i]
    if got == exp:
        return got
    d = obs.diff(exp, got, NAMES[i]) if isinstance(got, dict) and isinstance(exp, dict) else None
    raise Problem("%s: %s says %s, on its own %s" % (
        what, d[0] if d else NAMES[i], repr(d[2] if d else got)[:300], repr(d[1] if d else exp)[:300]),
        key=None)


class Quiet:
    """Captures what is written to the descriptors 1 and 2."""

    def __enter__(self):
        import sys
        sys.stdout.flush()
        sys.stderr.flush()
        self.fd = os.memfd_create("out")
        self.saved = [os.dup(1), os.dup(2)]
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        return self

    def __exit__(self, *a):
        import sys
        sys.stdout.flush()
        sys.stderr.flush()
        for n, s in zip((1, 2), self.saved):
            os.dup2(s, n)
            os.close(s)
        os.lseek(self.fd, 0, 0)
        self.text = os.read(self.fd, 4096)
        os.close(self.fd)
        return False
