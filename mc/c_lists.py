"""C23: histories of operations on lists of groups."""
import itertools
import json

import model
from common import T_METAR, T_TAF, build
from engine import Family, Problem, check
from env import RangeError

CH = ("FM151300 25010KT", "BECMG 1514/1516 5000", "TEMPO 1516/1518 TSRA", "PROB30 1518/1520 BKN005", "PROB40 TEMPO 1520/1522 0800",
      "FM160000 VRB02KT", "BECMG 1602/1604 CAVOK", "TEMPO 1606/1608 BR")
TEMPS = ("TX30/1518Z", "TX31/1612Z"), ("TN10/1606Z", "TNM01/1607Z")
# every list of groups: how to make a report in which it has the items
KINDS = {
    "runway_ranges": (3, ("R07/0800", "R25L/P1500N", "R10C/M0050V0350U")),
    "weathers": (3, ("-RA", "BR", "VCTS")),
    "clouds": (4, ("FEW005", "SCT015", "BKN030CB", "OVC100")),
    "windshears": (3, ("WS R07", "WS R25L", "WS R36C")),
    "weather_trends": (2, ("BECMG 5000", "TEMPO 0800 TSRA")),
    "taf.weathers": (3, ("-RA", "BR", "VCTS")),
    "taf.clouds": (4, ("FEW005", "SCT015", "BKN030CB", "OVC100")),
    "max_temperatures": (2, TEMPS[0]),
    "min_temperatures": (2, TEMPS[1]),
    "changes_forecasted": (8, CH),
    "trend.weathers": (3, ("-RA", "BR", "VCTS")),
    "trend.clouds": (4, ("FEW005", "SCT015", "BKN030CB", "OVC100")),
    "change.weathers": (3, ("-RA", "BR", "VCTS")),
    "change.clouds": (4, ("FEW005", "SCT015", "BKN030CB", "OVC100")),
    # the same group more than once
    "runway_ranges=": (3, ("R07/0800",) * 3),
    "weathers=": (3, ("BR", "-RA", "BR")),
    "clouds=": (4, ("FEW005", "BKN030CB", "BKN030CB", "FEW005")),
    "windshears=": (3, ("WS R07",) * 3),
    "weather_trends=": (2, ("TEMPO 0800 TSRA",) * 2),
    "max_temperatures=": (2, ("TX30/1518Z",) * 2),
    "changes_forecasted=": (8, ("TEMPO 1516/1518 TSRA",) * 8),
    "change.clouds=": (4, ("FEW005",) * 4),
}


def make(kind, n):
    """(list, codes)"""
    toks = KINDS[kind][1][:n]
    kind = kind.rstrip("=")
    field = kind.split(".")[-1]
    if kind.startswith("taf.") or kind.endswith("_temperatures"):
        o = build("taf", " ".join(T_TAF + ("09014KT", "9999") + toks))
    elif kind == "changes_forecasted":
        o = build("taf", " ".join(T_TAF + ("09014KT", "9999") + toks))
    elif kind.startswith("trend."):
        o = build("metar", model.metar_text(T_METAR + ("9999", "FG", "VV001"), (("TEMPO", "5000") + toks,))).weather_trends.items[0]
    elif kind.startswith("change."):
        o = build("taf", model.taf_text(T_TAF + ("9999", "FG", "VV001"), (("TEMPO", "1514/1516", "5000") + toks,))).changes_forecasted.items[0]
    else:
        o = build("metar", " ".join(T_METAR + ("09014KT", "9999") + toks))
    return getattr(o, field), toks


def history(case, st):
    """Runs the operations on the list of a fresh report and on a tuple."""
    kind, n, ops = case
    cap = KINDS[kind][0]
    lst, want = make(kind, n)
    its, pos = {}, {}
    for m, op in enumerate(ops):
        st.transitions += 1
        k = op[0]
        if k == "I":
            its[op] = iter(lst)
            pos[op] = 0
        elif k == "N":
            i = "I" + op[1:]
            if i not in its:
                continue
            try:
                g = next(its[i]).code
            except StopIteration:
                g = None
            e = want[pos[i]] if pos[i] < n else None
            if g != e:
                raise Problem("iterator %s gave %r, expected %r" % (i, g, e))
            pos[i] += e is not None
        elif k == "G":
            i = {"L": n - 1, "F": -n, "B": -n - 1}.get(op[1:])
            i = int(op[1:]) if i is None else i
            if i < 0 and op == "GL" or i == 0 and op == "GF":
                continue
            try:
                g = lst[i].code
            except (IndexError, RangeError):
                g = None
            e = want[i] if -n <= i < n else None
            if g != e:
                raise Problem("[%d] gave %r, expected %r" % (i, g, e))
        elif op == "next":
            # next() on the list itself: the items in order, if it is supported
            try:
                g = next(lst).code
            except TypeError:
                continue
            except StopIteration:
                g = None
            e = (want + (None,))[m % (n + 1)]
            if g != e if set(ops[:m]) <= {"next"} else g is not None and g not in want:
                raise Problem("next() of the list gave %r, expected %r" % (g, e))
        else:
            g, e = simple(op, lst, want, n)
            if g != e:
                raise Problem("%s gave %r, expected %r" % (op, g, e))
        st.state((kind, n, tuple(sorted(pos.items()))))
    got = [g.code for g in lst]
    if got != list(want) or len(lst) != n or list(lst.codes) != list(want):
        raise Problem("finally %r of length %d, expected %r" % (got, len(lst), want))
    st.outcome((kind, n, tuple(sorted(pos.items()))))


def simple(op, lst, want, n):
    if op == "len":
        return len(lst), n
    if op == "codes":
        return list(lst.codes), list(want)
    if op == "items":
        return [g.code for g in lst.items], list(want)
    if op == "list":
        return [g.code for g in lst], list(want)
    if op == "nested":
        return [(a.code, b.code) for a in lst for b in lst], [(a, b) for a in want for b in want]
    if op == "zip":
        return [(a.code, b.code) for a, b in zip(lst, lst)], [(a, a) for a in want]
    if op == "first":
        for g in lst:
            return g.code, want[0]
        return None, None if not n else want[0]
    if op == "two":
        out = []
        for g in lst:
            out.append(g.code)
            if len(out) == 2:
                break
        return out, list(want[:2])
    if op == "str":
        a = str(lst)
        return (a == str(lst), a != "" or not n), (True, True)
    if op == "dict":
        d = lst.as_dict()
        return (len(d), d), (n, lst.as_dict())
    if op == "json":
        return len(json.loads(lst.to_json())), n
    if op == "bool":
        return bool(lst), n > 0
    if op == "reversed":
        return [g.code for g in reversed(lst)], list(want[::-1])
    if op == "unpack":
        return [g.code for g in (*lst, *lst)], list(want) * 2
    if op == "in":
        return [g in lst for g in lst.items], [True] * n
    if op == "same":
        return all(a is b for a, b in zip(lst, lst.items)) and all(lst[i] is g for i, g in enumerate(lst)), True
    if op == "raise":
        try:
            for g in lst:
                raise KeyError
        except KeyError:
            pass
        return 0, 0
    if op == "while":
        # reads the list while it iterates over it
        out = []
        for i, g in enumerate(lst):
            out += [g.code, lst[i].code, len(lst), list(lst.codes), [x.code for x in lst]]
            str(lst)
        return out, [x for i in range(n) for x in (want[i], want[i], n, list(want), list(want))]
    raise KeyError(op)


OPS = ("I0", "N0", "I1", "N1", "G0", "GL", "first", "list", "len", "dict", "str", "next")
ITOPS = ("I0", "N0", "I1", "N1", "list", "first")
ALL = OPS + ("G-1", "G-2", "GF", "GB", "G1", "G2", "G3", "G4", "G9", "codes", "items", "nested", "zip", "two", "json", "bool", "raise", "while", "next", "reversed", "unpack", "in", "same")


def histories(kinds, ops, depth, sizes=None):
    def gen():
        for kind in kinds:
            cap = KINDS[kind][0]
            for n in sizes(cap) if sizes else range(cap + 1):
                for k in range(1, depth + 1):
                    for h in itertools.product(ops, repeat=k):
                        if k < depth or useful(h):
                            yield (kind, n, h)
    return gen


def useful(h):
    """Histories which step an iterator they did not make are shorter ones."""
    made = set()
    for op in h:
        if op[0] == "I":
            made.add(op[1:])
        elif op[0] == "N" and op[1:] not in made:
            return False
    return True


@check("C23")
def c23(tier):
    th = tier == "thorough"
    return [
        Family("all-operations", histories(KINDS, ALL, 3 if th else 2), history,
               "22 lists of every length x all histories of up to %d of %d operations" % (3 if th else 2, len(ALL))),
        Family("histories", histories(("clouds", "weathers", "changes_forecasted", "weather_trends", "max_temperatures", "change.clouds") if not th else KINDS,
                                      OPS, 4 if th else 3, lambda c: sorted({1, 2, min(c, 3)})), history,
               "lists of 1 to 3 items x all histories of up to %d of 12 operations" % (4 if th else 3)),
        Family("iterators", histories(("clouds", "runway_ranges", "windshears", "weather_trends", "changes_forecasted"), ITOPS, 6 if th else 5,
                                      lambda c: (2, min(c, 3))), history,
               "5 lists of 2 and 3 items x all histories of up to %d operations on two iterators" % (6 if th else 5)),
    ]
