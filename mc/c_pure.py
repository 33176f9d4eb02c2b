"""C24: reports are independent, immutable and deterministic."""
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys

import company
import env
import model
import obs
import world
from engine import Family, Problem, check
from world import NAMES, REPORTS


# ------------------------------------------------------------------ histories
def j_history(case, st):
    """Creates the reports one after the other, reads them, and reads again."""
    rs = []
    with world.Quiet() as q:
        for n, i in enumerate(case):
            rs.append(world.create(i))
            st.transitions += 1
            st.state(("history",) + tuple(case[:n + 1]))
            world.same(i, rs[-1], "created after %s" % [NAMES[j] for j in case[:n]])
        for n, (i, r) in enumerate(zip(case, rs)):
            world.same(i, r, "read again after %s were created" % [NAMES[j] for j in case])
            st.transitions += 1
    st.outcome(tuple(case))
    if q.text:
        raise Problem("printed %r" % q.text[:200])


def j_delayed(case, st):
    """All created before any is read; then read in the given order."""
    ids, order = case
    rs = [world.create(i) for i in ids]
    for n in order:
        world.same(ids[n], rs[n], "created with %s, read in the order %s" % (
            [NAMES[j] for j in ids], order))
        st.transitions += 1
        st.state(("delayed", ids, order[:n]))
    st.outcome(case)


def de_bruijn(k, n):
    """Cyclic sequence which holds every word of n letters out of k."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def j_chain(case, st):
    """One long life of a process; every report compared, the last 20 kept and
    compared again."""
    seq = de_bruijn(len(REPORTS), case[0])
    kept = []
    for n, i in enumerate(seq):
        r = world.create(i)
        world.same(i, r, "report number %d of a process" % n)
        kept.append((i, r))
        st.state(("chain", tuple(seq[max(0, n - case[0] + 1):n + 1])))
        st.transitions += 1
        st.outcome(i)
        if len(kept) > 20:
            j, old = kept.pop(0)
            world.same(j, old, "read again 20 reports later, number %d of a process" % n)


# ----------------------------------------------------------------- neighbours
def _fill(kind, n):
    """The n-th of many different reports of a kind."""
    d, h, x = n % 28 + 1, n // 28 % 24, n // 672
    if kind == "metar":
        return env.Metar, "METAR K%03d %02d%02d%02dZ %03d%02dKT %04d -RA BKN%03d %02d/M%02d Q%04d WS R%02d TEMPO TL%02d30 %04d" % (
            n % 1000, d, h, n % 60, n % 37 * 10, n % 97 + 2, n % 9999, n % 999 + 1, n % 50, n % 40, 900 + n % 199, n % 36, (h + 1) % 24, n % 9000), {}
    if kind == "taf":
        return env.Taf, "TAF PA%02d %02d%02d00Z %02d%02d/%02d%02d %03d%02dKT %04d FEW%03d TX%02d/%02d12Z FM%02d%02d%02d %04d BECMG %04d" % (
            n % 100, d, h, d, h, d + 1, h, n % 37 * 10, n % 97 + 2, n % 9999, n % 999 + 1, n % 50, d + 1, d + 1, 0, n % 60, n % 9000, n % 8000), {}
    if kind == "failing":
        return env.Metar if n % 2 else env.Taf, "METAR PADK X%d 9999 TEMPO Y%d" % (n, n), {"truncate": True}
    return env.Metar, "METAR PADK 151230Z 09014KT 9999 BKN010 BR TEMPO 5000", {}


def j_long(case, st):
    """A long life of a process with many reports; some of the world in between and at the end."""
    kind, keep, read, count = case
    kept, first = [], [(i, world.create(i)) for i in range(len(REPORTS))]
    for n in range(count):
        cls, text, kw = _fill(("metar", "taf", "failing", "same")[n % 4] if kind == "mixed" else kind, n)
        r = world.attempt(lambda: cls(text, year=world.Y, month=1 + n % 12, **kw))
        if read:
            world.attempt(str, r)
            world.attempt(lambda: r.as_dict())
        if keep:
            kept.append(r)
        st.transitions += 1
        if n % 50 == 0:
            i = n // 50 % len(REPORTS)
            world.same(i, world.create(i), "after %d reports" % n)
            st.state((case, n))
    for i, r in first:
        world.same(i, r, "read after %d other reports" % count)
        world.same(i, world.create(i), "created after %d other reports" % count)
        st.outcome(i)


def neighbours(i, deep):
    """The reports which differ from REPORTS[i] in just one thing: (kind, text, arguments)."""
    kind, text, kw = REPORTS[i]
    yield kind, text, dict(kw, year=kw.get("year", world.Y) + 1)
    yield kind, text, dict(kw, year=kw.get("year", world.Y) - 2)
    yield kind, text, dict(kw, month=kw.get("month", world.M) % 12 + 1)
    yield kind, text, dict(kw, truncate=not kw.get("truncate"))
    yield {"metar": "taf", "taf": "metar"}[kind], text, kw
    yield kind, "  " + text.replace(" ", " \n") + " =", kw
    yield kind, text + " RMK AO2", kw
    for n, c in enumerate(text):
        for d in "0123456789" if deep else "%d" % ((int(c) + 1) % 10) if c.isdigit() else "":
            if c.isdigit() and d != c:
                yield kind, text[:n] + d + text[n + 1:], kw
        if c.isalpha():
            yield kind, text[:n] + ("A" if c != "A" else "B") + text[n + 1:], kw
    t = text.split()
    for n in range(len(t)):
        yield kind, " ".join(t[:n] + t[n + 1:]) or "X", kw
        yield kind, " ".join(t[:n + 1] + t[n:]), kw
        if n:
            yield kind, " ".join(t[:n - 1] + [t[n], t[n - 1]] + t[n + 1:]), kw
        if deep:
            # every group of another report in its place
            for o in sorted({g for r in REPORTS for g in r[1].split()}):
                yield kind, " ".join(t[:n] + [o] + t[n + 1:]), kw


def make(spec):
    kind, text, kw = spec
    try:
        return (env.Metar if kind == "metar" else env.Taf)(text, **dict({"year": world.Y, "month": world.M}, **kw))
    except Exception as e:
        return e


def j_neighbour(case, st):
    """The report and its neighbour, in both orders, each against what it says in a process which did not create the other."""
    i, spec = case
    base = world.baselines()[i]

    def first():
        v = make(spec)
        d = world.dump(v)
        b = world.dump(world.create(i))
        return d, b, world.dump(v)

    def second():
        b = world.create(i)
        v = make(spec)
        return world.dump(v), world.dump(b), world.dump(make(spec))
    alone, b1, again = world.forked(first)
    v2, b2, v3 = world.forked(second)
    for what, exp, got in (("after a neighbour", base, b1), ("read when a neighbour was created", base, b2),
                           ("neighbour, read again", alone, again), ("neighbour after it", alone, v2), ("neighbour twice", alone, v3)):
        st.transitions += 1
        if got != exp:
            d = obs.diff(exp, got, NAMES[i]) if isinstance(got, dict) and isinstance(exp, dict) else None
            raise Problem("%s %s %r: says %s, on its own %s" % (NAMES[i], what, spec[1], repr(d[2] if d else got)[:200],
                                                                  repr(d[1] if d else exp)[:200]))
    st.state((i, spec[0], spec[1], tuple(sorted(spec[2].items()))))
    st.outcome(alone == base)


# ---------------------------------------------------------------------- reads
def _props_op(name):
    def f(r):
        g = getattr(r, name)
        if hasattr(g, "items"):
            return [obs.props(name, x) for x in g.items] if name in obs.PROPS else len(g)
        return obs.props("type" if name == "type_" else name, g) if \
            ("type" if name == "type_" else name) in obs.PROPS else g.code
    return f


def read_ops(r):
    """name -> read; each goes through one documented access."""
    ops = {"str": str, "as_dict": lambda r: r.as_dict(), "to_json": lambda r: r.to_json(),
           "flight_rules": lambda r: r.flight_rules, "should_be_cavok": lambda r: r.should_be_cavok(),
           "unparsed_groups": lambda r: list(r.unparsed_groups), "sections": lambda r: list(r.sections),
           "raw_code": lambda r: r.raw_code, "body": lambda r: r.body}
    for f in world.subs(r):
        ops[f] = _props_op(f)
        ops[f + ".str"] = lambda r, f=f: str(getattr(r, f))
        ops[f + ".as_dict"] = lambda r, f=f: getattr(r, f).as_dict()
        ops[f + ".to_json"] = lambda r, f=f: getattr(r, f).to_json()
        g = getattr(r, f)
        if hasattr(g, "items"):
            ops[f + ".iter"] = lambda r, f=f: [x.code for x in getattr(r, f)]
            ops[f + ".codes"] = lambda r, f=f: list(getattr(r, f).codes)
            if len(g):
                ops[f + ".break"] = lambda r, f=f: next(iter(getattr(r, f))).code
                ops[f + "[0].str"] = lambda r, f=f: str(getattr(r, f)[0])
                ops[f + "[0].as_dict"] = lambda r, f=f: getattr(r, f)[0].as_dict()
                for h in ("trend_indicator", "change_indicator", "flight_rules", "should_be_cavok",
                          "clouds", "weathers", "wind"):
                    if hasattr(g.items[0], h):
                        ops[f + "[0]." + h] = lambda r, f=f, h=h: [
                            str(x() if callable(x) else x) for x in (getattr(y, h) for y in getattr(r, f))]
        if hasattr(g, "ceiling"):
            ops[f + ".ceiling"] = lambda r, f=f: getattr(r, f).ceiling
    return ops


def properties(g):
    """The names of the public properties of an object, and of its methods without arguments."""
    return sorted({n for k in type(g).__mro__ for n, v in vars(k).items() if not n.startswith("_") and (
        isinstance(v, property) or n in ("should_be_cavok", "as_dict", "to_json"))})


def say(v):
    v = v() if callable(v) else v
    if isinstance(v, (list, tuple)):
        return [say(x) for x in v]
    if hasattr(v, "as_dict"):
        return [str(v), v.as_dict()]
    if isinstance(v, (int, float, dict, type(None))):
        return v
    return type(v).__name__ if " at 0x" in str(v) else str(v)


def all_ops(r):
    """Every property of the report, of its groups and lists, of their items, and of the groups of these."""
    ops = {p: lambda r, p=p: say(getattr(r, p)) for p in properties(r)}
    for f in world.subs(r):
        g = getattr(r, f)
        for p in properties(g):
            ops[f + "." + p] = lambda r, f=f, p=p: say(getattr(getattr(r, f), p))
        if hasattr(g, "items"):
            ops[f + " iterated"] = lambda r, f=f: [say(x) for x in getattr(r, f)]
            ops[f + " reversed"] = lambda r, f=f: [say(getattr(r, f)[-1 - n]) for n in range(len(getattr(r, f)))]
            ops[f + " next"] = lambda r, f=f: say(next(iter(getattr(r, f)), None))
            for q in sorted({q for x in g.items for q in properties(x)}):
                ops["%s[].%s" % (f, q)] = lambda r, f=f, q=q: [say(getattr(x, q, None)) for x in getattr(r, f)]
                subs = sorted({p for x in g.items for p in properties(getattr(x, q)) if hasattr(getattr(x, q), "as_dict")})
                for p in subs:
                    ops["%s[].%s.%s" % (f, q, p)] = lambda r, f=f, q=q, p=p: [say(getattr(getattr(x, q), p, None)) for x in getattr(r, f)]
    return ops


_solo = {}


def solo(i, make=read_ops):
    """What each read gives on a fresh report."""
    if (i, make) not in _solo:
        def f():
            out = {}
            for n in make(world.create(i)):
                out[n] = world.create(i)
                out[n] = obs.canon(world.attempt(make(out[n])[n], out[n]))
            return out
        _solo[i, make] = world.forked(f)
    return _solo[i, make]


_ops = {}


def j_all_reads(case, st):
    """The report after the reads, against one which was not read; then the reads again."""
    i, names = case
    r = world.create(i)
    if i not in _ops:
        _ops[i] = all_ops(world.create(i))
    ops = _ops[i]
    exp = solo(i, all_ops)
    for when in ("after", "again after"):
        for n, name in enumerate(names):
            got = obs.canon(world.attempt(ops[name], r))
            st.transitions += 1
            st.state((i, when) + tuple(names[:n + 1]))
            if got != exp[name]:
                raise Problem("%s of %s %s %s gives %r, on a fresh report %r" % (
                    name, NAMES[i], when, names if when != "after" else names[:n], got, exp[name]))
        if len(names) == 1:
            world.same(i, r, "after the reads %s" % (names,))
    st.outcome((i, names[-1]))


def all_reads(deep):
    live = [i for i in range(len(REPORTS)) if not isinstance(world.create(i), Exception)]
    for i in live:
        for n in sorted(solo(i, all_ops)):
            yield i, (n,)
    for i in live if deep else live[-2:]:
        if deep and i not in live[-2:] + [0, 5, 7]:
            continue
        # reads of the same list or group, in both orders, and of all lists
        names = sorted(solo(i, all_ops))
        for a in names:
            for b in names:
                if deep or a.split(".")[0].split("[")[0].split(" ")[0] == b.split(".")[0].split("[")[0].split(" ")[0]:
                    yield i, (a, b)


def j_reads(case, st):
    i, names = case
    r = world.create(i)
    ops = read_ops(r)
    exp = solo(i)
    for n, name in enumerate(names):
        got = obs.canon(world.attempt(ops[name], r))
        st.transitions += 1
        st.state((i,) + tuple(names[:n + 1]))
        if got != exp[name]:
            raise Problem("%s of %s after %s gives %r, on a fresh report %r" % (
                name, NAMES[i], names[:n], got, exp[name]))
    world.same(i, r, "after the reads %s" % (names,))
    st.outcome((i, names[-1]))


# -------------------------------------------------------------- configurations
PROG = """
import sys, json
sys.path.insert(0, {mc!r})
import env, world
print(json.dumps([repr(world.baseline(i)) for i in range(len(world.REPORTS))]))
"""


def j_config(case, st):
    seed, tz, opt, lc = case
    e = dict(os.environ, PYTHONHASHSEED=seed, TZ=tz, LC_ALL=lc, PYTHONUTF8="0")
    e.pop("PYTHONOPTIMIZE", None)
    p = subprocess.run([sys.executable, "-B", "-W", "ignore"] + ([opt] if opt else [])
                       + ["-c", PROG.format(mc=os.path.dirname(os.path.abspath(__file__)))],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode:
        raise Problem("configuration %s: %s" % (case, p.stderr.decode(errors="replace")[-400:]))
    got = json.loads(p.stdout)
    for i in range(len(REPORTS)):
        exp = repr(world.baselines()[i])
        st.transitions += 1
        if got[i] != exp:
            n = next((n for n, (a, b) in enumerate(zip(got[i], exp)) if a != b), 0)
            raise Problem("%s in the configuration %s: ...%s, otherwise ...%s" % (
                NAMES[i], case, got[i][max(0, n - 80):n + 80], exp[max(0, n - 80):n + 80]))
        st.outcome(hash(got[i]))
    st.state(case)


@check("C24")
def c24(tier):
    deep = tier == "thorough"
    n = len(REPORTS)
    world.baselines()
    fams = [
        Family("histories", lambda: itertools.product(range(n), repeat=3) if deep else
               itertools.chain(itertools.product(range(n), repeat=2),
                               itertools.product((0, 4, 6, 7, 10, 12, 15, 16), repeat=3)), j_history,
               "all histories of creation and reading of %s reports out of %d, each in a pristine process"
               % ("3" if deep else "2 (3 of 8)", n), per_case_fork=True),
        Family("delayed", lambda: ((ids, o) for ids in itertools.product(range(n), repeat=3)
                                   for o in (((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))
                                             if deep else ((0, 1, 2), (2, 0, 1)))), j_delayed,
               "all triples of %d reports created together, read in %d orders" % (n, 6 if deep else 2)),
        Family("chain", lambda: ((2,), (3,)) if deep else ((2,),), j_chain,
               "a process in which all words of %s reports occur" % ("2, and of 3," if deep else "2"),
               limit=600),
        Family("long lives", lambda: itertools.product(("metar", "taf", "failing", "same", "mixed"), (False, True), (False, True),
                                                       (20000 if deep else 1100,)), j_long,
               "%d reports of 5 kinds in one process, kept or not, read or not; the world before, in between and after" % (
                   20000 if deep else 1100), per_case_fork=True, limit=600),
        Family("neighbours", lambda: ((i, spec) for i in range(n) for spec in neighbours(i, deep)), j_neighbour,
               "%d reports x all reports which differ in one character, one group, one argument, created in both orders" % n),
        Family("reads", lambda: ((i, p) for i in ((0, 2, 5, 6, 7, 11) if deep else (0, 5, 6, 11))
                                 for p in itertools.product(sorted(solo(i)), repeat=2)), j_reads,
               "all ordered pairs of reads of %d reports" % (6 if deep else 4)),
        Family("all reads", lambda: all_reads(deep), j_all_reads,
               "every property of every group, list and item of all reports, twice, and pairs of those %s of 2 reports with full lists"
               % ("(all of 5)" if deep else "of one list")),
        Family("configurations", lambda: itertools.product(
            ("0", "1", "2", "12345") if deep else ("0", "7"),
            ("UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia") if deep else ("UTC", "Asia/Kolkata"),
            ("", "-O", "-OO"), ("C", "C.UTF-8") if deep else ("C",)), j_config,
            "hash seeds x time zones x optimisation x locale", limit=90),
    ]
    return fams


# ------------------------------------------------------------------ C32 copies
def _pickled(protocol):
    return lambda x: pickle.loads(pickle.dumps(x, protocol))


def _elsewhere(x):
    """What a process which did not create the report makes of it."""
    r = world.forked(lambda: world.attempt(lambda: pickle.loads(pickle.dumps(x))))
    if isinstance(r, tuple) and r[:1] == ("raised",):
        raise ValueError(r[1:])
    return r


def made(way, x, what):
    try:
        return WAYS[way](x)
    except Exception as e:
        raise Problem("there is no %s: %s: %s" % (what, type(e).__name__, e))


WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy, "forked": _elsewhere,
        "twice": lambda x: copy.deepcopy(pickle.loads(pickle.dumps(copy.copy(x))))}
WAYS.update(("pickle%d" % n, _pickled(n)) for n in range(pickle.HIGHEST_PROTOCOL + 1))


def _nothing(r):
    return None


def _halfway(r):
    """Iterations which were begun and not ended."""
    its = []
    for f in world.subs(r):
        g = getattr(r, f)
        if hasattr(g, "items"):
            its.append(iter(g))
            for it in its[-1]:
                break
    return its


def _all(r):
    return world.dump(r)


BEFORE = {"unread": _nothing, "iterating": _halfway, "read": _all}


def same_part(i, f, g, what):
    exp = world.baselines()[i]["forms:" + f]
    got = world.forms(g)
    if exp != got:
        raise Problem("%s of %s: %r, on its own %r" % (what, NAMES[i], got, exp))


def j_copy(case, st):
    i, before, way, part = case
    r = world.create(i)
    if isinstance(r, Exception):
        return
    held = BEFORE[before](r)
    what = "%s of %s (%s)" % (way, NAMES[i], before)
    st.transitions += 1
    st.state(case)
    if part is None:
        c = made(way, r, what)
        world.same(i, c, what)
        world.same(i, r, "the original after a " + what)
        if way != "copy":
            # nothing which is done with the lists of the copy reaches the original
            for f in world.subs(c):
                g = getattr(c, f)
                if hasattr(g, "items"):
                    for it in list(g.items):
                        try:
                            g.add(it)
                        except env.RangeError:
                            break
                    del g.items[:]
            world.same(i, r, "the original after the lists of a %s were emptied" % what)
        st.outcome((i, way))
    else:
        g = made(way, getattr(r, part), what + ": " + part)
        same_part(i, part, g, what + ": " + part)
        same_part(i, part, getattr(r, part), "original after a %s: %s" % (what, part))
        if hasattr(g, "items"):
            need = world.baselines()[i]["len:" + part]
            if [len(g), len(list(g)), len(g.items), list(g.codes)] != [need] * 3 + [world.baselines()[i]["codes:" + part]]:
                raise Problem("%s: the list %s has %d items, on its own %d" % (what, part, len(g), need))
        st.outcome((i, part, way))
    del held


def copy_cases(th):
    ways = sorted(WAYS)
    for i in range(len(REPORTS)):
        b = world.baselines()[i]
        if not isinstance(b, dict):
            continue
        fields = [k[len("forms:"):] for k in b if k.startswith("forms:")]
        for before in BEFORE:
            for way in ways:
                for part in [None] + fields:
                    if part is None or way != "forked" or th:
                        yield i, before, way, part


def j_transfer(case, st):
    """A report created in one process and read in another, which has created others."""
    i, j = case
    data = world.forked(lambda: world.attempt(lambda: pickle.dumps(world.create(i))))
    if not isinstance(data, bytes):
        raise Problem("%s cannot be sent to another process: %s" % (NAMES[i], data))

    def other():
        x = world.create(j)
        r = pickle.loads(data)
        return world.dump(r), world.dump(x), world.dump(pickle.loads(data))
    out = world.forked(lambda: world.attempt(other))
    if out[0] == "raised":
        raise Problem("%s cannot be read in a process which created %s: %s" % (NAMES[i], NAMES[j], out))
    for n, got in zip((i, j, i), out):
        if got != world.baselines()[n]:
            d = obs.diff(world.baselines()[n], got, NAMES[n]) if isinstance(got, dict) else None
            raise Problem("%s, read in a process which created %s: %s" % (NAMES[i], NAMES[j], repr(d)[:300]))
    st.transitions += 3
    st.state(case)
    st.outcome(case)


def j_company(case, st):
    """Copies of reports which hold every kind of group."""
    kind, body, secs, remark = case
    r = (env.Metar if kind == "metar" else env.Taf)(
        model.metar_text(body, secs, remark) if kind == "metar" else model.taf_text(body, secs), year=2022, month=10)
    want = obs.report(r), str(r), r.as_dict()
    for way in ("pickle", "deep"):
        c = pickle.loads(pickle.dumps(r)) if way == "pickle" else copy.deepcopy(r)
        got = obs.report(c), str(c), c.as_dict()
        for a, b in zip(want, got):
            if a != b:
                d = obs.diff(a, b, way + " copy") if isinstance(a, dict) else (way + " copy's text", a, b)
                raise Problem("%s: the original says %r, the copy %r" % (d or (way, a, b)))
        st.transitions += 1
    st.state(case)
    st.outcome(want[1])


def company_cases(th):
    for n, c in enumerate(company.reports(False)()):
        if th or n % 5 == 0:
            yield c
    for n, c in enumerate(company.odd()()):
        if th or n % 5 == 0:
            yield c


@check("C32")
def c32(tier):
    th = tier == "thorough"
    world.baselines()
    good = [i for i in range(len(REPORTS)) if isinstance(world.baselines()[i], dict)]
    return [
        Family("copies", lambda: copy_cases(th), j_copy,
               "%d reports and their groups and lists, unread, read and while iterations are under way x %d ways of copying" % (
                   len(good), len(WAYS))),
        Family("transfers", lambda: itertools.product(good, good if th else good[::3]), j_transfer,
               "all pairs of a report sent by another process and one created in this one"),
        Family("company", lambda: company_cases(th), j_company,
               "pickles and deep copies of %s reports with two groups of different kinds, bare and otherwise full, and with words of other characters" % ("the" if th else "every fifth of the")),
    ]
