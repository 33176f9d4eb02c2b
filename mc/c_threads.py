"""C25: reports can be created and read in parallel.

Real threads under a controlled scheduler.  A schedule says after how many steps
of thread A thread B gets the processor, and after how many steps of B it goes
back (never, for one preemption).  A step is a line of the implementation (or one
of its bytecodes).  Loops are unrolled: a line is a switch point at its first
VISITS visits only.  Every schedule runs in a pristine process.
"""
import sys
import threading

import env  # noqa: F401
import obs
import world
from engine import Family, Problem, check
from world import NAMES

VISITS = 30
WAIT = 0.25     # a thread which is blocked (by a lock) lets the other one go on


class Stepper:
    """Counts the steps of a thread and calls back at the chosen one."""

    def __init__(self, at, callback, opcodes=False, calls=False):
        self.at, self.callback, self.opcodes, self.calls = at, callback, opcodes, calls
        self.n = 0
        self.visits = {}

    def _step(self, frame):
        k = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
        v = self.visits.get(k, 0)
        if v >= VISITS:
            return
        self.visits[k] = v + 1
        self.n += 1
        if self.n == self.at:
            self.callback()

    def trace(self, frame, event, arg):
        if "/aeromet_py/" not in frame.f_code.co_filename:
            return None
        if event == "call":
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if self.calls:
                self._step(frame)
                return None
        elif event == ("opcode" if self.opcodes else "line"):
            self._step(frame)
        return self.trace

    def run(self, f):
        if self.opcodes:    # has to be set somewhere before settrace to be effective
            sys._getframe().f_trace_opcodes = True
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(None)


# --------------------------------------------------------------------- actions
def read_all(r):
    """Reads every text, dictionary and derived value; iterates every list."""
    out = [obs.canon(world.forms(r)), r.flight_rules, r.should_be_cavok(), list(r.unparsed_groups)]
    for f in world.subs(r):
        g = getattr(r, f)
        out.append(obs.canon(world.forms(g)))
        if hasattr(g, "items"):
            out.append([(x.code, str(x)) for x in g])
            out.append(list(g.codes))
    return out


def read_texts(r):
    out = [str(r)]
    for f in world.subs(r):
        g = getattr(r, f)
        out.append(str(g))
        if hasattr(g, "items"):
            out.append([(x.code, str(x)) for x in g])
    return out


def read_dicts(r):
    return [obs.canon(r.as_dict()), r.to_json()]


def read_derived(r):
    out = [r.flight_rules, r.should_be_cavok(), r.clouds.ceiling]
    for g in (r.weather_trends if hasattr(r, "weather_trends") else r.changes_forecasted):
        out.append((g.flight_rules, g.should_be_cavok(), g.clouds.ceiling, g.wind.gust_in_mps,
                    g.wind.cardinal_direction, g.prevailing_visibility.in_sea_miles))
    w = r.wind
    out += [w.cardinal_direction, w.direction_in_radians, w.speed_in_kph, w.gust_in_mps, r.time.day,
            r.station.country, r.station.name, r.prevailing_visibility.in_feet]
    return out


READS = {"all": read_all, "texts": read_texts, "dicts": read_dicts, "derived": read_derived}


# A scenario is (action of A, action of B); an action creates report i ("c", i),
# or reads ("r", i, how) the report i which both threads share
def setup(scn):
    shared = {}
    for act in scn:
        if act[0] == "r" and act[1] not in shared:
            shared[act[1]] = world.create(act[1])
    return shared


def perform(act, shared):
    if act[0] == "c":
        return world.create(act[1])
    return READS[act[2]](shared[act[1]])


_exp = {}


def expected(act):
    if act not in _exp:
        if act[0] == "c":
            _exp[act] = world.baselines()[act[1]]
        else:
            _exp[act] = world.forked(lambda: obs.canon(perform(act, setup((act,)))))
    return _exp[act]


def observe(act, res):
    return world.dump(res) if act[0] == "c" else obs.canon(res)


def steps(scn, warm, mode):
    """Numbers of steps of A and of B (alone, in a pristine process)."""
    def f():
        shared = setup(scn)
        if warm:
            for act in scn:
                perform(act, shared)
        out = []
        for act in scn:
            s = Stepper(-1, None, *MODES[mode])
            s.run(lambda: perform(act, shared))
            out.append(s.n)
        return out
    return world.forked(f)


MODES = {"lines": (False, False), "opcodes": (True, False), "calls": (False, True)}


def j_schedule(case, st):
    scn, warm, mode, k1, k2 = case
    shared = setup(scn)
    if warm:
        for act in scn:
            perform(act, shared)
    res = {}
    b_stopped, b_resume = threading.Event(), threading.Event()

    def b_pause():
        b_stopped.set()
        b_resume.wait(20)

    def b_main():
        try:
            s = Stepper(k2, b_pause, *MODES[mode])
            res["B"] = s.run(lambda: perform(scn[1], shared)) if k2 else perform(scn[1], shared)
        except Exception as e:
            res["B"] = e
        finally:
            b_stopped.set()

    tb = threading.Thread(target=b_main, daemon=True)

    def switch():
        tb.start()
        b_stopped.wait(WAIT)

    s = Stepper(k1, switch, *MODES[mode])
    try:
        res["A"] = s.run(lambda: perform(scn[0], shared))
    except Exception as e:
        res["A"] = e
    b_resume.set()
    if s.n < k1:
        switch()
    tb.join(20)
    st.transitions += 2 if not k2 else 3
    st.state(case)
    if tb.is_alive():
        raise Problem("thread B does not end: %s" % (case,), key="hang")
    for name, act in zip("AB", scn):
        got = res[name]
        if isinstance(got, Exception) and act[0] == "r":
            raise Problem("%s %s in parallel raises %r" % (name, act, got))
        got, exp = observe(act, got), expected(act)
        st.outcome((act, hash(repr(got))))
        if got != exp:
            d = obs.diff(exp, got, NAMES[act[1]])
            raise Problem("thread %s, %s, with %s in the other thread: %s, expected %s (switched after step %d%s)" % (
                name, act, scn[1 if name == "A" else 0], repr(d and (d[0], d[2]))[:300],
                repr(d and d[1])[:300], k1, " and %d" % k2 if k2 else ""))
    # what the reports say afterwards
    for i, r in shared.items():
        world.same(i, r, "after parallel reads")


def one(scns, mode="lines", warms=(False,)):
    sizes = [(s, w, steps(s, w, mode)[0]) for s in scns for w in warms]

    def cases():
        for scn, w, n in sizes:
            for k in range(1, n + 1):
                yield scn, w, mode, k, 0
    return cases, sum(n for _, _, n in sizes)


def two(scns, mode="calls", warms=(False,)):
    sizes = [(s, w, steps(s, w, mode)) for s in scns for w in warms]

    def cases():
        for scn, w, (n, m) in sizes:
            for k1 in range(1, n + 1):
                for k2 in range(1, m + 1):
                    yield scn, w, mode, k1, k2
    return cases


def C(*ids):
    return [(("c", i), ("c", j)) for i in ids for j in ids]


def R(i, hows):
    return [(("r", i, a), ("r", i, b)) for a in hows for b in hows]


@check("C25")
def c25(tier):
    deep = tier == "thorough"
    world.baselines()
    ids = dict((n, i) for i, n in enumerate(NAMES))
    M0, M2, T0, T5 = ids["M0"], ids["M2"], ids["T0"], ids["T5"]
    quick = [(("c", M2), ("c", M0)), (("c", M0), ("c", T0)), (("c", T0), ("c", T5)), (("c", T5), ("c", M2)),
             (("c", T0), ("c", T0))]
    allids = (M0, M2, ids["M5"], ids["M1"], T0, ids["T1"], T5, ids["T4"], ids["F0"], ids["M0'"])
    reads = [x for i in (M0, T0) for x in R(i, ("texts", "dicts"))] \
        + [(("r", M0, "derived"), ("r", M0, "derived")), (("r", T0, "derived"), ("c", T5)),
           (("r", T0, "all"), ("r", T0, "all"))]
    for scn in quick + reads + C(*allids):
        for act in scn:
            expected(act)
    fams = []
    c1, n1 = one(quick if not deep else C(*allids))
    fams.append(Family("creation", c1, j_schedule, "two threads creating reports, all schedules with one "
                       "preemption at a line (each line at its first %d visits), pristine process" % VISITS,
                       per_case_fork=True, limit=60))
    c1, n1 = one(quick[:2] if not deep else C(M0, T0, T5), warms=(True,))
    fams.append(Family("warm", c1, j_schedule, "the same in a process which has created both reports before",
                       per_case_fork=True, limit=60))
    if deep:
        rs = [x for i in (M0, M2, T0, T5) for x in R(i, tuple(READS))]
    else:
        rs = reads
    c1, n1 = one(rs)
    fams.append(Family("reading", c1, j_schedule, "two threads reading the same report (fresh for each schedule), "
                       "all schedules with one preemption at a line", limit=60))
    if deep:
        fams.append(Family("two preemptions", two([(("c", M2), ("c", M0)), (("c", T0), ("c", M2)),
                                                   (("c", T0), ("c", T5))]), j_schedule,
                           "all schedules with two preemptions at function entries", per_case_fork=True, limit=60))
        fams.append(Family("two preemptions, reading",
                           two([(("r", T0, "texts"), ("r", T0, "texts")), (("r", M0, "dicts"), ("r", M0, "texts"))]),
                           j_schedule, "all schedules with two preemptions at function entries",
                           per_case_fork=True, limit=60))
        fams.append(Family("bytecodes", one(quick + reads, "opcodes")[0], j_schedule,
                           "all schedules with one preemption at a bytecode", per_case_fork=True, limit=60))
    return fams
