"""Exhaustive exploration: parallel enumeration, counting, violations, evidence.

A *family* is a finite set of cases produced by a deterministic generator and a
judge which runs the implementation on one case and compares with the oracle.
Every case of every family is executed; nothing is sampled.  The generator runs
in every worker and worker w takes the cases w, w+N, w+2N... so that the union
over the workers is the whole family; the parent checks that the counts add up.
"""
import array
import gc
import hashlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
CASE_LIMIT = float(os.environ.get("VERIF_CASE_LIMIT", "20"))
REGISTRY = {}


class Problem(Exception):
    """The property does not hold on the case; key identifies the failure."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


class Stats:
    """What a worker covered; a state is hashed from its canonical form."""

    def __init__(self):
        self.cases = 0
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.traces = 0

    def state(self, s):
        self.states.add(hash(s))

    def outcome(self, o):
        self.outcomes.add(hash(o))


class Family:
    def __init__(self, name, cases, judge, bound, per_case_fork=False, limit=None, serial=False):
        self.name, self.cases, self.judge, self.bound = name, cases, judge, bound
        self.per_case_fork = per_case_fork
        self.limit = limit or CASE_LIMIT
        self.serial = serial


def check(pid):
    """Registers a function tier -> [Family, ...] for the property."""
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


def judge_one(fam, case, st):
    """Returns [(key, msg)] - empty when the property holds on the case."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.limit)
    try:
        r = fam.judge(case, st)
        return list(r) if r else []
    except Problem as p:
        return [(p.key, p.msg)]
    except Hang:
        return [("hang", "did not terminate within %g s" % fam.limit)]
    except MemoryError:
        return [("memory", "ran out of memory")]
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if tb and os.path.realpath(tb[-1].filename).startswith(HERE + os.sep + "mc") \
                and not any("/aeromet_py/" in f.filename for f in tb):
            # also reached when the implementation returns something without
            # the documented attribute; that is a failure of the property too
            if not isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)):
                raise
        return [("exception:" + type(e).__name__,
                 "raised %s: %s (%s)" % (type(e).__name__, e,
                                         " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                    for f in reversed(tb[-4:]))))]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def of_implementation(e):
    """The error was raised inside the implementation, or by a use of what it returned."""
    return isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError)) or any(
        "/aeromet_py/" in f.filename for f in traceback.extract_tb(e.__traceback__))


def broken(name, e):
    """A family of one case: the implementation raises on one of the reports the cases are made from."""
    text = "raised %s: %s" % (type(e).__name__, e)

    def judge(case, st):
        raise Problem(text, key=None)
    return Family(name, lambda: iter([("making the cases", text[:200])]), judge, "the reports the cases are made from")


def _fork_case(fam, case, st):
    """Runs the case in a forked child: nothing it does outlives it."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            s = Stats()
            res = judge_one(fam, case, s)
            with os.fdopen(w, "wb") as f:
                pickle.dump((res, s.states, s.transitions, s.outcomes, s.traces), f)
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise RuntimeError("case process failed with status %d on %r" % (status, case))
    res, states, trans, outs, traces = pickle.loads(data)
    st.states |= states
    st.transitions += trans
    st.outcomes |= outs
    st.traces += traces
    return res


MAX_BAD = 40


def _worker(fam, w, n, known, path):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    st = Stats()
    bad, total, knownhits = [], 0, {}
    if fam.per_case_fork:
        gc.disable()
        gc.freeze()

    def go():
        nonlocal total
        for i, case in enumerate(fam.cases()):
            total += 1
            if i % n != w:
                continue
            st.cases += 1
            res = _fork_case(fam, case, st) if fam.per_case_fork else judge_one(fam, case, st)
            for key, msg in res:
                if key is not None and key in known:
                    knownhits.setdefault(key, (i, case, msg))
                else:
                    bad.append((i, case, key, msg))
            if len(bad) >= MAX_BAD:
                break
    try:
        go()
    except Exception as e:
        if not of_implementation(e):
            raise
        bad.append((total, ("making the cases", total), None, "raised %s: %s" % (type(e).__name__, e)))
    with open(path, "wb") as f:
        pickle.dump({"cases": st.cases, "total": total, "bad": bad, "known": knownhits,
                     "transitions": st.transitions, "traces": st.traces,
                     "states": array.array("q", st.states).tobytes(),
                     "outcomes": array.array("q", st.outcomes).tobytes()}, f)


def explore(fam, known):
    n = 1 if fam.serial else JOBS
    tmp = tempfile.mkdtemp(prefix="verif-mc-")
    pids = {}
    try:
        sys.stdout.flush()
        for w in range(n):
            p = os.path.join(tmp, str(w))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _worker(fam, w, n, known, p)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = p
        out, failed = [], False
        for pid, p in list(pids.items()):
            _, status = os.waitpid(pid, 0)
            if status != 0:
                failed = True
            else:
                with open(p, "rb") as f:
                    out.append(pickle.load(f))
        if failed:
            raise RuntimeError("a worker of %s failed" % fam.name)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    states, outcomes = set(), set()
    for o in out:
        a = array.array("q")
        a.frombytes(o["states"])
        states.update(a)
        b = array.array("q")
        b.frombytes(o["outcomes"])
        outcomes.update(b)
    bad = sorted((x for o in out for x in o["bad"]), key=lambda x: x[0])
    knownhits = {}
    for o in out:
        for k, v in o["known"].items():
            if k not in knownhits or v[0] < knownhits[k][0]:
                knownhits[k] = v
    cases = sum(o["cases"] for o in out)
    if not bad and cases != max(o["total"] for o in out):
        raise RuntimeError("%s: %d of %d cases executed" % (fam.name, cases, out[0]["total"]))
    return {"cases": cases, "bad": bad, "known": knownhits, "states": states,
            "outcomes": outcomes, "transitions": sum(o["transitions"] for o in out),
            "traces": sum(o["traces"] for o in out)}


def samples(fam, k=3):
    """The first, the middle and the last case."""
    cs = list(fam.cases()) if fam.serial else None
    if cs is None:
        first = last = None
        n = 0
        for c in fam.cases():
            if n == 0:
                first = c
            last = c
            n += 1
        mid = None
        for i, c in enumerate(fam.cases()):
            if i == n // 2:
                mid = c
                break
        cs3 = [first, mid, last]
    else:
        cs3 = [cs[0], cs[len(cs) // 2], cs[-1]] if cs else []
    return [{"family": fam.name, "case": c} for c in cs3[:k]]


def load_known(pid):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        data = json.load(f)
    return {e["key"]: e for e in data["findings"] if e["property"] == pid}


def replay_file(pid, fam, case, key, msg):
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    body = {"property": pid, "family": fam.name, "case": case, "key": key, "message": msg}
    text = json.dumps(body, indent=1, ensure_ascii=True, default=str)
    name = hashlib.sha1(text.encode()).hexdigest()[:12] + ".json"
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text + "\n")
    return os.path.relpath(p, HERE)


def run(pid, tier, seed, only=None):
    t0 = time.time()
    known = load_known(pid)
    try:
        fams = REGISTRY[pid](tier)
    except Exception as e:
        if not of_implementation(e):
            raise
        fams = [broken("reports", e)]
    if only:
        fams = [f for f in fams if f.name in only]
    allstates, alloutcomes = set(), set()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "exhaustive": True, "families": {}}
    violations, hits = 0, {}
    for fam in fams:
        t1 = time.time()
        r = explore(fam, known)
        allstates |= {hash((fam.name, s)) for s in r["states"]}
        alloutcomes |= r["outcomes"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["traces"] or r["cases"]
        cov["families"][fam.name] = {
            "bound": fam.bound, "cases": r["cases"], "model_states": len(r["states"]),
            "transitions": r["transitions"], "distinct_outcomes": len(r["outcomes"]),
            "seconds": round(time.time() - t1, 2)}
        if not r["bad"]:
            cov["samples"] += samples(fam)
        print("%s %-28s cases=%d states=%d transitions=%d outcomes=%d %.1fs" % (
            pid, fam.name, r["cases"], len(r["states"]), r["transitions"],
            len(r["outcomes"]), time.time() - t1))
        for k, (i, case, msg) in r["known"].items():
            hits.setdefault(k, (case, msg))
        seen = set()
        for i, case, key, msg in r["bad"]:
            if key in seen and key is not None:
                continue
            seen.add(key)
            violations += 1
            if len(seen) > 5 or violations > 12:
                break
            p = replay_file(pid, fam, case, key, msg)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("  family=%s case=%s\n  %s" % (fam.name, json.dumps(case, default=str)[:600],
                                                 msg[:1500]))
        if r["bad"]:
            break
        if r["cases"] == 0 or (r["cases"] > 1 and not r["outcomes"]):
            raise RuntimeError("%s explored nothing" % fam.name)
    for k, (case, msg) in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s (e.g. %s)" % (pid, known[k]["what"],
                                                          json.dumps(case, default=str)[:200]))
    cov["states"] = len(allstates)
    cov["distinct_outcomes"] = len(alloutcomes)
    if violations:
        cov["exhaustive"] = False
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": ["values outside the stated alphabets and histories longer than the "
                          "stated depths are not explored"]}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
    print("%s: %d states, %d transitions, %d traces on the implementation, %d violations, %.1fs"
          % (pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
             violations, time.time() - t0))
    return 1 if violations else 0


def replay(path):
    with open(path) as f:
        body = json.load(f)
    pid = body["property"]
    for tier in ("quick", "thorough"):
        for fam in REGISTRY[pid](tier):
            if fam.name == body["family"]:
                case = _tuplify(body["case"])
                r1 = judge_one(fam, case, Stats())
                print("case:", json.dumps(body["case"]))
                for key, msg in r1:
                    print("fails:", key, msg)
                if not r1:
                    print("holds")
                return 1 if r1 else 0
    print("no such family")
    return 2


def _tuplify(x):
    if isinstance(x, list):
        return tuple(_tuplify(v) for v in x)
    return x
