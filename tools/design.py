"""design.py: writes the per-property part of DESIGN.md (between the markers) from the table of docs.py, the
registry of families and the notes below; run by hand."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "mc"))
import env  # noqa: E402,F401
import engine  # noqa: E402
import glob  # noqa: E402
import importlib  # noqa: E402

for f in sorted(glob.glob(os.path.join(HERE, "mc", "c_*.py"))):
    importlib.import_module(os.path.basename(f)[:-3])

NOTES = {
 "C01": ("Balance: the multiset of codes of all fields, list items and trends plus the unparsed groups equals the multiset of groups of the text (pressure "
         "replacement excepted), and the unparsed groups are a subsequence of the text. No order model is used, so the check is independent of C02.", ""),
 "C02": ("The 27 position METAR transducer and the trend transducer of ref.py. For every position there is a shortest and a longest access sequence; after it every sequence "
         "of groups of the alphabet up to the depth is appended, and then the canonical report, whose groups tell every position from every other (a W-method cover: an "
         "implementation with the same number of positions which passes has the same transition function).", ""),
 "C03": ("The same as C01 and C02 with the TAF and change period transducers, and all numbers and kinds of change periods (which period owns which group).", ""),
 "C04": ("An automaton over words which splits body, trends and remarks; compared with body, trend, remark, sections, and with the groups decoded in each section.", "The words which only begin with a section word, and more than two trends, are excluded by the statement."),
 "C05": ("An automaton over words with the change indicators; compared with body, weather_changes, sections and the codes of the change periods; over all stations beginning with FM.", ""),
 "C06": ("Differential: the same words with single blanks. Compared: all observed properties, raw code, str and JSON.", ""),
 "C07": ("Differential: the same text without truncate tells whether the error is due; the message is searched for an unparsed group and the text; equality of reports otherwise.", ""),
 "C08": ("No oracle beyond the allowed set of exceptions: creation with and without truncate, then *every* documented property, method, iteration, str, as_dict and to_json of the report "
         "and all its parts is read. Every case has a time limit (termination).", "Real input is infinite: mutations of six rich reports, all fragment sequences, all group languages, all short texts."),
 "C09": ("ref.wind, ref.wind_variation (string operations); all values compared in the unit of the group and in knots.", ""),
 "C10": ("ref.prevailing, ref.minimum; fractions computed with exact arithmetic.", ""),
 "C11": ("ref.cloud and ref.ceiling.", ""),
 "C12": ("ref.weather, ref.recent_weather with the code tables of WMO 4678.", ""),
 "C13": ("ref.temperatures, ref.pressure.", ""),
 "C14": ("ref.runway_range, runway_state, windshear, sea_state with WMO tables 0919, 0519, 1079, 0366, 3700.", ""),
 "C15": ("Definition of the units (exact factors in ref.py), relative tolerance 5e-6 (the implementation uses 39.3701 in/m and the like); None is all or nothing; all ordered pairs of reads.", ""),
 "C16": ("ref.report_time with datetime arithmetic; the clock family runs processes whose clock is a stand-in installed in the datetime module before import (the real clock is never set).", ""),
 "C17": ("ref.valid_period: the first matching day on or after the issue, by search day by day rather than by month arithmetic.", ""),
 "C18": ("model.taf: periods first, then the ends of FM periods computed from the whole list (the implementation patches the last one while it adds the next).", "Starts out of order or equal are outside the statement."),
 "C19": ("ref.taf_temperature and ref.roll.", ""),
 "C20": ("ref.trend_time: the first such time of day on or after the report, within two hours.", ""),
 "C21": ("ref.flight_rules on the values of the model, every limit and its neighbours in every unit.", ""),
 "C22": ("ref.should_be_cavok on the values of the model.", ""),
 "C23": ("A plain Python list and independent cursors as the model; every history of operations is replayed step by step on the list of a report.", ""),
 "C24": ("Baseline: each report alone in a fresh process. Then histories, delayed reads, near identical neighbours (one character, group or argument apart, in both orders), all pairs of reads, and interpreter configurations.", ""),
 "C25": ("Baseline: the sequential result. Real threads under a controlled scheduler (settrace): one thread is stopped at a step, the other runs to the end or for k steps. Steps are lines (each at its first 30 visits), function entries or bytecodes; every schedule of "
         "creation runs in a pristine forked process. A thread blocked by a lock yields.", "Two threads; one preemption at lines and bytecodes, two at function entries."),
 "C26": ("want_group/want_report of c_forms.py: the dictionary which follows from the observed properties; exact types; JSON parsed with constants (NaN) rejected.", ""),
 "C27": ("text_group/text_report of c_forms.py: the documented text which follows from the observed properties.", ""),
 "C28": ("A snapshot of the station and country tables of the pinned commit (mc/stations.json.gz, countries.json.gz).", "The snapshot was checked for plausibility, not against an outside source."),
 "C29": ("Tables of types and modifiers in ref.py and the transducers for the places.", ""),
 "C30": ("The defaults of every field and part (None, False, [] ) wherever the model says absent.", ""),
 "C32": ("The baselines of C24 (each report alone in a fresh process); the copy, the original and, after the copy's lists were altered, the original again are compared with them. Another process is a forked one.",
         "A report which an implementation could only keep uncopyable (a lock, a file) would break the statement; the present one has no such part."),
 "C31": ("Differential between contexts: the group alone, next to others, in seven to nine sections.", ""),
}


def main():
    P = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    out = []
    for p in P:
        pid = p["id"]
        o, limit = NOTES[pid]
        out.append("### %s %s\n" % (pid, p["title"]))
        out.append("* Quantifier: %s." % p["quantifier"]["text"])
        out.append("* Oracle and comparison: %s" % o)
        quick = engine.REGISTRY[pid]("quick")
        deep = engine.REGISTRY[pid]("thorough")
        ev = {}
        cost = ""
        try:
            e = json.load(open(os.path.join(HERE, "evidence", pid + ".json")))
            if e["tier"] == "quick" and not e["violations"]:
                ev = e["coverage"]["families"]
                cost = "; %d states, %d transitions, %d traces replayed, %.0f s" % (
                    e["coverage"]["states"], e["coverage"]["transitions"], e["coverage"]["traces_validated_against_impl"], e["wall_s"])
        except OSError:
            pass
        out.append("* Enumerated (quick%s):" % cost)
        for f in quick:
            n = ev.get(f.name, {}).get("cases")
            out.append("  * %s%s: %s" % (f.name, " (%d cases)" % n if n else "", f.bound))
        q = {f.name: f.bound for f in quick}
        more = [f for f in deep if q.get(f.name) != f.bound]
        if more:
            out.append("* Thorough instead or in addition:")
            for f in more:
                out.append("  * %s: %s" % (f.name, f.bound))
        else:
            out.append("* Thorough: the same families over larger alphabets, or the same where the space is complete.")
        out.append("* Why tests cannot: %s" % p["why_tests_cant"])
        if limit:
            out.append("* Limits: %s" % limit)
        out.append("")
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- properties -->\n", "<!-- end of properties -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n".join(out) + s[j:]
    open(path, "w").write(s)


main()
