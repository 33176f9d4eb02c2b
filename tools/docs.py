"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
A = "aeromet_py/"
BASE, MET, TAFD, UT = A + "reports/models/base/", A + "reports/models/metar/", A + "reports/models/taf/", A + "utils/"


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, observe=observe,
                  technique=technique, note=" ".join(note.split())))


W = "explicit-state model checking: "
LEVEL = ("Every case of the stated finite space is executed on the real classes imported from /repo's working "
         "tree and compared with an independent reference model written from the documentation; nothing outside "
         "the stated alphabets and depths is covered. ")

prop("C01", "No group of a METAR is lost, duplicated or invented",
     """Every whitespace-separated group of the body and the trends of a METAR or SPECI is either the code of exactly
     one decoded field (or list item, or trend) or is listed in the unparsed groups of the report, and nothing is
     reported, decoded or unparsed, which is not in the text (apart from the default type). The only group which may be replaced is a pressure
     followed by a second pressure, and the unparsed groups keep the order of the text. Groups of several words (a
     visibility such as "1 1/2SM", a wind shear such as "WS R07" or "WS ALL RWY") count as one; "WS RWY07" is reported as "WS R07".""",
     ["inputs"], """all sequences of groups, of any kinds in any order and number, in bodies of METARs and in their trends""",
     """The tests sample about a hundred well formed reports; loss and duplication appear only for particular orders
     and repetitions of groups, of which there are exponentially many.""",
     [UT + "parser.py", A + "reports/metar.py", MET + "weather_trend.py", UT + "metar_regexp.py"],
     [("position pointer of the group handlers", BASE + "__init__.py parse_section"),
      ("joining of two word groups", UT + "parser.py sanitize_visibility, sanitize_windshear")],
     ["code/codes of every field", "unparsed_groups"], W + "all group sequences to a depth, conservation invariant on the implementation",
     LEVEL + "Conservation is checked as a multiset balance, without the model of the order.")

prop("C02", "METAR groups are decoded in order of fields, once each, up to their number",
     """The groups of a METAR body are read from left to right; every group becomes the value of the first field, at or
     after the position reached, which such a group can fill, in the order: type, station, time, modifier, wind, wind
     variation, prevailing visibility, minimum visibility, up to 3 runway ranges, up to 3 weathers, up to 4 cloud layers,
     temperatures, up to 2 pressures (the last one counts), recent weather, up to 3 wind shears, sea state, runway state. A
     group which fills no remaining field is unparsed and does not disturb the others. Trends follow the same rule with the order:
     change word, up to 2 times, wind, visibility, up to 3 weathers, up to 4 cloud layers.""",
     ["inputs"], """all sequences of groups: every position of the order, however reached, with every kind of group next""",
     """The order is a state machine of 27 positions; the tests walk a few dozen of its paths, one sample per group.""",
     [UT + "parser.py", A + "reports/metar.py", MET + "weather_trend.py"],
     [("group handlers in order", A + "reports/metar.py Metar"), ("search from the position reached", BASE + "__init__.py parse_section")],
     ["code of every field", "unparsed_groups", "weather_trends"], W + "transition cover of the order automaton, replayed on the implementation",
     LEVEL + "The automaton is covered state by state and transition by transition with a distinguishing suffix.")

prop("C03", "TAF groups are accounted for and decoded in order, in body and changes",
     """The groups of a TAF body are decoded, each at most once, in the order: type, modifier (AMD or COR), station, time, NIL, valid period, CNL,
     wind, visibility, up to 3 weathers, up to 4 cloud layers, up to 4 temperatures (at most two TX and two TN); those of a change period in the order: change indicator,
     valid period, wind, visibility, up to 3 weathers, up to 4 cloud layers. A group which fills no remaining field is listed
     in the unparsed groups and disturbs no other, and no group is lost, repeated or invented. A TAF holds up to 8 change periods, in the
     order of the text, each with the groups which follow its indicator and no others.""",
     ["inputs"], """all sequences of groups in TAF bodies and change periods; 0 to 8 change periods of every kind""",
     """The tests hold a few dozen complete TAFs; they do not vary order, repetition or absence of groups.""",
     [UT + "parser.py", A + "reports/taf.py", TAFD + "change_forecast.py", UT + "taf_regexp.py"],
     [("group handlers in order", A + "reports/taf.py Taf"), ("change periods", TAFD + "change_forecast.py")],
     ["code of every field", "unparsed_groups", "changes_forecasted"], W + "transition cover of the order automaton, replayed on the implementation",
     LEVEL)

prop("C04", "METAR sections: body, trend and remark partition the text",
     """The body of a METAR ends before the first of the words NOSIG, TEMPO, BECMG or RMK. From there on each of the three trend words
     begins trend text and each RMK begins remark text, which extends up to the next of these words; trend and remark are these texts in order,
     and with the body they hold every word of the text once, with single blanks. A trend is decoded only from
     the groups which follow its own change word, and nothing in remark text changes any other part of the report.
     This holds for reports with up to two trends.""",
     ["inputs"], """all sequences of section words and groups, and all remarks, also ones which contain groups, section words or special characters""",
     """The sections are found by searching words in text; the tests do not place these words in unusual positions, twice, or inside remarks.""",
     [A + "reports/metar.py", UT + "split.py", MET + "weather_trend.py"],
     [("splitting at section words", UT + "split.py split_sentence"), ("sections", A + "reports/metar.py Metar._handle_sections")],
     ["sections", "body", "trend", "remark", "weather_trends"], W + "all word sequences to a depth against a section automaton", LEVEL)

prop("C05", "TAF sections: body and change periods partition the text",
     """The body of a TAF ends before the first change indicator (FMddhhmm, TEMPO, BECMG, PROB30, PROB40, or a PROB followed by TEMPO,
     which together are one indicator), and every change period extends to the next indicator; body and changes together are the whole
     text in order with single blanks. This holds for every station, also for those whose code begins with FM, with or without type and modifier before it.""",
     ["inputs"], """all sequences of indicators and groups; all station codes beginning with FM; all headings""",
     """A search for words in text can confuse a station with an indicator or join the wrong ones; tests use few stations and at most a few PROB TEMPO periods.""",
     [A + "reports/taf.py", UT + "split.py", UT + "parser.py"],
     [("splitting at change words", UT + "split.py split_sentence"), ("joining of PROB and TEMPO", UT + "parser.py sanitize_change_indicator")],
     ["sections", "body", "weather_changes", "changes_forecasted"], W + "all word sequences to a depth against a section automaton", LEVEL)

prop("C06", "Decoding does not depend on the layout of the text",
     """Two texts with the same groups, which differ only in the white space between them (blanks, tabs, line ends, any number), in
     leading and trailing white space, or in a final "=" attached or detached, give equal reports: the same raw code (with single
     blanks and without the "="), sections, decoded values, unparsed groups and text.""",
     ["inputs"], """all assignments of separators to the gaps of a set of METARs and TAFs with every section and every group of several words; all leading and trailing layouts""",
     """Tests use single blanks; layouts are combinatorial and interact with groups and indicators of several words.""",
     [BASE + "report.py", UT + "parser.py", UT + "split.py"], [("normalisation of the text", BASE + "report.py Report"), ("joining of words", UT + "parser.py")],
     ["raw_code", "sections", "all fields", "str"], W + "all separator assignments, equality with the canonical layout", LEVEL)

prop("C07", "Truncate mode raises exactly when something was not decoded",
     """With truncate set, creating a report raises the documented parser error if and only if the same text leaves unparsed groups without it, in the
     body, a trend or a change period, and the message contains unparsed groups and the text; otherwise the report equals the one created without truncate. Without truncate unparsed groups never raise.""",
     ["inputs", "configurations"], """reports with unknown groups at every position of body, trends and change periods, alone and in pairs, with truncate on and off""",
     """The tests check one or two positions of an unknown group, and not that truncation leaves valid reports alone.""",
     [A + "reports/metar.py", A + "reports/taf.py", BASE + "errors.py", BASE + "report.py"], [("truncate", A + "reports/metar.py Metar, " + A + "reports/taf.py Taf")],
     ["exceptions", "unparsed_groups"], W + "all placements of unknown groups, with and without truncate", LEVEL)

prop("C08", "Any text gives a report or a documented error, and every report can be read",
     """Creating a METAR or TAF from any non-empty text either gives a report or raises one of: parser error (truncate), range
     error (more than 2 trends, 8 change periods or 2 TX or TN temperatures), value error (a date which does not exist); it always terminates. A TAF raises the range error
     exactly when it has more than 8 change periods or a third TX or TN temperature at its place. All documented properties, methods
     and iterations, the text and the dictionary and JSON forms of every such report can be read without an error.""",
     ["inputs"], """every text one character away from well formed reports, all short sequences of group fragments, and unusual values of every group""",
     """Robustness quantifies over every text; the tests contain well formed reports and a handful of bad groups.""",
     [UT + "metar_regexp.py", UT + "taf_regexp.py", UT + "parser.py", A + "reports/metar.py", A + "reports/taf.py"],
     [("strict group patterns", UT + "metar_regexp.py"), ("optional values", MET)], ["exceptions", "all properties"],
     W + "all single character mutations and short fragment sequences, no-crash and termination invariant", LEVEL)

G = "all codes of the kind, and every text one character away from representative codes, against the recogniser and decoder of the reference model"
for pid, title, st, files, text in (
    ("C09", "Wind and wind variation groups decode to their value or not at all",
     """A wind group dddff(f)(Gff(f)) in KT or MPS, with direction 000 to 360 in tens, VRB or ///, speed 2 or 3 digits or //, and optional P before speed or gust,
     gives exactly its direction, cardinal direction, variability, speed and gust (1 m/s = 3600/1852 kt); a variation dddVddd gives its two directions. Missing parts are absent
     (None), never zero, and a text which is not such a group is not decoded as wind, in METAR body and trend, TAF body and change periods (a TAF forecasts no missing parts).""",
     [MET + "wind.py", MET + "wind_variation.py", BASE + "wind.py", UT + "metar_regexp.py", UT + "taf_regexp.py"],
     "all directions x speeds x gusts x units, all variations, all near misses"),
    ("C10", "Visibility groups decode to their distance and direction or not at all",
     """A visibility group (dddd or //// with optional compass direction, CAVOK, whole, fractional and mixed numbers with SM or KM, optional P or M) gives exactly its distance: 9999
     and CAVOK are 10 km, SM is 1852 m, other values as coded, and fractions are added to the whole part; its direction is the compass direction given. Missing parts are absent (None), and a text which is not such a group is not decoded as a visibility; the second such group (dddd form) of a METAR body is its minimum visibility.""",
     [MET + "visibility.py", BASE + "distance.py", UT + "metar_regexp.py", UT + "taf_regexp.py"],
     "all four digit values x directions, all whole and fractional SM and KM values, all near misses"),
    ("C11", "Cloud groups decode to their layer, and the ceiling follows from the layers",
     """A cloud group (cover FEW, SCT, BKN, OVC, NSC, NCD, SKC, CLR, VV or ///, optional height in hundreds of feet or ///, optional CB, TCU or ///) gives exactly its cover, oktas, height and type. Missing heights are absent (None),
     never zero. There is a ceiling if and only if some layer is broken or overcast (5-7 or 8 oktas) with a known height of 1500 feet or less.""",
     [MET + "cloud.py", BASE + "cloud.py", UT + "metar_regexp.py"],
     "all covers x heights x types, all lists of up to 4 layers of representative layers, all near misses"),
    ("C12", "Weather groups decode to intensity, description and phenomenon or not at all",
     """A weather group (optional -, +, VC and their combinations; optional descriptor; one precipitation, obscuration or other
     phenomenon) gives exactly the meaning of each part, and a recent weather group RE... that of its parts. Parts which
     are not in the group are absent (None), and a text which is no such group is not decoded as weather.""",
     [MET + "weather.py", MET + "recent_weather.py", UT + "metar_regexp.py"],
     "all combinations of intensity, descriptor and phenomena, all near misses"),
    ("C13", "Temperature and pressure groups decode to their value or not at all",
     """A temperature group TT/TT (M or - for below zero; //, XX or MM for missing) gives exactly temperature and dew point; a pressure group (Q, A,
     QNH, INS or four digits, or ////) gives exactly its pressure, in hPa or converted from hundredths of an inch of mercury. Missing values are absent (None), below zero values are negative, M00 is zero, and a text which is no such group is not decoded.""",
     [MET + "temperatures.py", MET + "pressure.py", BASE + "temperature.py", BASE + "pressure.py", UT + "metar_regexp.py"],
     "all temperatures x dew points, all pressures of every notation, all near misses"),
    ("C14", "Runway range, runway state, wind shear and sea groups decode to their value",
     """A runway visual range gives its runway name (L, C, R spelled out; 88 all, 99 repeated), one or two distances in metres (feet converted), limits and tendency; a runway state
     gives deposits, extent, depth and friction or the closed (SNOCLO) or cleared (CLRD) state; a wind shear its runway or all runways; a sea group its temperature, state or wave height, each by the WMO tables. A text which is no such group is not decoded.""",
     [MET + "runway_range.py", MET + "runway_state.py", MET + "windshear.py", MET + "sea_state.py", UT + "metar_regexp.py"],
     "all runways, distances, limits and tendencies; all codes of the state tables; all sea groups; all near misses"),
):
    prop(pid, title, st, ["inputs"], text,
         "Each test decodes one or two sample groups of the kind; the space of codes is finite but large, and the patterns overlap.",
         files, [("group pattern and value conversion", files[0])], ["all properties of the group"],
         W + "exhaustive enumeration of the group language against a reference recogniser", LEVEL + "The family is: " + G + ".")

prop("C15", "All unit views of a quantity agree with each other",
     """Every quantity which is offered in several units (directions, speeds, distances, heights, temperatures, pressures) has the same physical value in each of
     them, by the definition of the units, in every kind of group which offers it; either all the views are absent (None) or none is. Reading one view never changes another. The published conversion factors and functions follow from the definition of the units.""",
     ["inputs", "histories"], """every group of every kind with a value, in every section; all orders of reading two views""",
     """Tests check chosen views of chosen samples; the agreement must hold for every value and every view.""",
     [BASE + "distance.py", BASE + "wind.py", BASE + "temperature.py", BASE + "pressure.py", BASE + "numeric.py", UT + "conversions.py"],
     [("conversion factors", UT + "conversions.py"), ("views", BASE)], ["in_* properties"], W + "all values of all groups, agreement invariant", LEVEL + "Relative tolerance 5e-6.")

prop("C16", "The time of a report is its day and time in the given or current month",
     """The time group ddhhmmZ of a METAR or TAF gives exactly that day, hour and minute in the given year and month, or, for those not
     given, in the current ones (UTC); hour 24 is midnight at the end of that day. A report without a time group is dated at
     the first instant of that month (when year and month are given), and a day which the month does not have raises a value error. Year and month not given are those of one instant, also when a month or year ends while the report is created. With year and month given the result depends on neither the clock nor the time zone. A group of any other form is not taken for the time.""",
     ["inputs", "configurations"], """all days, hours and minutes, all months of leap and common years, all defaults of year and month, several clocks and time zones""",
     """Tests use one or two dates with fixed year and month; month lengths, leap years, hour 24 and the clock are not varied.""",
     [BASE + "time.py", A + "reports/metar.py", A + "reports/taf.py"], [("resolution of dates", BASE + "time.py Time.from_metar")], ["time"],
     W + "all dates and times, and all clock configurations in child processes", LEVEL)

prop("C17", "The valid period of a TAF has the right dates",
     """The valid period ddhh/ddhh of a TAF begins at that hour on the first such day on or after the day of issue, and ends at that hour (24 is midnight at the end of the day) on the first such day on or after the day it begins,
     across ends of months and years. Its duration is the difference. Without a period it is taken from the first full hour after the time of issue, for 24 hours. A group of any other form is not taken for a period.""",
     ["inputs"], """all days of issue in leap and common years, all gaps of days before the beginning and before the end, all hours""",
     """Tests use a few periods inside a month.""",
     [TAFD + "valid.py", BASE + "time.py"], [("dates of the valid period", TAFD + "valid.py")], ["valid.period_from", "valid.period_until", "valid.duration"],
     W + "all issue dates x day gaps x hours", LEVEL)

prop("C18", "Change periods of a TAF have the right dates and follow each other",
     """A BECMG, TEMPO or PROB period ddhh/ddhh has its dates on or after the beginning of the validity, across ends of months; without a period of its own it
     has that of the forecast. An FMddhhmm period begins exactly then and lasts until one hour before the next FM or BECMG period, which begins later, begins (but never ends before it begins itself), or to the end of the validity if there is none. No other period
     is altered by another change, and none by a TEMPO or PROB period. A word which only resembles a change indicator or a period is neither, but is listed as unparsed.""",
     ["inputs", "histories"], """all sequences of up to 5 change periods of 12 kinds and times, all days and hours of FM around ends of months""",
     """The end of a period depends on what follows; tests contain few sequences and hardly any end of a month.""",
     [A + "reports/taf.py", TAFD + "change_forecast.py", TAFD + "change_indicator.py", TAFD + "valid.py"],
     [("periods of FM", TAFD + "change_indicator.py"), ("end of an FM period", TAFD + "change_forecast.py")], ["changes_forecasted[i].change_indicator.valid"],
     W + "all change sequences to a depth against a period model", LEVEL)

prop("C19", "TAF temperatures have the right value, date and kind",
     """A group TXnn/ddhhZ or TNnn/ddhhZ (M for below zero) of a TAF is a maximum or minimum temperature with exactly that value, and its date is that hour on
     the first such day on or after the day of issue, across ends of months and years. Maxima and minima keep their order and never mix. A group of any other form is no temperature and is listed as unparsed.""",
     ["inputs"], """all values, days and hours, all dates of issue around ends of months and years, all orders of up to two TX and two TN""",
     "Tests use a few temperatures inside a month.", [TAFD + "temperature.py", BASE + "time.py", A + "reports/taf.py"],
     [("date of the temperature", TAFD + "temperature.py"), ("lists of maxima and minima", A + "reports/taf.py")], ["max_temperatures", "min_temperatures"],
     W + "all issue dates x temperature dates x orders", LEVEL)

prop("C20", "METAR trend periods lie in the two hours after the report",
     """The forecast period of a METAR trend is the two hours from the time of the report. FMhhmm, TLhhmm and AThhmm are that time of day within
     these hours, also when they pass midnight, the end of a month or of a year, and 2400 is midnight; without FM (TL) the period begins (ends) with the forecast period, and without AT there is no such time. A group of any other form gives no such time.""",
     ["inputs"], """all hours and minutes of the report around midnight, month and year ends, and all times within the two hours, in FM, TL, AT and their pairs, in first and second trend""",
     "Tests use two or three times of day; midnight and ends of months are not varied.",
     [MET + "trend_indicator.py", MET + "weather_trend.py", BASE + "time.py"], [("times of the trend", MET + "trend_indicator.py")], ["trend_indicator.period_from/until/at", "forecast_period"],
     W + "all report times x trend times", LEVEL)

prop("C21", "Flight rules follow from ceiling and visibility",
     """The flight rules of a report, trend or change period are the worst category which the height of its lowest listed ceiling (the first broken,
     overcast or vertical visibility layer; below 60, 150, 300, 900 m) or its visibility (below 800, 1600, 5000, 8000 m) reaches: VLIFR, LIFR, IFR, MVFR, otherwise VFR. With only one of
     them known it alone decides; with neither there are no flight rules, and only the groups of its own section count.""",
     ["inputs"], """all visibilities x all lists of up to 4 representative layers around every limit, in METAR, trend, TAF and change period""",
     "Tests check a sample of each category; limits and combinations are not covered.",
     [BASE + "flight_rules.py"], [("categories", BASE + "flight_rules.py FlightRulesMixin")], ["flight_rules"], W + "all visibility and cloud list combinations", LEVEL)

prop("C22", "CAVOK is suggested exactly when its conditions hold",
     """should_be_cavok() is true if and only if the visibility of the section is 10 km or more, it has no weather group, has at least one cloud group, and none of them is a vertical visibility, a CB or TCU, or known to be lower than 5000 feet; otherwise,
     also when visibility or clouds are missing, it is false. It holds for METARs, trends, TAFs and change periods, from the groups of their own section only.""",
     ["inputs"], """all visibilities x weathers x lists of up to 4 representative layers, in METAR, trend, TAF and change period""",
     "Tests check a few reports.", [MET + "should_be_cavok.py"], [("conditions", MET + "should_be_cavok.py ShouldBeCavokMixin")], ["should_be_cavok()"],
     W + "all combinations of visibility, weather and clouds", LEVEL)

prop("C23", "Lists of groups behave as sequences, also in nested iteration",
     """A list of groups of a report (ranges, weathers, clouds, wind shears, trends, change periods, temperatures) has one length, the same items in the order of the text on every
     access by index (also counted from the end), iteration, items and codes, and raises an index or range error beyond its end. Any number of iterations over the same list, nested, interleaved, abandoned or repeated, each give all the items once.""",
     ["histories"], """all sequences of operations (new iterator, step of one of two iterators, index, length, codes, items, text, dictionary) to a depth, on lists of 0 to 4 items of every kind""",
     "Tests iterate each list once.", [BASE + "group.py"], [("sequence protocol", BASE + "group.py GroupList")], ["len", "[]", "iter", "items", "codes"],
     W + "all operation histories to a depth against a list model", LEVEL)

prop("C24", "Reports are independent, immutable and deterministic",
     """What a report says depends only on its text, year and month: not on the reports created or read before it in the same process, the order or number of reads, the hash seed, the time zone, or optimised mode.
     Reading a report, its lists, text or dictionary changes neither it nor other reports, and neither creation nor reading prints anything.""",
     ["histories", "configurations"], """all histories of up to 3 creations and reads of 12 reports, in a pristine process each; all pairs of orders of reads; several interpreter configurations""",
     "Leaks between reports need a particular history; tests run each report by itself and never compare.",
     [A + "reports/metar.py", A + "reports/taf.py", BASE + "group.py", A + "database/stations.py"], [("state per instance", BASE)], ["all properties", "str", "as_dict"],
     W + "all parse/read histories to a depth, each in a pristine process, against solo baselines", LEVEL)

prop("C25", "Reports can be created and read in parallel",
     """Two threads which create reports, or read the same report, at the same time get exactly what they would get one after the other, for every schedule.""",
     ["schedules"], """all schedules of two threads up to a number of preemptions at the granularity of source lines (thorough: also of byte codes, and with two preemptions)""",
     "Tests are sequential, and free running threads meet few schedules.", [A + "reports/metar.py", A + "reports/taf.py", BASE + "group.py", UT + "parser.py"],
     [("no shared state", UT + "parser.py"), ("own cursor of each iteration", BASE + "group.py")], ["all properties"],
     "stateless model checking: preemption-bounded exploration of real threads under a controlled scheduler",
     """Every schedule of the stated pairs within the stated preemption bound is executed with a line-granular controlled scheduler on the real
     code; switches inside a line (which only the thorough tier explores, at every byte code of the package), and more preemptions or threads, are not covered. """)

prop("C26", "The dictionary and JSON forms agree with the report",
     """as_dict() of every report, field, list, trend and change period holds the same values as the properties of the same names, at every level, and to_json() is valid JSON of the same content. Absent values are null, and every call gives an equal result, whatever was done with the result of an earlier call.""",
     ["inputs", "histories"], """every kind of group with and without value, in every section, and all repeated calls""",
     "Tests compare the dictionaries of a few groups with literals.", [BASE + "group.py", BASE + "report.py", A + "reports/metar.py", A + "reports/taf.py"],
     [("as_dict of every class", BASE)], ["as_dict", "to_json"], W + "all group kinds and values in all sections, agreement of dictionary, JSON and properties", LEVEL)

prop("C27", "The text of a report states the decoded values, each once and in order",
     """The text (str) of every group states its decoded values in the documented format: no value which is present, also zero, is left out, and none which is absent is stated. The text of a list holds the texts of
     its items in order, and that of a report those of all its decoded groups with their final values (such as the ends of FM periods).""",
     ["inputs"], """all groups of every kind with each part present, zero or absent, and reports with every combination of sections""",
     "Tests compare a few texts with literals.", [BASE + "report.py", MET, TAFD], [("text of every group", MET), ("text of the report", BASE + "report.py Report")], ["str"],
     W + "all group values, text agrees with the decoded data", LEVEL)

prop("C28", "Every station is identified by its own data, and no other",
     """The station group of a report gives the name, country, elevation, coordinates and identifiers of the station with that ICAO code in the station table, and of no other, whatever other reports were parsed; a code which is not in the table has only its code.
     This holds for every station of the table, in METARs and TAFs, and for the look-up by IATA or SYNOP identifier (Station).""",
     ["inputs"], """all stations of the table and unknown codes next to them""", "Tests look up a handful of stations.",
     [BASE + "station.py", A + "database/stations.py"], [("look-up", BASE + "station.py Station"), ("table", A + "database/stations.py")], ["station"],
     W + "exhaustive look-up of all stations and neighbouring codes against a snapshot of the table", LEVEL)

prop("C29", "Type, modifier, NIL and CNL are reported as coded",
     """The type of a report is the one in its text (METAR, SPECI, TAF) or the default of its class; a modifier is one of the documented ones with its description, and absent
     otherwise; a TAF is missing if and only if the group NIL stands at its place in the order of groups (before the period), and cancelled if and only if CNL does (before the wind). Flags are true exactly then.""",
     ["inputs"], """all combinations of type, modifier, NIL and CNL, and near misses of each""", "Tests check one sample each.",
     [BASE + "type.py", BASE + "modifier.py", TAFD + "missing.py", TAFD + "cancelled.py"], [("tables", BASE + "modifier.py")], ["type_", "modifier", "missing", "cancelled"],
     W + "all combinations and near misses", LEVEL)

prop("C30", "Nothing is reported for groups which are absent",
     """A field whose group is not in its section has no code and no value (None, false, or an empty list), whatever other groups, sections or reports hold. So has a part which a group does not have (a gust,
     a direction, a second range, the height or state of the sea, a missing value), and what is derived from absent groups (flight rules, CAVOK, ceiling) is absent or false. An absent group or empty list has length 0 and is false, a group which is present is true and has the length of its code.""",
     ["inputs"], """all sets of fields present and absent, in METAR, trend, TAF and change period, and all groups with their parts present and absent""", "There are 2^17 sets of fields; tests check a few.",
     [A + "reports/metar.py", A + "reports/taf.py", UT + "parser.py"], [("defaults of the fields", A + "reports/metar.py Metar.__init__")], ["all properties"],
     W + "all subsets of the groups", LEVEL)

prop("C31", "A group has the same meaning in any company and section",
     """What a group decodes to does not depend on the other groups of the report nor on the section: the same wind, visibility, weather or cloud
     group has equal values in a METAR body, either trend, a TAF body and every change period, next to any other groups.""",
     ["inputs"], """all pairs and triples of representative groups of different fields; all combinations of conditions in 7 sections""",
     "Tests decode sample groups in one setting.", [A + "reports/metar.py", A + "reports/taf.py", MET + "weather_trend.py", TAFD + "change_forecast.py"],
     [("shared group classes", MET)], ["all properties"], W + "all group combinations, differential between contexts", LEVEL)

prop("C32", "Copies of a report, also in other processes, say the same",
     """A copy of a report or of one of its groups or lists (by copy, deepcopy, or pickle of any protocol, also read in another process than the one which created the report) says exactly what
     the original says, whatever was read or iterated before, and making it changes nothing. What is done with the lists of a deep or pickled copy does not reach the original.""",
     ["histories", "configurations"], """all reports of a world in which every kind of group and list occurs x every group and list x all ways of copying x three histories before; all pairs of reports sent to a process which has created another""",
     """Reports are cached, and sent to worker processes; no test copies one, and whether a copy is possible and right depends on every object which is reachable from it.""",
     [A + "reports/metar.py", A + "reports/taf.py", BASE + "group.py", MET + "runway_state.py"], [("plain state of groups", BASE + "group.py Group"), ("lists of groups", BASE + "group.py GroupList")],
     ["copy.copy", "copy.deepcopy", "pickle", "all properties"], W + "all histories of reading and ways of copying for every part of a world of reports, against solo baselines", LEVEL)



def main():
    import sys
    sys.path.insert(0, os.path.join(HERE, "mc"))
    src = "".join(open(os.path.join(HERE, "mc", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "mc")))
                  if f.startswith("c_"))
    repo = os.environ.get("VERIF_REPO", "/repo")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["pid"]):
            assert len(p["title"]) <= 80, p["title"]
            for x in p["files"]:
                assert os.path.exists(os.path.join(repo, x)), x
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["pid"]):
        if '@check("%s")' % p["pid"] not in src:
            na.append({"property": p["pid"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["pid"], "quick_cmd": "VERIF_TIER=quick ./check " + p["pid"],
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + p["pid"],
                       "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["technique"],
                       "level": "model_checking", "level_note": p["note"].strip()})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --list", "checks": checks, "not_applicable": na,
                   "notes": "See DESIGN.md. The checks import /repo's working tree and need no build."}, f, indent=1)
        f.write("\n")


main()
