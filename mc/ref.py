"""Reference model of the METAR/TAF decoder.

Written from the documentation (doc/docs.md), the WMO/ICAO code tables and the
repository's own tests, with plain string operations: no regular expression and
no line of the implementation is shared.  It has two parts:

* a *recogniser and decoder* for every kind of group: ``X(token)`` gives the
  documented fields of the group, or ``None`` when the token is not such a group;
* a *transducer* for the order of the groups: its state is the position reached
  in the list of fields of the section, and a token moves to the first field at
  or after that position which accepts it (or stays, and is left unparsed).

Values are computed from the physical definition of the units.
"""
from datetime import datetime, timedelta
from math import pi

# ---------------------------------------------------------------- physics
FT = 0.3048
NM = 1852.0            # the package reads SM as this mile (pinned by its tests)
KT_MPS = 1852.0 / 3600.0
KT_KPH = 1.852
KT_MIPH = 1852.0 / 1609.344
INHG = 1 / 0.0295299830714      # hPa in an inch of mercury
DIGITS = "0123456789"


def isnum(s, *lens):
    return bool(s) and len(s) in lens and all(c in DIGITS for c in s)


# ---------------------------------------------------------------- direction
SECTORS = ["N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE",
           "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW"]
COMPASS8 = {"N": 360.0, "NE": 45.0, "E": 90.0, "SE": 135.0,
            "S": 180.0, "SW": 225.0, "W": 270.0, "NW": 315.0}


def cardinal(deg):
    if deg is None:
        return None
    return SECTORS[int(((deg + 11.25) % 360) // 22.5)]


def mul(v, k):
    return None if v is None else v * k


def dirviews(deg, prefix):
    return {
        prefix + "_in_degrees": deg,
        prefix + "_in_radians": mul(deg, pi / 180),
        prefix + "_in_gradians": mul(deg, 400 / 360),
    }


def speedviews(kt, prefix):
    return {
        prefix + "_in_knot": kt,
        prefix + "_in_mps": mul(kt, KT_MPS),
        prefix + "_in_kph": mul(kt, KT_KPH),
        prefix + "_in_miph": mul(kt, KT_MIPH),
    }


def distviews(m, prefix=""):
    return {
        prefix + "in_meters": m,
        prefix + "in_kilometers": mul(m, 0.001),
        prefix + "in_sea_miles": mul(m, 1 / NM),
        prefix + "in_feet": mul(m, 1 / FT),
    }


def tempviews(c, prefix=""):
    return {
        prefix + "in_celsius": c,
        prefix + "in_kelvin": None if c is None else c + 273.15,
        prefix + "in_fahrenheit": None if c is None else c * 1.8 + 32,
        prefix + "in_rankine": None if c is None else (c + 273.15) * 1.8,
    }


# ---------------------------------------------------------------- wind
def _wind_fields(code, deg, var, kt, gust):
    d = {"code": code, "cardinal_direction": cardinal(deg), "variable": var}
    d.update(dirviews(deg, "direction"))
    d.update(speedviews(kt, "speed"))
    d.update(speedviews(gust, "gust"))
    return d


NO_WIND = _wind_fields(None, None, False, None, None)


def _tens(s, lo, hi):
    """Three digit direction, a multiple of ten within lo..hi."""
    return isnum(s, 3) and s[2] == "0" and lo <= int(s) <= hi


def wind(tok, missing=True):
    if tok.endswith("MPS"):
        unit, rest = 3600.0 / 1852.0, tok[:-3]
    elif tok.endswith("KT"):
        unit, rest = 1.0, tok[:-2]
    else:
        return None
    d, rest = rest[:3], rest[3:]
    if d == "VRB":
        deg, var = None, True
    elif missing and d == "///":
        deg, var = None, False
    elif _tens(d, 0, 360):
        deg, var = float(d), False
    else:
        return None
    if rest[:1] == "P":
        rest = rest[1:]
    gust = None
    spd, g, gst = rest.partition("G")
    if g:
        if gst[:1] == "P":
            gst = gst[1:]
        if not isnum(gst, 2, 3):
            return None
        gust = int(gst) * unit
    if isnum(spd, 2, 3):
        kt = int(spd) * unit
    elif missing and spd in ("//", "///"):
        kt = None
    else:
        return None
    return _wind_fields(tok, deg, var, kt, gust)


def taf_wind(tok):
    return wind(tok, missing=False)


def _variation_fields(code, a, b):
    d = {"code": code,
         "from_cardinal_direction": cardinal(a), "to_cardinal_direction": cardinal(b)}
    d.update(dirviews(a, "from"))
    d.update(dirviews(b, "to"))
    return d


NO_VARIATION = _variation_fields(None, None, None)


def wind_variation(tok):
    if len(tok) != 7 or tok[3] != "V":
        return None
    if not (_tens(tok[:3], 10, 360) and _tens(tok[4:], 10, 360)):
        return None
    return _variation_fields(tok, float(tok[:3]), float(tok[4:]))


# ---------------------------------------------------------------- visibility
def _vis_fields(code, m, deg=None, cavok=None):
    d = {"code": code, "cardinal_direction": cardinal(deg)}
    d.update(distviews(m))
    d.update(dirviews(deg, "direction"))
    if cavok is not None:
        d["cavok"] = cavok
    return d


NO_PREVAILING = _vis_fields(None, None, None, False)
NO_MINIMUM = _vis_fields(None, None)


def _fourvis(tok, missing):
    """dddd or ////, with an optional compass direction: (meters, degrees)."""
    v, d = tok[:4], tok[4:]
    if d and d not in COMPASS8:
        return None
    if isnum(v, 4):
        m = 10000.0 if v == "9999" else float(v)
    elif missing and v == "////":
        m = None
    else:
        return None
    return m, (COMPASS8[d] if d else None)


def prevailing(tok, missing=True):
    if tok == "CAVOK":
        return _vis_fields(tok, 10000.0, None, True)
    four = _fourvis(tok, missing)
    if four:
        return _vis_fields(tok, four[0], four[1], False)
    for unit, meters in (("SM", NM), ("KM", 1000.0)):
        if tok.endswith(unit):
            num = tok[:-2]
            if num[:1] in ("M", "P"):
                num = num[1:]
            if " " in num:
                i, f = num.split(" ", 1)
                if not f:
                    return None
            elif "/" in num:
                i, f = num[:-3], num[-3:]
            else:
                i, f = num, ""
            if not i and not f:
                return None
            if i and not isnum(i, 1, 2):
                return None
            val = 0.0
            if f:
                if len(f) != 3 or f[1] != "/" or f[0] not in DIGITS or f[2] not in "123456789":
                    return None
                val = int(f[0]) / int(f[2])
            if i:
                val += int(i)
            return _vis_fields(tok, val * meters, None, False)
    return None


def taf_prevailing(tok):
    return prevailing(tok, missing=False)


def minimum(tok):
    four = _fourvis(tok, True)
    if four:
        return _vis_fields(tok, *four)
    return None


# ---------------------------------------------------------------- runways
SIDES = {"R": "right", "L": "left", "C": "center"}


def runway_name(s, special=True):
    """"07" -> "07", "07L" -> "07 left", "88" -> "all runways"; False if invalid."""
    if isnum(s, 2):
        if special and s == "88":
            return "all runways"
        if special and s == "99":
            return "repeated"
        return s
    if len(s) == 3 and isnum(s[:2], 2) and s[2] in SIDES:
        return s[:2] + " " + SIDES[s[2]]
    return False


LIMITS = {"M": "below of", "P": "above of"}
RVR_TRENDS = {"N": "no change", "U": "increasing", "D": "decreasing"}


def _range_text(lim, m):
    if m is None:
        return ""
    s = "%.1f m" % m
    return "%s %s" % (LIMITS[lim], s) if lim else s


def _rvr_fields(code, name, ll, low, hl, high, trend):
    d = {"code": code, "name": name, "trend": trend,
         "low_range": _range_text(ll, low), "high_range": _range_text(hl, high)}
    d.update(distviews(low, "low_"))
    d.update(distviews(high, "high_"))
    return d


def runway_range(tok):
    if tok[:1] != "R" or "/" not in tok:
        return None
    n, _, rest = tok[1:].partition("/")
    name = runway_name(n)
    if name is False:
        return None
    trend = None
    if rest[-1:] in RVR_TRENDS:
        trend, rest = RVR_TRENDS[rest[-1]], rest[:-1]
    unit = 1.0
    if rest.endswith("FT"):
        unit, rest = FT, rest[:-2]

    def part(s):
        lim = ""
        if s[:1] in LIMITS:
            lim, s = s[0], s[1:]
        if not isnum(s, 2, 3, 4):
            return None
        if unit == 1.0 and s == "9999":
            return lim, 10000.0
        return lim, int(s) * unit
    lo, v, hi = rest.partition("V")
    low = part(lo)
    if low is None:
        return None
    high = ("", None)
    if v:
        high = part(hi)
        if high is None:
            return None
    return _rvr_fields(tok, name, low[0], low[1], high[0], high[1], trend)


# ---------------------------------------------------------------- weather
INTENSITY = {"-": "light", "+": "heavy", "-VC": "nearby light", "+VC": "nearby heavy",
             "VC": "nearby"}
DESCRIPTION = {"MI": "shallow", "PR": "partial", "BC": "patches of", "DR": "low drifting",
               "BL": "blowing", "SH": "showers", "TS": "thunderstorm", "FZ": "freezing"}
PRECIPITATION = {"DZ": "drizzle", "RA": "rain", "SN": "snow", "SG": "snow grains",
                 "IC": "ice crystals", "PL": "ice pellets", "GR": "hail",
                 "GS": "snow pellets", "UP": "unknown precipitation"}
OBSCURATION = {"BR": "mist", "FG": "fog", "FU": "smoke", "VA": "volcanic ash", "DU": "dust",
               "SA": "sand", "HZ": "haze", "PY": "spray"}
OTHER = {"PO": "sand whirls", "SQ": "squalls", "FC": "funnel cloud", "SS": "sandstorm",
         "DS": "dust storm", "NSW": "nil significant weather"}


def weather(tok):
    rest = tok
    inten = desc = prec = obsc = other = None
    for k in ("-VC", "+VC", "VC", "-", "+"):
        if rest.startswith(k):
            inten, rest = INTENSITY[k], rest[len(k):]
            break
    if rest[:2] in DESCRIPTION:
        desc, rest = DESCRIPTION[rest[:2]], rest[2:]
    if rest in PRECIPITATION:
        prec = PRECIPITATION[rest]
    elif rest in OBSCURATION:
        obsc = OBSCURATION[rest]
    elif rest in OTHER:
        other = OTHER[rest]
    elif rest == "/":
        pass
    elif rest:
        return None
    return {"code": tok, "intensity": inten, "description": desc, "precipitation": prec,
            "obscuration": obsc, "other": other}


NO_RECENT = {"code": None, "description": None, "precipitation": None,
             "obscuration": None, "other": None}


def recent_weather(tok):
    if not tok.startswith("RE"):
        return None
    rest = tok[2:]
    d = dict(NO_RECENT, code=tok)
    tables = [("description", DESCRIPTION), ("precipitation", PRECIPITATION),
              ("obscuration", {k: v for k, v in OBSCURATION.items() if k != "FU"}),
              ("other", {k: v for k, v in OTHER.items() if k != "NSW"})]
    for field, table in tables:
        if rest[:2] in table:
            d[field], rest = table[rest[:2]], rest[2:]
    return None if rest else d


# ---------------------------------------------------------------- clouds
COVER = {"SKC": "clear", "CLR": "clear", "NSC": "clear", "NCD": "clear", "FEW": "a few",
         "SCT": "scattered", "BKN": "broken", "OVC": "overcast", "0VC": "overcast",
         "///": "undefined", "VV": "indefinite ceiling"}
OKTAS = {"FEW": "1-2", "SCT": "3-4", "BKN": "5-7", "OVC": "8", "0VC": "8",
         "NSC": "not specified", "NCD": "not specified"}
CLOUDTYPE = {"TCU": "towering cumulus", "CB": "cumulonimbus", "///": None, "": None}


def cloud(tok):
    for cov in COVER:
        if tok.startswith(cov):
            rest = tok[len(cov):]
            feet = None
            # a lone /// after the cover is the height; so is a number
            if isnum(rest[:3], 3):
                feet, rest = int(rest[:3]) * 100.0, rest[3:]
            elif rest[:3] == "///":
                rest = rest[3:]
            if rest not in CLOUDTYPE:
                return None
            m = mul(feet, FT)
            return {"code": tok, "cover": COVER[cov], "oktas": OKTAS.get(cov, "undefined"),
                    "cloud_type": CLOUDTYPE[rest], "height_in_meters": m,
                    "height_in_kilometers": mul(m, 0.001),
                    "height_in_sea_miles": mul(m, 1 / NM), "height_in_feet": feet}
    return None


def ceiling(clouds):
    return any(c["oktas"] in ("5-7", "8") and c["height_in_feet"] is not None
               and c["height_in_feet"] <= 1500 for c in clouds)


# ---------------------------------------------------------------- temperatures
NO_TEMPERATURES = dict(code=None, **tempviews(None, "temperature_"),
                       **tempviews(None, "dewpoint_"))


def _temp(s):
    """(True, value) or (False, None)"""
    sign = 1
    if s not in ("MM",) and s[:1] in ("M", "-"):
        sign, s = -1, s[1:]
    if s in ("//", "XX", "MM"):
        return True, None
    if isnum(s, 2):
        return True, sign * float(s)
    return False, None


def temperatures(tok):
    # the separator is the first / which leaves two well formed halves
    for i, c in enumerate(tok):
        if c == "/":
            ok1, t = _temp(tok[:i])
            ok2, d = _temp(tok[i + 1:])
            if ok1 and ok2:
                return dict(code=tok, **tempviews(t, "temperature_"),
                            **tempviews(d, "dewpoint_"))
    return None


# ---------------------------------------------------------------- pressure
def _press_fields(code, hpa):
    return {"code": code, "in_hPa": hpa, "in_inHg": mul(hpa, 1 / INHG),
            "in_mbar": hpa, "in_bar": mul(hpa, 0.001), "in_atm": mul(hpa, 1 / 1013.25)}


NO_PRESSURE = _press_fields(None, None)


def pressure(tok):
    rest, unit = tok, ""
    for k in ("QNH", "Q", "A"):
        if rest.startswith(k):
            unit, rest = k, rest[len(k):]
            break
    inches = unit == "A"
    if rest.endswith("INS"):
        inches, rest = True, rest[:-3]
    if rest == "////":
        return _press_fields(tok, None)
    if not isnum(rest, 4):
        return None
    v = float(rest)
    if inches or (not unit and v > 2500):
        v = v / 100 * INHG
    return _press_fields(tok, v)


# ---------------------------------------------------------------- supplementary
def windshear(tok):
    """The token of a wind shear group has its words joined by blanks."""
    if tok == "WS ALL RWY":
        return {"code": tok, "all_": True, "name": None}
    if tok.startswith("WS R"):
        n = tok[4:]
        code = tok
        if n.startswith("WY"):
            n = n[2:]
            code = "WS R" + n
        name = runway_name(n, special=False)
        if name is False:
            return None
        return {"code": code, "all_": False, "name": name}
    return None


SEA = ["calm (glassy)", "calm (rippled)", "smooth (wavelets)", "slight", "moderate", "rough",
       "very rough", "high", "very high", "phenomenal"]


def _sea_fields(code, t, state, h):
    d = {"code": code, "state": state, "height_in_meters": h,
         "height_in_centimeters": mul(h, 100), "height_in_decimeters": mul(h, 10),
         "height_in_feet": mul(h, 1 / FT), "height_in_inches": mul(h, 1 / 0.0254)}
    d.update(tempviews(t, "temperature_"))
    return d


NO_SEA = _sea_fields(None, None, None, None)


def sea_state(tok):
    if tok[:1] != "W":
        return None
    t, slash, rest = tok[1:].partition("/")
    sign = 1
    if t[:1] == "M":
        sign, t = -1, t[1:]
    if not slash or not isnum(t, 2):
        return None
    temp = sign * float(t)
    if rest[:1] == "S" and isnum(rest[1:], 1):
        return _sea_fields(tok, temp, SEA[int(rest[1])], None)
    if rest[:1] == "H" and isnum(rest[1:], 3):
        return _sea_fields(tok, temp, None, int(rest[1:]) / 10)
    return None


DEPOSITS = dict(zip("0123456789/", [
    "clear and dry", "damp", "wet and water patches",
    "rime and frost covered (depth normally less than 1 mm)", "dry snow", "wet snow", "slush",
    "ice", "compacted or rolled snow", "frozen ruts or ridges",
    "type of deposit not reported (e.g. due to runway clearance in progress)"]))
CONTAMINATION = {"1": "less than 10% of runway", "2": "11%-25% of runway", "3": "reserved",
                 "4": "reserved", "5": "26%-50% of runway", "6": "reserved", "7": "reserved",
                 "8": "reserved", "9": "51%-100% of runway", "/": "not reported", "0": None}
DEPTH = {"00": "less than 1 mm", "91": "reserved", "92": "10 cm", "93": "15 cm", "94": "20 cm",
         "95": "25 cm", "96": "30 cm", "97": "35 cm", "98": "40 cm or more",
         "99": "runway(s) non-operational due to snow, slush, ice, large drifts or runway "
               "clearance, but depth not reported",
         "//": "depth of deposit operationally not significant or not measurable"}
FRICTION = {"91": "breaking action poor", "92": "breaking action medium/poor",
            "93": "breaking action medium", "94": "breaking action medium/good",
            "95": "breaking action good", "96": "reserved", "97": "reserved", "98": "reserved",
            "99": "breaking action unreliable",
            "//": "breaking conditions not reported and/or runway not operational"}
NO_STATE = {"code": None, "name": None, "deposits": None, "contamination": None,
            "deposits_depth": None, "surface_friction": None, "snoclo": False, "clrd": None}


def runway_state(tok):
    if tok[:1] != "R" or "/" not in tok:
        return None
    n, _, rest = tok[1:].partition("/")
    name = runway_name(n) if n else None
    if name is False:
        return None
    d = dict(NO_STATE, code=tok, name=name)
    if rest == "SNOCLO":
        d["snoclo"] = True
        return d
    if rest == "CLRD//":
        t = "contaminations have ceased to exists"
        d["clrd"] = t + (" on previous runway" if name == "repeated" else
                         " on all runways" if name == "all runways" else
                         " on runway %s" % name)
        return d
    if len(rest) != 6:
        return None
    dep, con, dpt, fri = rest[0], rest[1], rest[2:4], rest[4:]
    if dep not in DEPOSITS or con not in CONTAMINATION:
        return None
    if dpt not in DEPTH:
        if not isnum(dpt, 2):
            return None
        d["deposits_depth"] = "%d mm" % int(dpt)
    else:
        d["deposits_depth"] = DEPTH[dpt]
    if fri not in FRICTION:
        if not isnum(fri, 2):
            return None
        d["surface_friction"] = "0." + fri
    else:
        d["surface_friction"] = FRICTION[fri]
    d["deposits"] = DEPOSITS[dep]
    d["contamination"] = CONTAMINATION[con]
    return d


# ---------------------------------------------------------------- headings
TYPES = {"METAR": "Meteorological Aerodrome Report", "SPECI": "Special Aerodrome Report",
         "TAF": "Terminal Aerodrome Forecast"}
MODIFIERS = {"COR": "Correction", "CORR": "Correction", "AMD": "Amendment",
             "NIL": "Missing report", "AUTO": "Automatic report", "TEST": "Testing report",
             "FINO": "Missing report"}
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def rtype(tok):
    return {"code": tok, "type_": TYPES[tok]} if tok in TYPES else None


def station(tok):
    if len(tok) == 4 and tok[0] in UPPER and all(c in UPPER + DIGITS for c in tok):
        return {"code": tok}
    return None


def modifier(tok):
    return {"code": tok, "description": MODIFIERS[tok]} if tok in MODIFIERS else None


def taf_modifier(tok):
    return modifier(tok) if tok in ("COR", "AMD") else None


NO_MODIFIER = {"code": None, "description": None}


def time_token(tok):
    """(day, hour, minute)"""
    if len(tok) != 7 or tok[6] != "Z" or not isnum(tok[:6], 6):
        return None
    d, h, m = int(tok[:2]), int(tok[2:4]), int(tok[4:6])
    if not (1 <= d <= 31 and h <= 24 and m <= 59):
        return None
    return d, h, m


def time_fields(code, t):
    return {"code": code, "time": t, "year": t.year, "month": t.month, "day": t.day,
            "hour": t.hour, "minute": t.minute}


def report_time(tok, year, month):
    """Raises ValueError for a date which does not exist."""
    d, h, m = time_token(tok)
    return datetime(year, month, d) + timedelta(hours=h, minutes=m)


def trend_period(tok):
    """(prefix, hour, minute)"""
    if tok[:2] not in ("FM", "TL", "AT") or not isnum(tok[2:], 4):
        return None
    h, m = int(tok[2:4]), int(tok[4:])
    if h > 24 or m > 59:
        return None
    return tok[:2], h, m


def valid_token(tok):
    """(from day, from hour, until day, until hour)"""
    if len(tok) != 9 or tok[4] != "/" or not isnum(tok[:4], 4) or not isnum(tok[5:], 4):
        return None
    a, b, c, d = int(tok[:2]), int(tok[2:4]), int(tok[5:7]), int(tok[7:])
    if not (1 <= a <= 31 and b <= 23 and 1 <= c <= 31 and d <= 24):
        return None
    return a, b, c, d


def taf_temperature(tok):
    """(kind X or N, value, day, hour)"""
    if tok[:2] not in ("TX", "TN") or tok[-1:] != "Z":
        return None
    t, slash, when = tok[2:-1].partition("/")
    sign = 1
    if t[:1] == "M":
        sign, t = -1, t[1:]
    if not (slash and isnum(t, 2) and isnum(when, 4)):
        return None
    d, h = int(when[:2]), int(when[2:])
    if not (1 <= d <= 31 and h <= 23):
        return None
    return tok[1], sign * float(t), d, h


TREND_WORDS = {"TEMPO": "temporary", "BECMG": "becoming", "NOSIG": "no significant changes"}
TAF_WORDS = {"TEMPO": "temporary", "BECMG": "becoming",
             "PROB30": "probability 30%", "PROB40": "probability 40%",
             "PROB30 TEMPO": "probability 30% temporary",
             "PROB40 TEMPO": "probability 40% temporary"}


def fm_token(tok):
    if len(tok) != 8 or tok[:2] != "FM" or not isnum(tok[2:], 6):
        return None
    d, h, m = int(tok[2:4]), int(tok[4:6]), int(tok[6:])
    if not (1 <= d <= 31 and h <= 23 and m <= 59):
        return None
    return d, h, m


def taf_indicator(tok):
    return tok if tok in TAF_WORDS or fm_token(tok) else None


def exactly(word):
    return lambda tok: tok if tok == word else None


def once(f):
    return f


# ---------------------------------------------------------------- transducer
METAR_SLOTS = (
    [("type", rtype), ("station", station), ("time", time_token), ("modifier", modifier),
     ("wind", wind), ("wind_variation", wind_variation), ("prevailing_visibility", prevailing),
     ("minimum_visibility", minimum)]
    + [("runway_ranges", runway_range)] * 3
    + [("weathers", weather)] * 3
    + [("clouds", cloud)] * 4
    + [("temperatures", temperatures)]
    + [("pressure", pressure)] * 2
    + [("recent_weather", recent_weather)]
    + [("windshears", windshear)] * 3
    + [("sea_state", sea_state), ("runway_state", runway_state)]
)
TREND_SLOTS = (
    [("indicator", lambda t: t if t in TREND_WORDS else None)]
    + [("period", trend_period)] * 2
    + [("wind", wind), ("prevailing_visibility", prevailing)]
    + [("weathers", weather)] * 3
    + [("clouds", cloud)] * 4
)
TAF_SLOTS = (
    [("type", rtype), ("modifier", taf_modifier), ("station", station), ("time", time_token),
     ("missing", exactly("NIL")), ("valid", valid_token), ("cancelled", exactly("CNL")),
     ("wind", taf_wind), ("prevailing_visibility", taf_prevailing)]
    + [("weathers", weather)] * 3
    + [("clouds", cloud)] * 4
    + [("temperature", taf_temperature)] * 4
)
CHANGE_SLOTS = (
    [("indicator", taf_indicator), ("valid", valid_token), ("wind", taf_wind),
     ("prevailing_visibility", prevailing)]
    + [("weathers", weather)] * 3
    + [("clouds", cloud)] * 4
)
SLOTS = {"metar": METAR_SLOTS, "trend": TREND_SLOTS, "taf": TAF_SLOTS, "change": CHANGE_SLOTS}


def compact(slots):
    """Runs of the same field as (name, recogniser, count)."""
    out = []
    for name, f in slots:
        if out and out[-1][0] == name:
            out[-1][2] += 1
        else:
            out.append([name, f, 1])
    return out


_MEMO = {}


def recognise(kind, i, tok):
    """Memoised: does field i of the section accept the token?"""
    key = (SLOTS[kind][i][1], tok)
    try:
        return _MEMO[key]
    except KeyError:
        r = SLOTS[kind][i][1](tok)
        if len(_MEMO) > 500000:
            _MEMO.clear()
        _MEMO[key] = r
        return r


def step(kind, pos, tok):
    """One transition: (new position, field or None, value)."""
    slots = SLOTS[kind]
    for i in range(pos, len(slots)):
        v = recognise(kind, i, tok)
        if v is not None:
            return i + 1, slots[i][0], v
    return pos, None, None


def run(kind, tokens):
    """[(field or None, token, value)...] and the positions visited."""
    pos, out, path = 0, [], [0]
    for tok in tokens:
        pos, field, v = step(kind, pos, tok)
        out.append((field, tok, v))
        path.append(pos)
    return out, path


# ---------------------------------------------------------------- derived
def flight_rules(vis_m, clouds):
    ceil = None
    for c in clouds:
        if c["cover"] in ("broken", "overcast", "indefinite ceiling"):
            ceil = c["height_in_meters"]
            break
    if vis_m is None and ceil is None:
        return None
    for name, cm, vm in (("VLIFR", 60, 800), ("LIFR", 150, 1600), ("IFR", 300, 5000),
                         ("MVFR", 900, 8000)):
        if (ceil is not None and ceil < cm) or (vis_m is not None and vis_m < vm):
            return name
    return "VFR"


def should_be_cavok(vis_m, weathers, clouds):
    if weathers or not clouds or vis_m is None or vis_m < 10000:
        return False
    for c in clouds:
        if c["cover"] == "indefinite ceiling":
            return False
        if c["cloud_type"] in ("cumulonimbus", "towering cumulus"):
            return False
        if c["height_in_feet"] is not None and c["height_in_feet"] < 5000:
            return False
    return True


def conditions(fields):
    """The part shared by bodies, trends and change periods."""
    vis = fields["prevailing_visibility"]["in_meters"]
    return {
        "flight_rules": flight_rules(vis, fields["clouds"]),
        "should_be_cavok": should_be_cavok(vis, fields["weathers"], fields["clouds"]),
        "ceiling": ceiling(fields["clouds"]),
    }


def roll(day, after):
    """The first midnight on that day of a month, on or after the date given."""
    t = datetime(after.year, after.month, after.day)
    while t.day != day:
        t += timedelta(days=1)
    return t


def valid_period(v, after):
    """Dates of a DDHH/DDHH period which begins on or after the date given."""
    a, b, c, d = v
    frm = roll(a, after)
    until = roll(c, frm)
    return frm + timedelta(hours=b), until + timedelta(hours=d)


def trend_time(hour, minute, init):
    """A time of day inside the two hours which follow the report."""
    for k in range(3):
        t = init + timedelta(hours=k)
        if t.hour == hour % 24:
            return t.replace(minute=minute)
    return None
