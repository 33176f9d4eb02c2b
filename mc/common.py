"""Shared by the checks: building, observing, comparing."""
import env
import model
import obs
import ref
from engine import Problem

Y, M = 2022, 10
T_METAR = ("METAR", "PADK", "151230Z")
T_TAF = ("TAF", "PADK", "151130Z", "1512/1612")
CHANGES = (("BECMG", "1513/1515"), ("FM151800",), ("TEMPO", "1520/1524"),
           ("PROB30 TEMPO", "1600/1604"), ("PROB40", "1606/1609"))


def show(d, n=300):
    s = repr(d)
    return s if len(s) <= n else s[:n] + "..."


def need(exp, got, what):
    """Raises a Problem at the first difference."""
    r = obs.diff(exp, got, what)
    if r:
        raise Problem("%s: expected %s, got %s" % (r[0], show(r[1]), show(r[2])), key=None)


def despace(groups):
    return [g.replace("_", " ") for g in groups]


def pick(d, keys):
    return {k: d[k] for k in keys}


def build(kind, text, year=Y, month=M, **kw):
    return (env.Metar if kind == "metar" else env.Taf)(text, year=year, month=month, **kw)


def track(st, kind, tokens, path):
    """Counts the model states (position, group) and transitions of one run."""
    st.transitions += len(tokens)
    for p, tok in zip(path[1:], tokens):
        st.states.add(hash((kind, p, tok)))


def codes(d, fields):
    """The codes of the decoded groups, by field."""
    out = {}
    for f in fields:
        v = d[f]
        out[f] = [g["code"] for g in v] if isinstance(v, list) else v["code"]
    return out


def mutations(tok, alphabet, ops="rid"):
    """Every text one character away from the token."""
    seen = set()
    for i in range(len(tok) + 1):
        if i < len(tok):
            if "d" in ops:
                seen.add(tok[:i] + tok[i + 1:])
            if "r" in ops:
                for c in alphabet:
                    seen.add(tok[:i] + c + tok[i + 1:])
        if "i" in ops:
            for c in alphabet:
                seen.add(tok[:i] + c + tok[i:])
    seen.discard("")
    seen.discard(tok)
    return sorted(seen)


CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/+-"
