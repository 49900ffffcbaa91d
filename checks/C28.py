"""C28 object-centric logs: every small log x every OCEL 1.0 / 2.0 format, written and read back."""
import itertools, math, os, shutil, tempfile, warnings, datetime as dtm
from mc.harness import Violation
import numpy as np, pandas as pd
import pm4py
from pm4py.objects.ocel.obj import OCEL

ID, TITLE = "C28", "Object-centric logs round-trip through every format"
BOUNDS = {"quick": "all logs of <=3 events over 3 objects of 2 types with every non-empty object set per event (three distinct sets: <=5 relations), activity and time pattern; every relation of 2 events to 2 objects with no/one/two qualifiers, ; all sets of <=2 object links among 3 objects; all attribute histories of <=2 changes (3 for one attribute) of 2 objects with and without initial values; 35 attribute values singly and in pairs per column; 28 names for every kind of name and (SQLite 2.0) all pairs of activities/types; 10 time stamps in pairs in 4 zones; 7 formats",
          "thorough": "4 events, every typing of objects, 3 links, all histories of 3 changes, all pairs of values, names and times in all formats"}
ASSUMPTIONS = ["every object takes part in an event and every event has an object (the readers leave the others out)", "XML carries integers and booleans as their text, JSON, SQLite and CSV carry dates as text, CSV all values as text",
               "CSV and the OCEL 1.0 formats carry no qualifiers, links and changes (the SQLite dump carries qualifiers, the JSON one everything when the log needs it)", "an empty qualifier is no qualifier"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")
UTC = dtm.timezone.utc
EID, ACT, TS, OID, TYP, Q, FLD = "ocel:eid", "ocel:activity", "ocel:timestamp", "ocel:oid", "ocel:type", "ocel:qualifier", "ocel:field"
OLD, NEW = ["csv", "json", "xml", "sqlite"], ["json2", "xml2", "sqlite2"]
FULL = NEW + ["json", "sqlite"]
CARRIES = {"csv": set(), "json": {"q", "o2o", "chg"}, "xml": set(), "sqlite": {"q"}, "json2": {"q", "o2o", "chg"}, "xml2": {"q", "o2o", "chg"}, "sqlite2": {"q", "o2o", "chg"}}

VAL = {"s%d" % i: s for i, s in enumerate(["a", "b", "a b", " a ", "&<>\"'", "é日😀", "x,y", "x;y\nz", "['o1']", "[]", "None", "null", "nan", "true", "1", "007", "1.5", "2020-01-01", "ocel:x", "\\n", "%s"])}
VAL.update({"i1": 1, "i-7": -7, "ib": 2 ** 40, "f.5": 0.5, "f2": 2.0, "fb": 1.5e300, "fs": 1e-7, "f3": 1 / 3, "T": True, "F": False, "d0": pd.Timestamp("2020-03-01T12:00:00Z"), "dms": pd.Timestamp("2020-03-01T12:00:00.250Z"), "doff": pd.Timestamp("2020-03-01T12:00:00+02:00"), "dus": pd.Timestamp("2020-03-01T12:00:00.000001Z")})
LOOKS = {"s%d" % i for i in (10, 11, 12, 13, 14, 15, 16)}      # text that CSV readers take for something else


def val(k):
    return VAL.get(k, k)


def tm(x):
    return pd.Timestamp("2020-01-01T00:00:00Z") + pd.Timedelta(hours=x) if isinstance(x, (int, float)) else pd.Timestamp(x)


def mk(s):
    """the log of a specification: ev [id, activity, time, attributes], ob [id, type, attributes], rel [event, object, qualifier], o2o [object, object, qualifier], chg [object, time, field, value]"""
    act = {e[0]: e for e in s["ev"]}
    typ = {o[0]: o[1] for o in s["ob"]}
    ev = pd.DataFrame([{EID: e, ACT: a, TS: tm(t), **{k: val(v) for k, v in at.items()}} for e, a, t, at in s["ev"]])
    ob = pd.DataFrame([{OID: o, TYP: t, **{k: val(v) for k, v in at.items()}} for o, t, at in s["ob"]])
    rel = pd.DataFrame([{EID: e, ACT: act[e][1], TS: tm(act[e][2]), OID: o, TYP: typ[o], **({Q: q} if s.get("q", True) else {})} for e, o, q in s["rel"]])
    kw = {}
    if s.get("o2o"):
        kw["o2o"] = pd.DataFrame([{OID: a, OID + "_2": b, Q: q} for a, b, q in s["o2o"]])
    if s.get("chg"):
        kw["object_changes"] = pd.DataFrame([{OID: o, TYP: typ[o], TS: tm(t), FLD: f, f: val(v)} for o, t, f, v in s["chg"]])
    return OCEL(events=ev, objects=ob, relations=rel, **kw)


def miss(v):
    return v is None or v is pd.NaT or (isinstance(v, float) and math.isnan(v)) or v is pd.NA


def instant(v):
    t = pd.Timestamp(v)
    t = t.tz_localize("UTC") if t.tzinfo is None else t.tz_convert("UTC")
    return t.floor("us").isoformat()


def canon(v):
    if isinstance(v, (bool, np.bool_)):
        return ["bool", bool(v)]
    if isinstance(v, (int, float, np.number)):
        return ["num", float(v)]
    if isinstance(v, dtm.datetime):
        return ["date", instant(v)]
    return ["str", str(v)]


def attrs(r):
    return {k: canon(v) for k, v in r.items() if not str(k).startswith("ocel:") and not miss(v)}


def qual(v):
    return None if miss(v) or v == "" else str(v)


def facts(o):
    E, O, R = o.events.to_dict("records"), o.objects.to_dict("records"), o.relations.to_dict("records")
    return {"events": {str(e[EID]): [str(e[ACT]), instant(e[TS]), attrs(e)] for e in E}, "order": [str(e[EID]) for e in E], "objects": {str(x[OID]): [str(x[TYP]), attrs(x)] for x in O},
            "sizes": [len(E), len(O)], "relations": sorted([str(r[EID]), str(r[OID]), str(r[ACT]), str(r[TYP]), instant(r[TS]), qual(r.get(Q)) or ""] for r in R),
            "links": sorted([str(r[OID]), str(r[OID + "_2"]), qual(r.get(Q)) or ""] for r in o.o2o.to_dict("records")),
            "changes": sorted(([str(r[OID]), str(r[TYP]), instant(r[TS]), str(r[FLD]), canon(r[r[FLD]])] for r in o.object_changes.to_dict("records")), key=str)}


def veq(a, b, fmt):
    """b is what the format brings back of the value a"""
    if a == b:
        return True
    if b[0] == "str" and a[0] == "date" and fmt != "xml2" and fmt != "xml":
        try:
            return instant(b[1]) == a[1]
        except Exception:
            return False
    if fmt in ("xml", "xml2"):
        if b[0] == "str" and a[0] == "num" and a[1] == int(a[1]):
            return b[1] == str(int(a[1])) or b[1] == str(a[1])
        if b[0] == "str" and a[0] == "bool":
            return b[1].lower() == str(a[1]).lower()
    if fmt in ("sqlite", "sqlite2") and a[0] == "bool":
        return b == ["num", float(a[1])]
    if a[0] in ("bool", "num") and b[0] in ("bool", "num"):
        return float(a[1]) == float(b[1]) or (fmt == "csv" and math.isclose(a[1], b[1], rel_tol=1e-12))
    if a[0] == "num" and b[0] == "str" and fmt == "csv":
        return float(b[1]) == a[1]
    if a[0] == "bool" and b[0] == "str" and fmt == "csv":
        return b[1] == str(a[1])
    return False


def aeq(a, b, fmt):
    return set(a) == set(b) and all(veq(a[k], b[k], fmt) for k in a)


def trip(o, fmt):
    """write and read back (in memory: SQLite waits for a disk)"""
    d = tempfile.mkdtemp(prefix="mc_C28_", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        p = os.path.join(d, {"csv": "t.csv", "json": "t.jsonocel", "xml": "t.xmlocel", "sqlite": "t.sqlite", "json2": "t.json", "xml2": "t.xml", "sqlite2": "t.sqlite"}[fmt])
        if fmt == "csv":
            pm4py.write_ocel(o, p, objects_path=os.path.join(d, "o.csv"))
            return pm4py.read_ocel(p, objects_path=os.path.join(d, "o.csv"))
        if fmt in OLD:
            pm4py.write_ocel(o, p)
            return pm4py.read_ocel(p)
        pm4py.write_ocel2(o, p)
        return pm4py.read_ocel2(p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(ctx, s, fmt, carries=None, order=True, values=True):
    ctx.step()
    o = mk(s)
    want = facts(o)
    try:
        got = facts(trip(o, fmt))
    except Exception as e:
        ctx.note("%s: writing and reading back raises" % fmt, spec=s, error="%s: %s" % (type(e).__name__, str(e)[:200]))
        return
    C = CARRIES[fmt] if carries is None else carries
    if fmt == "json" and not o.is_ocel20():
        C = set()
    bad = []
    if want["sizes"] != got["sizes"] or set(want["events"]) != set(got["events"]) or any(want["events"][e][:2] != got["events"][e][:2] for e in want["events"]):
        bad.append("events")
    elif any(not aeq(want["events"][e][2], got["events"][e][2], fmt) for e in want["events"]):
        bad.append("event attributes")
    if set(want["objects"]) != set(got["objects"]) or any(want["objects"][x][0] != got["objects"][x][0] for x in want["objects"]):
        bad.append("objects")
    elif any(not aeq(want["objects"][x][1], got["objects"][x][1], fmt) for x in want["objects"]):
        bad.append("object attributes")
    if order and [e for e in got["order"]] != want["order"]:
        bad.append("order")
    cut = (lambda r: r) if "q" in C else (lambda r: r[:5])
    dedup = (lambda l: sorted(set(map(tuple, l)))) if "q" not in C else (lambda l: sorted(map(tuple, l)))
    if dedup(map(cut, want["relations"])) != dedup(map(cut, got["relations"])):
        bad.append("relations")
    if "o2o" in C and want["links"] != got["links"]:
        bad.append("links")
    if "chg" in C and not (len(want["changes"]) == len(got["changes"]) and matched(want["changes"], got["changes"], fmt)):
        bad.append("changes")
    for b in bad:
        k = {"event attributes": "events", "object attributes": "objects"}.get(b, b)
        ctx.note("%s: %s" % (fmt, b), spec=s, want=want[k], got=got[k])
    if facts(o) != want:
        ctx.note("%s: the log is changed by writing it" % fmt, spec=s, before=want, after=facts(o))


def matched(a, b, fmt):
    b = list(b)
    for x in a:
        h = next((y for y in b if y[:4] == x[:4] and veq(x[4], y[4], fmt)), None)
        if h is None:
            return False
        b.remove(h)
    return True


# ------------------------------------------------------------------ structure
def sgen(tier):
    subs = [s for n in (1, 2, 3) for s in itertools.combinations(range(3), n)]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for S in itertools.product(subs, repeat=n):
            if n == 4 and len(set(S)) > 2:
                continue
            used = sorted(set().union(*S))
            if used != list(range(len(used))):
                continue                                    # objects in order of first use, up to renaming
            yield [[list(s) for s in S]]


def srun(case, ctx):
    S, = case
    n = len(S)
    used = sorted(set().union(*S))
    k = hash_(S) % 4
    T = [t for t in itertools.product("XY", repeat=len(used)) if t[0] == "X"]
    for types in T if ctx.tier != "quick" else [T[(hash_(S) // 4) % len(T)]]:
        acts = ["abc"[i if k & 1 else i % 2] for i in range(n)]
        times = [[0, 1, 2, 3][:n], [0] * n][k >> 1]
        s = {"ev": [["e%d" % i, acts[i], times[i], {}] for i in range(n)], "ob": [["o%d" % j, types[n_], {}] for n_, j in enumerate(used)], "rel": [["e%d" % i, "o%d" % j, None] for i in range(n) for j in S[i]]}
        ctx.state([S, types])
        for fmt in OLD + NEW:
            one(ctx, s, fmt, order=fmt != "sqlite2" or k < 2)
    ctx.trace()
    ctx.outcome("structure")


def hash_(x):
    return sum((i + 1) * (1 + len(s)) for i, s in enumerate(x))


# ------------------------------------------------------------------ qualifiers, links
def qgen(tier):
    for R in itertools.product([None, [None], ["q"], ["q", "r"]] + ([["r"]] if tier != "quick" else []), repeat=4):
        if all(R[2 * i] or R[2 * i + 1] for i in range(2)) and all(R[i] or R[2 + i] for i in range(2)):
            yield list(R)


def qrun(case, ctx):
    s = {"ev": [["e0", "a", 0, {}], ["e1", "b", 1, {}]], "ob": [["o0", "X", {}], ["o1", "Y", {}]], "rel": [["e%d" % (i // 2), "o%d" % (i % 2), q] for i in range(4) for q in case[i] or []]}
    ctx.state(case)
    for fmt in NEW + ["json"] if ctx.tier == "quick" else FULL:
        one(ctx, s, fmt)
    if case.count(None) > 1 and all(r is None or len(r) == 1 for r in case):
        for fmt in ("csv", "xml", "sqlite"):
            one(ctx, s, fmt)
    ctx.trace()
    ctx.outcome("qualifiers")


BASE = {"ev": [["e0", "a", 0, {}], ["e1", "b", 1, {}]], "ob": [["o0", "X", {}], ["o1", "X", {}], ["o2", "Y", {}]], "rel": [["e0", "o0", "q"], ["e0", "o1", None], ["e1", "o2", None], ["e1", "o0", "r"]]}


def lgen(tier):
    P = list(itertools.product(range(3), repeat=2))
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for L in itertools.combinations(P, n):
            for qs in itertools.product(["q", "r"] if n < 3 and tier != "quick" else ["q"], repeat=n):
                yield [[["o%d" % a, "o%d" % b, q] for (a, b), q in zip(L, qs)]]
    yield [[["o0", "o1", "q"], ["o0", "o1", "r"]]]
    yield [[["o0", "o1", None], ["o0", "o2", "r"]]]
    yield [[["o0", "o1", ""], ["o2", "o1", "r"]]]


def lrun(case, ctx):
    ctx.state(case)
    for fmt in NEW + ["json"]:
        one(ctx, dict(BASE, o2o=case[0]), fmt)
    ctx.trace()
    ctx.outcome("links")


# ------------------------------------------------------------------ changes
def cgen(tier):
    C = [[o, t, f, v] for o in ("o0", "o1") for t in (1, 2) for f in ("p", "q") for v in ("s0", "s1")]
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for ch in itertools.combinations(C, n):
            if len({tuple(c[:3]) for c in ch}) < n:
                continue                                    # one value per object, time and attribute
            if n == 2 and tier == "quick" and (ch[0][2] == ch[1][2] == "q" or ch[0][0] == ch[1][0] == "o1" or ch[0][3] == "s1"):
                continue
            for init in ([[], []], [["p"], ["p", "q"]], [["r"], []]) if n == 2 and tier == "quick" else ([[], []], [["p"], []], [["p"], ["p", "q"]], [["p", "q"], ["p", "q"]], [["r"], []]):
                yield [[list(c) for c in ch], init, 0]
    for n in (2, 3):
        for t in itertools.product((1, 2, 3), repeat=n):
            for o in itertools.product(("o0", "o1"), repeat=n):
                if len(set(zip(t, o))) == n:
                    yield [[[o[i], t[i], "p", "f%s" % x] for i, x in zip(range(n), (".5", "2", "3"))], [["p"], ["p"]], 1]
                    yield [[[o[i], t[i], "p", "s%s" % x] for i, x in zip(range(n), "010")], [["p"], []], 0]


def crun(case, ctx):
    ch, init, num = case
    ob = [[o, t, {a: ("f2" if num else "s5") for a in (init[i] if i < 2 else [])}] for i, (o, t, _) in enumerate(BASE["ob"])]
    ctx.state([ch, init])
    for fmt in NEW + ["json"]:
        one(ctx, dict(BASE, ob=ob, chg=ch), fmt)
    ctx.trace()
    ctx.outcome("changes")


# ------------------------------------------------------------------ values
def vgen(tier):
    for place in ("event", "object", "change"):
        for a in VAL:
            yield [place, a, None, 0]
            for b in VAL:
                if kind(a) == kind(b) and (kind(a) != "str" or tier != "quick" or list(VAL).index(b) - list(VAL).index(a) == 1):
                    yield [place, a, b, 0]
                    if tier != "quick" or kind(a) != "str":
                        yield [place, a, b, 1]
        for a, b in itertools.combinations(["s0", "i1", "f.5", "T", "d0"], 2):
            yield [place, a, b, 2]                            # two attributes of different kinds


def kind(k):
    return type(VAL[k]).__name__ if not isinstance(VAL[k], dtm.datetime) else ("date", str(VAL[k].tzinfo), VAL[k].microsecond > 0)


def vrun(case, ctx):
    place, a, b, same = case
    A, B = {"k": a}, {} if b is None else ({"k": b} if same < 2 else {"l": b})
    types = ["X", "X" if same else "Y"]
    acts = ["a", "a" if same else "b"]
    ev, ob, s = [["e0", acts[0], 0, {}], ["e1", acts[1], 1, {}], ["e2", "c", 2, {}]], [["o0", types[0], {}], ["o1", types[1], {}]], {}
    if place == "event":
        ev[0][3], ev[1][3] = A, B
    elif place == "object":
        ob[0][2], ob[1][2] = A, B
    else:
        s["chg"] = [["o0", 1, x, y] for x, y in A.items()] + [["o1", 2, x, y] for x, y in B.items()]
        ob[0][2], ob[1][2] = dict(A), dict(B)
    s.update(ev=ev, ob=ob, rel=[["e0", "o0", None], ["e1", "o1", None], ["e2", "o0", None]])
    ctx.state(case)
    for fmt in (OLD if place != "change" else ["json"]) + NEW:
        if fmt == "csv" and ({a, b} & LOOKS or (kind(a) == "str" and b is not None and same < 2 and kind(b) != kind(a))):
            continue
        one(ctx, s, fmt)
    ctx.trace()
    ctx.outcome("values at " + place)


# ------------------------------------------------------------------ names
NAMES = ["a", "A", "a b", "aB", "AB", "a  b", "a-b", "a_b", "ab", "é", "日本", "日", "1", "1a", "object", "Object", "map type", "map_type", "it's", "&<>\"", "select", "a.b", "x" * 120, "x" * 121, " a", "[a]", "a\"b", "o,1"]


def ngen(tier):
    for place in ("activity", "type"):
        for a in NAMES:
            yield [place, a, None]
        for a, b in itertools.combinations(NAMES, 2):
            yield [place, a, b]
    for place in ("event id", "object id", "attribute", "qualifier", "link qualifier"):
        for a in NAMES:
            yield [place, a, None]


def nrun(case, ctx):
    place, a, b = case
    b = b or "zz"
    s = {"ev": [["e0", "A0", 0, {"k": "s0"}], ["e1", "A1", 1, {"k": "s1"}]], "ob": [["o0", "X", {"p": "s0"}], ["o1", "Y", {"p": "s1"}]], "rel": [["e0", "o0", "q"], ["e1", "o1", "q"], ["e1", "o0", "r"]], "o2o": [["o0", "o1", "q"]], "chg": [["o0", 1, "p", "s1"], ["o1", 2, "p", "s2"]]}
    if place == "activity":
        s["ev"][0][1], s["ev"][1][1] = a, b
    elif place == "type":
        s["ob"][0][1], s["ob"][1][1] = a, b
    elif place == "event id":
        s["ev"][0][0] = s["rel"][0][0] = a
    elif place == "object id":
        s["ob"][0][0] = s["rel"][0][1] = s["rel"][2][1] = s["o2o"][0][0] = s["chg"][0][0] = a
    elif place == "attribute":
        s["ev"][0][3], s["ob"][0][2], s["chg"][0][2] = {a: "s0"}, {a: "s0"}, a
        s["ev"][1][3], s["ob"][1][2], s["chg"][1][2] = {}, {a: "s1"}, a
    elif place == "qualifier":
        s["rel"][0][2] = a
    else:
        s["o2o"][0][2] = a
    ctx.state(case)
    for fmt in OLD + NEW if case[2] is None or ctx.tier != "quick" else ["sqlite2"]:
        if fmt == "csv" and place in ("event id", "activity", "object id") and a in ("1",):
            continue
        one(ctx, s, fmt)
    ctx.trace()
    ctx.outcome(place)


# ------------------------------------------------------------------ time stamps
TIMES = ["2020-01-01T00:00:00Z", "2020-01-01T00:00:00.001Z", "2020-01-01T00:00:00.999999Z", "2020-01-01T00:00:01Z", "1999-12-31T23:59:59.5Z", "2021-03-28T01:30:00Z", "2021-10-31T00:30:00Z", "2020-02-29T12:00:00Z", "1970-01-01T00:00:00Z", "1969-12-31T00:00:00Z"]
ZONES = ["UTC", "+02:00", "-05:30", "naive"]


def tgen(tier):
    for z in ZONES:
        for a in range(len(TIMES)):
            for b in range(len(TIMES)):
                if tier != "quick" or z == "UTC" or abs(a - b) == 1:
                    yield [a, b, z]


def trun(case, ctx):
    a, b, z = case
    def at(i):
        t = pd.Timestamp(TIMES[i])
        return (t.tz_localize(None) if z == "naive" else t.tz_convert(z if z == "UTC" else dtm.timezone((1 if z[0] == "+" else -1) * dtm.timedelta(hours=int(z[1:3]), minutes=int(z[4:]))))).isoformat()
    s = {"ev": [["e0", "a", at(a), {}], ["e1", "b", at(b), {}]], "ob": [["o0", "X", {"p": "s1"}]], "rel": [["e0", "o0", None], ["e1", "o0", None]]}
    ctx.state(case)
    for fmt in OLD + NEW:
        one(ctx, s, fmt, order=pd.Timestamp(TIMES[a]) <= pd.Timestamp(TIMES[b]) and fmt != "sqlite2")
    if pd.Timestamp(TIMES[b]) > pd.Timestamp("1971-01-01T00:00:00Z"):
        for fmt in NEW + ["json"]:
            one(ctx, dict(s, chg=[["o0", at(b), "p", "s0"]]), fmt, order=False)
    ctx.trace()
    ctx.outcome("time stamps")


def families(tier):
    return [("structure", sgen, srun), ("qualifiers", qgen, qrun), ("links", lgen, lrun), ("changes", cgen, crun), ("values", vgen, vrun), ("names", ngen, nrun), ("times", tgen, trun)]
