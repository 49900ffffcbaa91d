"""C29 object-centric filters: every small log x every filter x every argument, and chains of two filters."""
import itertools, warnings
from mc import choices
choices.install()
from mc.harness import Violation
import pandas as pd
import pm4py
from checks import C28
from checks.C28 import EID, OID, Q, TYP, TS, ACT, facts as facts28, tm
from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
from pm4py.objects.ocel.util import sampling

ID, TITLE = "C29", "Object-centric filters keep exactly the matching, consistent sub-log"
BOUNDS = {"quick": "all logs of <=3 events over <=3 objects of two types with every object set per event (up to renaming of objects, also events without objects and objects without events), decorated with attributes, qualifiers, object links, event links and attribute changes; every filter with every subset of activities, types, values, events and objects (and an unknown one), all time ranges, counts 0..2 per type, expansion levels 1..3, component lengths; all ordered pairs of 10 filters",
          "thorough": "four events over four objects, all typings, all pairs and triples of filters"}
ASSUMPTIONS = ["the tables are in time order (as all readers leave them)", "filters on events drop the objects left without events, filters on objects drop the events left without objects, the filter on allowed activities drops both"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")


def spec(S, k):
    """S: object sets of the events; k selects typing, activities and times"""
    n, used = len(S), max([max(s, default=-1) for s in S], default=-1) + 1
    types = [("X" * used), ("XY" * used)[:used], ("XYY" * used)[:used], ("XXY" * used)[:used]][k % 4]
    acts = [["a", "b", "a", "b"], ["a", "b", "c", "a"], ["a", "a", "b", "b"]][k % 3][:n]
    times = [[0, 1, 2, 3], [0, 0, 1, 1], [0, 1, 1, 2]][(k // 2) % 3][:n]
    if k % 5 == 4:
        used += 1
        types += "Y"                                              # an object without events
    s = {"ev": [["e%d" % i, acts[i], times[i], {} if i == 1 else {"k": "s%d" % (i % 2)}] for i in range(n)],
         "ob": [["o%d" % j, types[j], {} if j == 1 else {"p": "s%d" % (j % 2)}] for j in range(used)],
         "rel": [["e%d" % i, "o%d" % j, ["q", None, "r"][(i + j) % 3]] for i in range(n) for j in S[i]],
         "o2o": [["o%d" % a, "o%d" % b, "q"] for a, b in itertools.permutations(range(used), 2) if (a + b + k) % 2],
         "chg": [["o%d" % j, 1, "p", "s2"] for j in range(used)] if k % 2 else [],
         "e2e": [["e%d" % a, "e%d" % b, "q"] for a, b in itertools.combinations(range(n), 2)]}
    return s


def mk(s):
    o = C28.mk(s)
    if s["e2e"]:
        o.e2e = pd.DataFrame([{EID: a, EID + "_2": b, Q: q} for a, b, q in s["e2e"]])
    return o


def facts(o):
    f = facts28(o)
    f["e2e"] = sorted([str(r[EID]), str(r[EID + "_2"]), str(r[Q])] for r in o.e2e.to_dict("records"))
    f["column names"] = sorted(map(str, o.relations.columns))
    return f


def sub(s, E, O, R):
    """the specification restricted to events E, objects O and relations R"""
    R = [r for r in R if r[0] in E and r[1] in O]
    return {"ev": [e for e in s["ev"] if e[0] in E], "ob": [o for o in s["ob"] if o[0] in O], "rel": R, "o2o": [l for l in s["o2o"] if l[0] in O and l[1] in O],
            "chg": [c for c in s["chg"] if c[0] in O], "e2e": [l for l in s["e2e"] if l[0] in E and l[1] in E]}


def by_event(s, keep):
    E = {e[0] for e in s["ev"] if keep(e)}
    R = [r for r in s["rel"] if r[0] in E]
    return sub(s, E, {r[1] for r in R}, R)


def by_object(s, keep):
    O = {o[0] for o in s["ob"] if keep(o)}
    R = [r for r in s["rel"] if r[1] in O]
    return sub(s, {r[0] for r in R}, O, R)


def by_rel(s, keep):
    R = [r for r in s["rel"] if keep(r)]
    return sub(s, {r[0] for r in R}, {r[1] for r in R}, R)


def near(s, ids, level):
    ids = set(ids)
    for _ in range(level - 1):
        ids |= {r2[1] for r1 in s["rel"] if r1[1] in ids for r2 in s["rel"] if r2[0] == r1[0]}
    return ids


def comps(s):
    C = {o[0]: {o[0]} for o in s["ob"]}
    for e in s["ev"]:
        os_ = [r[1] for r in s["rel"] if r[0] == e[0]]
        u = set().union(*(C[o] for o in os_)) if os_ else set()
        for o in u:
            C[o] = u
    return C


def subsets(xs, lo=0):
    return [list(c) for n in range(lo, len(xs) + 1) for c in itertools.combinations(xs, n)]


def filters(s, tier):
    """(name, call on the log, expected specification)"""
    A, T, E, O = [sorted({e[1] for e in s["ev"]}), sorted({o[1] for o in s["ob"]}), [e[0] for e in s["ev"]], [o[0] for o in s["ob"]]]
    act = {e[0]: e[1] for e in s["ev"]}
    typ = {o[0]: o[1] for o in s["ob"]}
    F = []
    add = lambda name, call, want: F.append((name, call, want))
    for pos in (True, False):
        for V in subsets(A + ["zz"]):
            add("event attribute activity %s %s" % (V, pos), lambda o, V=V, pos=pos: pm4py.filter_ocel_event_attribute(o, "ocel:activity", V, positive=pos), lambda V=V, pos=pos: by_event(s, lambda e: (e[1] in V) == pos))
        for V in (["a"], ["b"], ["a", "b"]):
            V2 = ["s%d" % "ab".index(v) for v in V]
            if any(e[3] for e in s["ev"]):
                add("event attribute k %s %s" % (V, pos), lambda o, V=V, pos=pos: pm4py.filter_ocel_event_attribute(o, "k", V, positive=pos), lambda V2=V2, pos=pos: by_event(s, lambda e: (e[3].get("k") in V2) == pos))
            if any(o[2] for o in s["ob"]):
                add("object attribute p %s %s" % (V, pos), lambda o, V=V, pos=pos: pm4py.filter_ocel_object_attribute(o, "p", V, positive=pos), lambda V2=V2, pos=pos: by_object(s, lambda o: (o[2].get("p") in V2) == pos))
        for V in subsets(T + ["zz"]):
            add("object attribute type %s %s" % (V, pos), lambda o, V=V, pos=pos: pm4py.filter_ocel_object_attribute(o, "ocel:type", V, positive=pos), lambda V=V, pos=pos: by_object(s, lambda o: (o[1] in V) == pos))
            for level in (1, 2, 3):
                def want(V=V, pos=pos, level=level):
                    ids = near(s, [o for o in O if typ[o] in V], level)
                    return by_object(s, lambda o: (o[0] in ids) == pos)
                add("object types %s %s level %d" % (V, pos, level), lambda o, V=V, pos=pos, level=level: pm4py.filter_ocel_object_types(o, V, positive=pos, level=level), want)
        for V in subsets(O, 1) + [["zz"], ["zz"] + O[:1]]:
            for level in (1, 2, 3):
                def want(V=V, pos=pos, level=level):
                    ids = near(s, V, level)
                    return by_object(s, lambda o: (o[0] in ids) == pos)
                if level == 1 or len(V) < 3:
                    add("objects %s %s level %d" % (V, pos, level), lambda o, V=V, pos=pos, level=level: pm4py.filter_ocel_objects(o, V, positive=pos, level=level), want)
        for V in subsets(E) + [["zz"]]:
            add("events %s %s" % (V, pos), lambda o, V=V, pos=pos: pm4py.filter_ocel_events(o, V, positive=pos), lambda V=V, pos=pos: by_event(s, lambda e: (e[0] in V) == pos))
        for t in T + ["zz"]:
            def want(t=t, pos=pos):
                C = comps(s)
                return by_object(s, lambda o: any(typ[x] == t for x in C[o[0]]) == pos)
            add("component with type %s %s" % (t, pos), lambda o, t=t, pos=pos: pm4py.filter_ocel_cc_otype(o, t, positive=pos), want)
    for c in itertools.product(subsets(A), repeat=len(T)):
        D = dict(zip(T, c))
        add("allowed activities %s" % D, lambda o, D=D: pm4py.filter_ocel_object_types_allowed_activities(o, D), lambda D=D: by_rel(s, lambda r: act[r[0]] in D[typ[r[1]]]))
    add("allowed activities of one type", lambda o: pm4py.filter_ocel_object_types_allowed_activities(o, {"X": A}), lambda: by_rel(s, lambda r: typ[r[1]] == "X"))
    for c in itertools.product((None, 0, 1, 2), repeat=2):
        D = {t: v for t, v in zip("XY", c) if v is not None}
        if D:
            add("objects per type %s" % D, lambda o, D=D: pm4py.filter_ocel_object_per_type_count(o, D), lambda D=D: by_event(s, lambda e: all(sum(r[0] == e[0] and typ[r[1]] == t for r in s["rel"]) >= v for t, v in D.items())))
    for t in T:
        def ends(first, t=t):
            ids = set()
            for o in O:
                R = [r[0] for r in s["rel"] if r[1] == o]
                if typ[o] == t and R:
                    ids.add(R[0 if first else -1])
            return by_event(s, lambda e: e[0] in ids)
        add("start events of %s" % t, lambda o, t=t: pm4py.filter_ocel_start_events_per_object_type(o, t), lambda ends=ends: ends(True))
        add("end events of %s" % t, lambda o, t=t: pm4py.filter_ocel_end_events_per_object_type(o, t), lambda ends=ends: ends(False))
    for lo, hi in itertools.combinations_with_replacement((-1, 0, 0.5, 1, 2, 3), 2):
        f = lambda x: (x.strftime("%Y-%m-%d %H:%M:%S") if (lo + hi) % 1 == 0 else x.to_pydatetime())
        add("time range %s %s" % (lo, hi), lambda o, a=f(tm(lo)), b=f(tm(hi)): pm4py.filter_ocel_events_timestamp(o, a, b), lambda lo=lo, hi=hi: by_event(s, lambda e: lo <= e[2] <= hi))
    for x in O:
        add("component of %s" % x, lambda o, x=x: pm4py.filter_ocel_cc_object(o, x), lambda x=x: by_object(s, lambda o: o[0] in comps(s)[x]))
    for lo, hi in itertools.combinations_with_replacement((1, 2, 3), 2):
        add("component length %d %d" % (lo, hi), lambda o, lo=lo, hi=hi: pm4py.filter_ocel_cc_length(o, lo, hi), lambda lo=lo, hi=hi: by_object(s, lambda o: lo <= len(comps(s)[o[0]]) <= hi))
    for a in A + ["zz"]:
        def want(a=a):
            C = comps(s)
            seed = {r[1] for r in s["rel"] if act[r[0]] == a}
            return by_object(s, lambda o: bool(C[o[0]] & seed))
        add("component with activity %s" % a, lambda o, a=a: pm4py.filter_ocel_cc_activity(o, a), want)
    return F


def consistent(o):
    E, O = set(o.events[EID]), set(o.objects[OID])
    return set(o.relations[EID]) <= E and set(o.relations[OID]) <= O and set(o.o2o[OID]) | set(o.o2o[OID + "_2"]) <= O and set(o.object_changes[OID]) <= O and set(o.e2e[EID]) | set(o.e2e[EID + "_2"]) <= E


def gen(tier):
    top, obs = (3, 3) if tier == "quick" else (4, 3)
    subs = [s for n in range(0, obs + 1) for s in itertools.combinations(range(obs), n)]
    for n in range(1, top + 1):
        for S in itertools.product(subs, repeat=n):
            used = sorted(set().union(*S))
            if used != list(range(len(used))) or not used or (n == 4 and sum(map(len, S)) > 5):
                continue
            first = [next(i for i, s in enumerate(S) if o in s) for o in used]
            if first != sorted(first) or sum(not s for s in S) > 1:
                continue                                           # objects numbered by first event
            k = sum((i + 1) * (1 + sum(s)) for i, s in enumerate(S))
            for j in range(1 if tier == "quick" else 3):
                yield [[list(s) for s in S], k + 7 * j]


def same(ctx, name, s, o, call, want):
    ctx.step()
    w = want()
    try:
        r = call(o)
        g = facts(r)
    except Exception as e:
        ctx.note("filter raises: %s" % name.split(" ['")[0].split(" [")[0].split(" {")[0], spec=s, filter=name, error="%s: %s" % (type(e).__name__, str(e)[:200]))
        return None
    wf = facts(mk0(w))
    bad = [k for k in wf if k != "column names" and wf[k] != g[k]]
    if bad or not consistent(r):
        ctx.note("%s: wrong %s" % (name.split(" [")[0].split(" {")[0].rstrip("0123456789. -"), ", ".join(bad) or "references"), spec=s, filter=name, got={k: g[k] for k in bad}, want={k: wf[k] for k in bad})
        return None
    return r


def mk0(w):
    """like mk, also for specifications without events, objects or relations"""
    from pm4py.objects.ocel.obj import OCEL
    if w["ev"] and w["ob"] and w["rel"]:
        return mk(w)
    full = {"ev": w["ev"] or [["e", "a", 0, {}]], "ob": w["ob"] or [["o", "X", {}]], "rel": [], "chg": w["chg"], "o2o": w["o2o"], "e2e": w["e2e"]}
    full["rel"] = [[full["ev"][0][0], full["ob"][0][0], None]]
    o = mk(full)
    if not w["ev"]:
        o.events = o.events.iloc[:0]
    if not w["ob"]:
        o.objects = o.objects.iloc[:0]
    if not w["rel"]:
        o.relations = o.relations.iloc[:0]
    return o


def run(case, ctx):
    S, k = case
    s = spec(S, k)
    o = mk(s)
    before = facts(o)
    ctx.state(s)
    for name, call, want in filters(s, ctx.tier):
        same(ctx, name, s, o, call, want)
    if facts(o) != before:
        ctx.note("a filter changes the log it is given", spec=s)
    ctx.trace()
    ctx.outcome("filters")


# ------------------------------------------------------------------ chains of filters
def cgen(tier):
    for S, k in gen("quick"):
        if len(S) == 3 and all(S) and (k % 3 == 0 or tier != "quick"):
            yield [S, k]


PICK = ("event attribute activity ['a'] True", "object types ['X'] True level 1", "object types ['X'] False level 1", "objects ['o0'] True level 2", "events ['e1'] False", "events ['e0'] True", "component with type Y True", "component length 1 1", "objects per type {'X': 1}", "time range 0 1", "end events of X", "objects ['o0'] False level 1")


def crun(case, ctx):
    S, k = case
    s = spec(S, k)
    o = mk(s)
    ctx.state(s)
    for name, call, want in filters(s, ctx.tier):
        if name not in PICK:
            continue
        s1, o1 = want(), call(o)
        if not s1["ev"] or not s1["ob"] or not s1["rel"]:
            continue
        for name2, call2, want2 in filters(s1, ctx.tier):
            if name2 in PICK:
                same(ctx, name2, [s, name], o1, call2, want2)
    ctx.trace()
    ctx.outcome("chains")


# ------------------------------------------------------------------ splitting and sampling
def tgen(tier):
    for S, k in gen("quick"):
        if all(S):
            yield [S, k]


def trun(case, ctx):
    S, k = case
    s = spec(S, k)
    o = mk(s)
    before = facts(o)
    ctx.state(s)
    C = comps(s)
    linked = {r[1] for r in s["rel"]}
    parts = {frozenset(c) for c in C.values() if c & linked}
    res = [facts(x) for x in split.apply(o, variant=split.Variants.CONNECTED_COMPONENTS)]
    ctx.step()
    want = [facts(mk0(by_object(s, lambda x, p=p: x[0] in p))) for p in parts]
    key = lambda f: sorted(f["objects"])
    for n, w in zip(["split"], [want]):
        core = lambda f: {x: f[x] for x in ("events", "objects", "relations", "sizes", "order")}
        if sorted(map(core, res), key=key) != sorted(map(core, w), key=key):
            ctx.note("splitting in connected components", spec=s, got=sorted(map(core, res), key=key), want=sorted(map(core, w), key=key))
        elif sorted(res, key=key) != sorted(w, key=key) and any(f[x] != g[x] for f, g in zip(sorted(res, key=key), sorted(w, key=key)) for x in ("links", "changes")):
            ctx.note("splitting in connected components loses links or changes", spec=s)
    for m in (1, 2):
        for r, ch, cut in choices.explore(lambda: sampling.sample_ocel_objects(o, parameters={"num_entities": m}), depth=6, limit=30):
            ctx.step()
            O = set(r.objects[OID])
            if len(O) != min(m, len(s["ob"])) or {k2: v for k2, v in facts(r).items() if k2 != "column names"} != {k2: v for k2, v in facts(mk0(by_object(s, lambda x: x[0] in O))).items() if k2 != "column names"}:
                ctx.note("sample of objects", spec=s, choices=str(ch), got=facts(r))
        for r, ch, cut in choices.explore(lambda: sampling.sample_ocel_events(o, parameters={"num_entities": m}), depth=6, limit=30):
            ctx.step()
            E = set(r.events[EID])
            if len(E) != min(m, len(s["ev"])) or {k2: v for k2, v in facts(r).items() if k2 != "column names"} != {k2: v for k2, v in facts(mk0(by_event(s, lambda x: x[0] in E))).items() if k2 != "column names"}:
                ctx.note("sample of events", spec=s, choices=str(ch), got=facts(r))
        for r, ch, cut in choices.explore(lambda: pm4py.sample_ocel_connected_components(o, m), depth=6, limit=30):
            ctx.step()
            O = set(r.objects[OID])
            g, w = facts(r), facts(mk0(by_object(s, lambda x: x[0] in O)))
            if len([p for p in parts if p <= O]) != min(m, len(parts)) or not all(p <= O or not p & O for p in parts) or any(g[x] != w[x] for x in ("events", "objects", "relations")):
                ctx.note("sample of connected components", spec=s, choices=str(ch), got=g)
            elif [g["events"][e][1] for e in g["order"]] != sorted(v[1] for v in g["events"].values()):
                ctx.note("sample of connected components is not in time order", spec=s, got=g["order"])
            elif any(g[x] != w[x] for x in ("links", "changes")):
                ctx.note("sample of connected components loses links or changes", spec=s, got=g, want=w)
    if facts(o) != before:
        ctx.note("splitting or sampling changes the log", spec=s)
    ctx.trace()
    ctx.outcome("split and sample")


def families(tier):
    return [("filters", gen, run), ("chains", cgen, crun), ("samples", tgen, trun)]
