"""C30 object-centric summaries, graphs, directly-follows graphs and Petri nets against the relations themselves."""
import itertools, statistics, warnings
from mc.harness import Violation
from mc import ref, gen as G
import pandas as pd
import pm4py
from checks import C29
from checks.C28 import EID, OID, Q, TYP, TS, ACT, tm
from checks.C29 import spec, mk, by_event, by_object, near

ID, TITLE = "C30", "Object-centric discovery and summaries are exact"
BOUNDS = {"quick": "all logs of <=3 events over <=3 objects of two types with every object set per event (up to renaming; also events without objects and objects without events), with single and double relations of an event and an object, four typings, activity and time patterns incl. ties; all pairs of traces of <=2 events on all time patterns for interleavings",
          "thorough": "4 events, all typings; traces of 3 events"}
ASSUMPTIONS = ["the tables are in time order", "lists of a temporal summary are read as sets; events without objects may be left out of it", "the nets of the variant im are fitting (imd makes no such promise)", "which admissible greedy merging of events with a common object is free"]
BUDGET = {"quick": 300, "thorough": 850}
CASE_LIMIT = 60
warnings.simplefilter("ignore")


def sgen(tier):
    for S, k in C29.gen(tier):
        for dup in (0, 1) if k % 3 == 0 or tier != "quick" else (0,):
            yield [S, k, dup]


def make(case):
    S, k, dup = case
    s = spec(S, k)
    if dup:
        s["rel"] = [x for r in s["rel"] for x in ([r] if (int(r[0][1:]) + int(r[1][1:])) % 2 else [r, [r[0], r[1], "z"]])]
    s["e2e"] = []
    return s, C29.mk0(s)



class View:
    """the relations of a specification, straight from its lists"""

    def __init__(V, s):
        V.s = s
        V.ev = [e[0] for e in s["ev"]]
        V.act = {e[0]: e[1] for e in s["ev"]}
        V.t = {e[0]: tm(e[2]) for e in s["ev"]}
        V.typ = {o[0]: o[1] for o in s["ob"]}
        V.obs = list(V.typ)
        V.on = {e: [] for e in V.ev}                                       # objects of an event, once each
        for e, o, q in s["rel"]:
            if o not in V.on[e]:
                V.on[e].append(o)
        V.life = {o: [e for e in V.ev if o in V.on[e]] for o in V.obs}     # events of an object in table order
        V.types = set(V.typ.values())
        V.rtypes = {V.typ[r[1]] for r in s["rel"]}


def guard(ctx, name, f, s):
    ctx.step()
    try:
        return f()
    except Exception as e:
        ctx.note("%s raises %s" % (name, type(e).__name__), spec=s, error=str(e)[:200])
        return None


def same(ctx, name, got, want, s):
    if got is not None and got != want:
        ctx.note(name, spec=s, got=str(got)[:700], want=str(want)[:700])


# ------------------------------------------------------------------ summaries
def summary(case, ctx):
    s, o = make(case)
    V = View(s)
    ctx.state(str(s))
    same(ctx, "object types", guard(ctx, "object types", lambda: sorted(pm4py.ocel_get_object_types(o)), s), sorted(V.types), s)
    names = sorted({k for e in s["ev"] for k in e[3]} | {k for x in s["ob"] for k in x[2]})
    same(ctx, "attribute names", guard(ctx, "attribute names", lambda: list(pm4py.ocel_get_attribute_names(o)), s), names, s)
    same(ctx, "activities of an object type", guard(ctx, "activities of an object type", lambda: {t: set(a) for t, a in pm4py.ocel_object_type_activities(o).items()}, s),
         {t: {V.act[e] for x in V.obs if V.typ[x] == t for e in V.life[x]} for t in V.rtypes}, s)
    same(ctx, "objects of an event per type", guard(ctx, "objects of an event per type", lambda: {e: dict(c) for e, c in pm4py.ocel_objects_ot_count(o).items() if c}, s),
         {e: {t: n for t in V.types for n in [sum(V.typ[x] == t for x in V.on[e])] if n} for e in V.ev if V.on[e]}, s)
    d = guard(ctx, "temporal summary", lambda: pm4py.ocel_temporal_summary(o), s)
    if d is not None:
        got = [(r[TS], set(r[ACT]), set(r[OID])) for r in d.to_dict("records")]
        ts = sorted({V.t[e] for e in V.ev if V.on[e]})
        full = [(t, {V.act[e] for e in V.ev if V.t[e] == t and V.on[e]}, {x for e in V.ev if V.t[e] == t for x in V.on[e]}) for t in ts]
        every = [(t, {V.act[e] for e in V.ev if V.t[e] == t}, {x for e in V.ev if V.t[e] == t for x in V.on[e]}) for t in sorted({V.t[e] for e in V.ev})]
        if got not in (full, every):
            same(ctx, "temporal summary", got, full, s)
    d = guard(ctx, "objects summary", lambda: pm4py.ocel_objects_summary(o), s)
    if d is not None:
        got = {r[OID]: [r["activities_lifecycle"], r["lifecycle_start"], r["lifecycle_end"], r["lifecycle_duration"], set(r["interacting_objects"])] for r in d.to_dict("records") if isinstance(r["activities_lifecycle"], list)}
        want = {x: [[V.act[e] for e in V.life[x]], min(V.t[e] for e in V.life[x]), max(V.t[e] for e in V.life[x]), (max(V.t[e] for e in V.life[x]) - min(V.t[e] for e in V.life[x])).total_seconds(),
                    {y for e in V.life[x] for y in V.on[e] if y != x}] for x in V.obs if V.life[x]}
        same(ctx, "objects summary", got, want, s)
    d = guard(ctx, "interactions summary", lambda: pm4py.ocel_objects_interactions_summary(o), s)
    if d is not None:
        got = sorted((r[EID], r[ACT], r[OID], r[TYP], r[OID + "_2"], r[TYP + "_2"]) for r in d.to_dict("records"))
        want = sorted((e, V.act[e], x, V.typ[x], y, V.typ[y]) for e in V.ev for x, y in itertools.permutations(V.on[e], 2))
        same(ctx, "interactions summary", got, want, s)
    for t in sorted(V.types):
        d = guard(ctx, "flattening", lambda: pm4py.ocel_flattening(o, t), s)
        if d is None:
            continue
        got, oa, ea = {}, {}, {}
        for r in d.to_dict("records"):
            got.setdefault(r["case:concept:name"], []).append((r[EID], r["concept:name"], r["time:timestamp"]))
            oa.setdefault(r["case:concept:name"], []).append({k[5:]: v for k, v in r.items() if k == "case:p" and isinstance(v, str)})
            ea[r[EID]] = {k: v for k, v in r.items() if k == "k" and isinstance(v, str)}
        same(ctx, "flattening", got, {x: [(e, V.act[e], V.t[e]) for e in V.life[x]] for x in V.obs if V.typ[x] == t and V.life[x]}, s)
        from checks.C28 import val
        same(ctx, "object attributes in the flattened log", oa, {x: [{k: val(v) for k, v in a.items()}] * len(V.life[x]) for x, tt, a in s["ob"] if tt == t and V.life[x]}, s)
        same(ctx, "event attributes in the flattened log", ea, {e[0]: {k: val(v) for k, v in e[3].items()} for e in s["ev"] if any(V.typ[x] == t for x in V.on[e[0]])}, s)
    from pm4py.objects.ocel.util import events_per_object_type, events_per_type_per_activity, objects_per_type_per_activity, convergence_divergence_diagnostics, event_prefix_suffix_per_obj, related_events, related_objects
    same(ctx, "events per object type", guard(ctx, "events per object type", lambda: {t: int(n) for t, n in events_per_object_type.apply(o).items()}, s), {t: sum(any(V.typ[x] == t for x in V.on[e]) for e in V.ev) for t in V.types}, s)
    stat = lambda c: {"min": min(c), "max": max(c), "mean": statistics.mean(c), "median": statistics.median(c)}
    A = sorted(set(V.act.values()))
    we, wo = {a: {} for a in A}, {a: {} for a in A}
    for a in A:
        for t in V.types:
            c = [n for x in V.obs if V.typ[x] == t for n in [sum(V.act[e] == a for e in V.life[x])] if n]
            if c:
                we[a][t] = stat(c)
                wo[a][t] = stat([n for e in V.ev if V.act[e] == a for n in [sum(V.typ[x] == t for x in V.on[e])] if n])
    same(ctx, "events per type and activity", guard(ctx, "events per type and activity", lambda: events_per_type_per_activity.apply(o), s), we, s)
    same(ctx, "objects per type and activity", guard(ctx, "objects per type and activity", lambda: objects_per_type_per_activity.apply(o), s), wo, s)
    same(ctx, "convergence and divergence", guard(ctx, "convergence and divergence", lambda: {k: set(v) for k, v in convergence_divergence_diagnostics.apply(o).items()}, s),
         {"divergence": {(a, t) for a in A for t in we[a] if we[a][t]["median"] > 1}, "convergence": {(a, t) for a in A for t in wo[a] if wo[a][t]["median"] > 1}}, s)
    for w, cut in (("prefix", lambda l, i: l[:i]), ("suffix", lambda l, i: l[i + 1:])):
        want = {}
        for x in V.obs:
            for i, e in enumerate(V.life[x]):
                if cut(V.life[x], i):
                    want.setdefault(e, {})[x] = cut(V.life[x], i)
        same(ctx, "%s of an event per object" % w, guard(ctx, "%s of an event per object" % w, lambda: event_prefix_suffix_per_obj.apply(o, parameters={"prefix_or_suffix": w}), s), want, s)
    norm = lambda d: {t: {k: sorted(set(v)) for k, v in m.items()} for t, m in d.items()}
    same(ctx, "related events", guard(ctx, "related events", lambda: norm(related_events.related_events_dct(o)), s), {t: {x: sorted(V.life[x]) for x in V.obs if V.typ[x] == t and V.life[x]} for t in V.rtypes}, s)
    same(ctx, "related objects per type", guard(ctx, "related objects per type", lambda: norm(related_objects.related_objects_dct_per_type(o)), s),
         {t: {e: sorted(x for x in V.on[e] if V.typ[x] == t) for e in V.ev if any(V.typ[x] == t for x in V.on[e])} for t in V.rtypes}, s)
    same(ctx, "related objects", guard(ctx, "related objects", lambda: {k: sorted(set(v)) for k, v in related_objects.related_objects_dct_overall(o).items()}, s), {e: sorted(V.on[e]) for e in V.ev}, s)
    ctx.trace()
    ctx.outcome("summaries")


# ------------------------------------------------------------------ graphs and models
def models(case, ctx):
    s, o = make(case)
    V = View(s)
    ctx.state(str(s))
    first = {x: l[0] for x, l in V.life.items() if l}
    last = {x: l[-1] for x, l in V.life.items() if l}
    P = list(itertools.permutations([x for x in V.obs if V.life[x]], 2))
    inh = {(a, b) for a, b in P if last[a] == first[b]}
    want = {"object_interaction": {(a, b) for a, b in P if a < b and set(V.life[a]) & set(V.life[b])}, "object_cobirth": {(a, b) for a, b in P if a < b and first[a] == first[b]},
            "object_codeath": {(a, b) for a, b in P if a < b and last[a] == last[b]},
            "object_descendants": {(a, b) for a, b in P if first[b] in V.life[a] and V.ev.index(first[a]) < V.ev.index(first[b])},
            "object_inheritance": {(a, b) for a, b in inh if (b, a) not in inh}}
    for g, w in want.items():
        same(ctx, "graph %s" % g, guard(ctx, "graph %s" % g, lambda: set(pm4py.discover_objects_graph(o, g)), s), w, s)
    links = lambda x: sorted((r[OID], r[OID + "_2"], r[Q]) for r in x.o2o.to_dict("records"))
    before = links(o)
    for inc in [None] + [[g + "_graph"] for g in want] + [["object_cobirth_graph", "object_inheritance_graph"]]:
        r = guard(ctx, "enrichment with object links", lambda: pm4py.ocel_o2o_enrichment(o, inc), s)
        if r is not None:
            w = before + [(a, b, g + "_graph") for g in want if inc is None or g + "_graph" in inc for x, y in want[g] for a, b in ([(x, y), (y, x)] if g == "object_interaction" else [(x, y)])]
            same(ctx, "enrichment with object links", links(r), sorted(w), s)
            same(ctx, "enrichment with object links changes the log", links(o), before, s)
    if V.rtypes:
        r = guard(ctx, "lifecycle qualifiers", lambda: pm4py.ocel_e2o_lifecycle_enrichment(C29.mk(s)), s)
        if r is not None:
            got = {(x[EID], x[OID], x[Q]) for x in r.relations.to_dict("records")}
            want2 = {(e, x, "creation" if e == first[x] else "termination" if e == last[x] else "other") for e in V.ev for x in V.on[e]}
            same(ctx, "lifecycle qualifiers", got, want2, s)
    D = guard(ctx, "directly-follows graph", lambda: pm4py.discover_ocdfg(o), s)
    if D is None:
        return
    A = set(V.act.values())
    E = [(V.typ[x], V.act[a], V.act[b], a, b, x) for x in V.obs for a, b in zip(V.life[x], V.life[x][1:])]
    R = [(V.typ[x], V.act[e], e, x) for x in V.obs for e in V.life[x]]

    def group(rows, f):
        out = {}
        for r in rows:
            out.setdefault(r[0], {}).setdefault(r[1] if len(r) == 4 else (r[1], r[2]), set()).add(f(r))
        return out
    sets = lambda d: {t: {a: set(map(tuple, v)) if v and not isinstance(next(iter(v)), str) else set(v) for a, v in m.items()} for t, m in d.items()}
    same(ctx, "OCDFG activities", set(D["activities"]), A, s)
    same(ctx, "OCDFG object types", set(D["object_types"]), V.types, s)
    for k, f in (("event_couples", lambda r: (r[3], r[4])), ("unique_objects", lambda r: r[5]), ("total_objects", lambda r: (r[3], r[4], r[5]))):
        same(ctx, "OCDFG edges: %s" % k, sets(D["edges"][k]), group(E, f), s)
    for name, rows in (("activities_ot", R), ("start_activities", [r for r in R if r[2] == V.life[r[3]][0]]), ("end_activities", [r for r in R if r[2] == V.life[r[3]][-1]])):
        for k, f in (("events", lambda r: r[2]), ("unique_objects", lambda r: r[3]), ("total_objects", lambda r: (r[2], r[3]))):
            same(ctx, "OCDFG %s: %s" % (name, k), sets(D[name][k]), group(rows, f), s)
    for k, f in (("events", lambda r: r[2]), ("unique_objects", lambda r: r[3]), ("total_objects", lambda r: (r[2], r[3]))):
        same(ctx, "OCDFG activities_indep: %s" % k, sets({0: D["activities_indep"][k]})[0], group([(0,) + r[1:] for r in R], f).get(0, {}), s)
    for k, f in (("event_couples", lambda r: (r[3], r[4])), ("total_objects", lambda r: (r[3], r[4], r[5]))):
        w = {t: {a: sorted((V.t[x[1]] - V.t[x[0]]).total_seconds() for x in v) for a, v in m.items()} for t, m in group(E, f).items()}
        same(ctx, "OCDFG performance: %s" % k, {t: {a: sorted(v) for a, v in m.items()} for t, m in D["edges_performance"][k].items()}, w, s)
    for var in ("im", "imd"):
        for tbr in (False, True) if case[1] % 2 == 0 else (False,):
            N = guard(ctx, "object-centric Petri net", lambda: pm4py.discover_oc_petri_net(o, var, tbr), s)
            if N is None:
                continue
            same(ctx, "object-centric Petri net: types", set(N["petri_nets"]), V.rtypes, s)
            for t in sorted(V.rtypes & set(N["petri_nets"])):
                net, im, fm = N["petri_nets"][t]
                traces = [[V.act[e] for e in V.life[x]] for x in V.obs if V.typ[x] == t and V.life[x]]
                bad = ref.check_structure(net)
                if bad:
                    ctx.note("the net of a type is inconsistent", spec=s, text=bad)
                M = ref.net_from_pm4py(net, im, fm)
                labels = {x.label for x in net.transitions if x.label}
                same(ctx, "activities in the net of a type", labels, {a for tr in traces for a in tr}, s)
                if var == "im":
                    for tr in traces:
                        if not ref.accepts(M, tr):
                            ctx.note("the net of a type does not replay the flattened log", spec=s, type=t, trace=tr)
                    if tbr:
                        cnt = N["tbr_results"][t][1]
                        got = {a: sum(n for x, n in cnt.items() if x.label == a) for a in labels}
                        same(ctx, "replay diagnostics: transition counts", got, {a: sum(tr.count(a) for tr in traces) for a in labels}, s)
                        pd_ = N["tbr_results"][t][0]
                        if any(d["m"] or d["r"] for d in pd_.values()) or any(d["p"] != d["c"] for d in pd_.values()):
                            ctx.note("replay diagnostics: missing or remaining tokens", spec=s)
                dbl = {}
                for a in {a for tr in traces for a in tr}:
                    c = [sum(V.typ[x] == t for x in V.on[e]) for e in V.ev if V.act[e] == a and any(V.typ[x] == t for x in V.on[e])]
                    dbl[a] = sum(n == 1 for n in c) / len(c) <= 0.8
                same(ctx, "double arcs", dict(N["double_arcs_on_activity"][t]), dbl, s)
    ctx.trace()
    ctx.outcome("models")


# ------------------------------------------------------------------ cleaning
def clean(case, ctx):
    s, _ = make(case)
    if not s["rel"]:
        return
    ctx.state(str(s))
    s["e2e"] = []
    V = View(s)
    f = lambda o: {k: v for k, v in C29.facts(o).items() if k != "column names"}
    # duplicates: relations of the same activity, time and object
    r = guard(ctx, "dropping duplicates", lambda: pm4py.ocel_drop_duplicates(C29.mk(s)), s)
    if r is not None:
        seen, keep = set(), []
        for e, x, q in s["rel"]:
            k = (V.act[e], V.t[e], x)
            if k not in seen:
                seen.add(k)
                keep.append([e, x, q])
        E, O = {k[0] for k in keep}, {k[1] for k in keep}
        got = f(r)
        w = f(C29.mk0({**C29.sub(s, E, O, keep)}))
        same(ctx, "dropping duplicates", {k: got[k] for k in got if k not in ("links", "changes", "sizes")}, {k: w[k] for k in w if k not in ("links", "changes", "sizes")}, s)
    for common in (False, True):
        o = C29.mk(s)
        r = guard(ctx, "merging duplicates", lambda: pm4py.ocel_merge_duplicates(o, common), s)
        if r is None:
            continue
        # which events were merged: an event of the result for each original one is found by the table order
        ids = list(r.events[EID])
        rows = [(x[EID], x[ACT], x[TS]) for x in r.events.to_dict("records")]
        rel = {}
        for x in r.relations.to_dict("records"):
            rel.setdefault(x[EID], []).append(x[OID])
        ok = all(isinstance(i, str) for i in ids) and len(set(ids)) == len(ids) and set(rel) <= set(ids) and all(len(v) == len(set(v)) for v in rel.values())
        groups = {}
        for e in V.ev:
            groups.setdefault((V.act[e], V.t[e]), []).append(e)
        for k, es in groups.items():
            mine = [i for i, a, t in rows if (a, t) == k]
            have = sorted(tuple(sorted(rel.get(i, []))) for i in mine)
            if not common:
                # the events with objects become one; those without may stay
                withobj = [e for e in es if V.on[e]]
                full = tuple(sorted({x for e in es for x in V.on[e]}))
                ok &= have in ([full], sorted([full] + [()] * (len(es) - len(withobj)))) or (not withobj and set(have) == {()})
            else:
                parts = [p for p in set_partitions(es) if all(len(b) == 1 or set.intersection(*[set(V.on[e]) for e in b]) for b in p)]
                can = any(set(V.on[a]) & set(V.on[b]) for a, b in itertools.combinations(es, 2))
                alls = [sorted(tuple(sorted({x for e in b for x in V.on[e]})) for b in p) for p in parts if not can or len(p) < len(es)]
                ok &= have in alls
        if len(rows) != sum(1 for i in ids) or {(a, t) for i, a, t in rows} != set(groups):
            ok = False
        if not ok:
            ctx.note("merging duplicates%s" % (" with a common object" if common else ""), spec=s, events=str(rows), relations=rel)
    # tie breaking columns
    s3 = {**s, "ev": [[e, a, t, {**at, "z": "i1" if i % 2 else "f.5"}] for i, (e, a, t, at) in enumerate(s["ev"])]}
    for sh in itertools.permutations(range(len(s["ev"]))) if len(s["ev"]) <= 3 else [range(len(s["ev"]))]:
        s4 = {**s3, "ev": [s3["ev"][i] for i in sh]}
        o = C29.mk(s4)
        r = guard(ctx, "sorting by a further column", lambda: pm4py.ocel_sort_by_additional_column(o, "z"), s4)
        if r is not None:
            want = [e[0] for e in sorted(s4["ev"], key=lambda e: (tm(e[2]), {"i1": 1, "f.5": .5}[e[3]["z"]]))]
            same(ctx, "sorting by a further column", list(r.events[EID]), want, s4)
            same(ctx, "sorting by a further column changes the events", f(r)["events"], f(C29.mk(s4))["events"], s4)
    o = C29.mk(s)
    r = guard(ctx, "index based time shift", lambda: pm4py.ocel_add_index_based_timedelta(o), s)
    if r is not None:
        want = {e: V.t[e] + pd.Timedelta(milliseconds=i) for i, e in enumerate(V.ev)}
        same(ctx, "index based time shift", {x[EID]: x[TS] for x in r.events.to_dict("records")}, want, s)
        same(ctx, "index based time shift of relations", {(x[EID], x[TS]) for x in r.relations.to_dict("records")}, {(e, want[e]) for e in V.ev if V.on[e]}, s)
    # clusters
    for t in sorted(V.types):
        if not all(V.life[x] for x in V.obs) or any(not V.on[e] for e in V.ev):
            continue
        for m in (1, 99):
            r = guard(ctx, "clusters", lambda: pm4py.cluster_equivalent_ocel(C29.mk(s), t, m), s)
            if r is None:
                continue
            n = sum(1 for x in V.obs if V.typ[x] == t)
            if sum(map(len, r.values())) != min(n, m):
                ctx.note("clusters: number of logs", spec=s, got=sum(map(len, r.values())), want=min(n, m))
            for d, ocs in r.items():
                sig = set()
                for oc in ocs:
                    ff = f(oc)
                    sig.add(str([sorted((ff["events"][e][0], sorted(x[3] for x in {tuple(y[:4]) for y in ff["relations"]} if x[0] == e)) for e in ff["events"]), sorted(v[0] for v in ff["objects"].values())]))
                    O = set(ff["objects"])
                    w = f(C29.mk0(by_object({**s, "e2e": []}, lambda x: x[0] in O)))
                    if any(ff[k] != w[k] for k in ("events", "objects", "relations")):
                        ctx.note("clusters: a log is not the part of the log of its objects", spec=s, got=ff, want=w)
                if len(sig) > 1:
                    ctx.note("clusters: different logs are put together", spec=s, got=sorted(sig))
    ctx.trace()
    ctx.outcome("cleaning")


def set_partitions(xs):
    if not xs:
        yield []
        return
    for p in set_partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]


# ------------------------------------------------------------------ interleavings
def igen(tier):
    m = 2 if tier == "quick" else 3
    for nl in range(1, m + 1):
        for nr in range(1, m + 1):
            n = nl + nr
            for where in itertools.combinations(range(n), nl):          # who comes first: all merges
                for tie in [None] + list(range(n - 1)):
                    yield [nl, nr, list(where), tie]


def irun(case, ctx):
    from pm4py.algo.discovery.ocel.interleavings import algorithm as inter
    from pm4py.objects.ocel.util import log_ocel
    nl, nr, where, tie = case
    times = []
    for i in range(nl + nr):
        times.append(times[-1] if tie is not None and i == tie + 1 else (times[-1] + 1 if times else 0))
    L = [times[i] for i in where]
    R = [times[i] for i in range(nl + nr) if i not in where]
    for cases in ([("l0", "r0")], [("l0", "r0"), ("l0", "r1")], [("l0", "r0"), ("l1", "r0")], [("l1", "r0")], [("l0", "r1")]):
        ctx.step()
        lf = [("l%d" % c, "a%d" % i, L[i] + 100 * 0 + (0.5 if c else 0)) for c in (0, 1) for i in range(nl)]
        rf = [("r%d" % c, "b%d" % i, R[i] + (0.5 if c else 0)) for c in (0, 1) for i in range(nr)]
        fr = lambda rows: pd.DataFrame({"case:concept:name": [r[0] for r in rows], "concept:name": [r[1] for r in rows], "time:timestamp": [tm(r[2]) for r in rows]})
        rel = pd.DataFrame({"case:concept:name_LEFT": [c[0] for c in cases], "case:concept:name_RIGHT": [c[1] for c in cases]})
        ldf, rdf = fr(lf), fr(rf)
        before = (ldf.copy(), rdf.copy())
        inf = float("inf")
        want = []
        for a, b in cases:
            x = [("S", -inf, None)] + [(r[1], r[2], i) for i, r in enumerate(lf) if r[0] == a] + [("E", inf, None)]
            y = [("S", -inf, None)] + [(r[1], r[2], i) for i, r in enumerate(rf) if r[0] == b] + [("E", inf, None)]
            for p, p2 in zip(x, x[1:]):
                for q, q2 in zip(y, y[1:]):
                    if p[1] < q[1] < p2[1] < q2[1]:
                        want.append((a, b, "LR", p[0], q[0], p[1], q[1]))
                    if q[1] < p[1] < q2[1] < p2[1]:
                        want.append((a, b, "RL", q2[0], p2[0], q2[1], p2[1]))
        nm = lambda a: {"▶": "S", "■": "E"}.get(a, a)
        hour = lambda t: -inf if t.year < 1700 else inf if t.year > 2200 else (t - tm(0)).total_seconds() / 3600
        try:
            d = inter.apply(ldf, rdf, rel)
            got = [(r["case:concept:name_LEFT"], r["case:concept:name_RIGHT"], r["@@direction"], nm(r["@@source_activity"]), nm(r["@@target_activity"]), hour(r["@@source_timestamp"]), hour(r["@@target_timestamp"])) for r in d.to_dict("records")]
        except Exception as e:
            ctx.note("interleavings raise %s" % type(e).__name__, left=L, right=R, cases=cases, error=str(e)[:200])
            continue
        if sorted(got) != sorted(want):
            ctx.note("interleavings", left=L, right=R, cases=cases, got=sorted(got), want=sorted(want))
            continue
        if not (ldf.equals(before[0]) and rdf.equals(before[1])):
            ctx.note("interleavings change the logs", left=L, right=R)
        real = [w for w in want if abs(w[5]) != inf and abs(w[6]) != inf]
        bad = [r for r in d.to_dict("records") if abs(hour(r["@@source_timestamp"])) != inf and abs(hour(r["@@target_timestamp"])) != inf and r["@@timestamp_diff"] != (r["@@target_timestamp"] - r["@@source_timestamp"]).total_seconds()]
        if bad:
            ctx.note("interleavings: time between", left=L, right=R, got=str(bad)[:300])
        ctx.outcome("interleavings:%d" % len(want))
        try:
            o = log_ocel.from_interleavings(ldf, rdf, d.copy(), {"target_object_type": "L", "target_object_type_2": "R"})
            got = sorted((r[ACT], hour(r[TS]), r[OID], r[TYP]) for r in o.relations.to_dict("records"))
        except Exception as e:
            ctx.note("object-centric log from interleavings raises %s" % type(e).__name__, left=L, right=R, cases=cases, error=str(e)[:200])
            continue
        w2 = {(r[1], r[2], r[0], t) for rows, t in ((lf, "L"), (rf, "R")) for r in rows}
        w2 |= {(w[3], w[5], w[1] if w[2] == "LR" else w[0], "R" if w[2] == "LR" else "L") for w in real}
        if sorted(set(got)) != sorted(w2):
            ctx.note("object-centric log from interleavings", left=L, right=R, cases=cases, got=sorted(set(got)), want=sorted(w2))
    ctx.trace()


# ------------------------------------------------------------------ conversions
def cgen(tier):
    import itertools as it
    for n in (1, 2, 3):
        for cs in it.product("12", repeat=n):
            if cs[0] == "1":
                for col in range(4 ** n if n < 3 else 16):
                    yield [list(cs), [(col >> 2 * i) % 4 for i in range(n)]]


def crun(case, ctx):
    from pm4py.objects.ocel.util import log_ocel
    cs, kinds = case
    vals = [["x1", "x1 AND x2", None, "x3"][k] for k in kinds]
    ys = [["y1", None, "y1 AND y2", "y3"][k] for k in kinds]
    rows = [{"case:concept:name": c, "concept:name": "ab"[i % 2], "time:timestamp": tm(i), "cost": float(i), "X": vals[i], "Y": ys[i], "px": "v%d" % i, "case:kind": "k" + c} for i, c in enumerate(cs)]
    df = pd.DataFrame(rows)
    ctx.state(str(rows))
    D = {"event attributes": rows}
    for form in ("frame", "log"):
        ctx.step()
        src = df if form == "frame" else pm4py.convert_to_event_log(df)
        order = rows if form == "frame" else sorted(rows, key=lambda r: r["case:concept:name"])
        try:
            o = pm4py.convert_log_to_ocel(src, "concept:name", "time:timestamp", object_types=["X", "Y"], additional_event_attributes=["cost"], additional_object_attributes={"X": ["px"]})
        except Exception as e:
            if any(vals) or any(ys):
                ctx.note("conversion to an object-centric log raises %s" % type(e).__name__, rows=str(rows), error=str(e)[:200], form=form)
            continue
        rel, ob = set(), {}
        for r in rows:
            for t in "XY":
                for x in (r[t] or "").split(" AND "):
                    if x:
                        rel.add((r["concept:name"], r["time:timestamp"], x, t))
        for r in (order if form == "log" else rows):
            for t in "XY":
                for x in (r[t] or "").split(" AND "):
                    if x and x not in ob:
                        ob[x] = (t, r["px"] if t == "X" else None)
        got = [(r[ACT], r[TS], r[OID], r[TYP]) for r in o.relations.to_dict("records")]
        if len(got) != len(set(got)) or set(got) != rel:
            ctx.note("conversion to an object-centric log: relations", rows=str(rows), got=str(sorted(got)), want=str(sorted(rel)), form=form)
        gobs = {r[OID]: (r[TYP], r.get("px") if isinstance(r.get("px"), str) else None) for r in o.objects.to_dict("records")}
        if {k: v[0] for k, v in gobs.items()} != {k: v[0] for k, v in ob.items()} or any((v[1] is None) != (v[0] == "Y") for v in gobs.values()) or (form == "frame" and gobs != ob):
            ctx.note("conversion to an object-centric log: objects", rows=str(rows), got=str(gobs), want=str(ob), form=form)
        gev = {(r[ACT], r[TS], r["cost"]) for r in o.events.to_dict("records")}
        wev = {(r["concept:name"], r["time:timestamp"], r["cost"]) for r in rows if r["X"] or r["Y"]}
        allev = {(r["concept:name"], r["time:timestamp"], r["cost"]) for r in rows}
        if not (wev <= gev <= allev) or len(gev) != len(o.events):
            ctx.note("conversion to an object-centric log: events", rows=str(rows), got=str(gev), want=str(wev), form=form)
        ids = {r[EID]: (r[ACT], r[TS]) for r in o.events.to_dict("records")}
        if any(ids.get(r[EID]) != (r[ACT], r[TS]) for r in o.relations.to_dict("records")):
            ctx.note("conversion to an object-centric log: relations and events disagree", rows=str(rows), form=form)
    for form in ("frame", "log"):
        ctx.step()
        try:
            o = (log_ocel.from_traditional_pandas(df.copy(), {"target_object_type": "OT"}) if form == "frame" else log_ocel.from_traditional_log(pm4py.convert_to_event_log(df), {"target_object_type": "OT"}))
        except Exception as e:
            ctx.note("one object type: raises %s" % type(e).__name__, form=form, rows=str(rows), error=str(e)[:200])
            continue
        got = sorted((r[ACT], r[TS], str(r[OID]), r[TYP]) for r in o.relations.to_dict("records"))
        want = sorted((r["concept:name"], r["time:timestamp"], r["case:concept:name"], "OT") for r in rows)
        if got != want:
            ctx.note("one object type: relations", form=form, got=str(got), want=str(want))
        gob = sorted((str(r[OID]), r[TYP], r.get("kind", r.get("case:kind"))) for r in o.objects.to_dict("records"))
        if gob != sorted({(r["case:concept:name"], "OT", r["case:kind"]) for r in rows}):
            ctx.note("one object type: objects", form=form, got=str(gob))
        gev = sorted((r[ACT], r[TS], r["cost"]) for r in o.events.to_dict("records"))
        if gev != sorted((r["concept:name"], r["time:timestamp"], r["cost"]) for r in rows) or len(set(o.events[EID])) != len(rows):
            ctx.note("one object type: events", form=form, got=str(gev))
        back = pm4py.ocel_flattening(o, "OT")
        gb = sorted((str(r["case:concept:name"]), r["concept:name"], r["time:timestamp"]) for r in back[["case:concept:name", "concept:name", "time:timestamp"]].to_dict("records")) if back.columns.is_unique else "columns"
        if gb != sorted((r["case:concept:name"], r["concept:name"], r["time:timestamp"]) for r in rows):
            ctx.note("one object type: flattening brings another log back", form=form, got=str(gb))
    ctx.trace()
    ctx.outcome("conversions")


def families(tier):
    return [("summary", sgen, summary), ("models", sgen, models), ("cleaning", sgen, clean), ("interleavings", igen, irun), ("conversions", cgen, crun)]
