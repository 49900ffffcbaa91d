"""C35 feature tables, prefixes, targets, splits: every small log, every random outcome, cell by cell."""
from mc import choices
choices.install()
import datetime as dtm, itertools, math, os, warnings
from collections import Counter
from mc import gen
from mc.harness import Violation
import numpy as np
import pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
from pm4py.algo.transformation.log_to_features import algorithm as feats
from pm4py.algo.transformation.log_to_target import algorithm as target
from pm4py.algo.transformation.log_to_trie import algorithm as trie_algo
from pm4py.objects.log.util import dataframe_utils as dfu, get_prefixes as gp, log_regex, activities_to_alphabet, move_attrs_to_trace, index_attribute, get_class_representation as gcr
from pm4py.util import pandas_utils as pdu
warnings.filterwarnings("ignore")

ID, TITLE = "C35", "Feature tables, prefixes, targets and splits are exact"
BOUNDS = {"quick": "features: all pairs of cases of <=2 events, single cases of <=4 events over 2 activities x start/end times on a small grid x resources; targets, prefixes, rates on the same logs; splits and samples of logs of <=4 cases under every random outcome; utilities over all small logs",
          "thorough": "pairs of cases of <=3 events, single cases of <=5 events, logs of 5 cases"}
ASSUMPTIONS = ["cases are in time order; empty cases only in the features of event logs", "a numeric attribute is present in every case where it is asked for", "feature names of different values are different", "a random threshold draw is explored at the midpoints of equal slices"]
BUDGET = {"quick": 320, "thorough": 850}
T0 = dtm.datetime(2022, 3, 7, 8, 0, 0, tzinfo=dtm.timezone.utc)
H = 3600.0
ACT = ["a", "b b"]
RES = ["r", "s"]
C, A, T, R, S = "case:concept:name", "concept:name", "time:timestamp", "org:resource", "start_timestamp"


def close(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-3 * max(1.0, abs(b)) * (1 if abs(b) < 10 else 1e-3)


def build(L):
    """L: list of (case attributes, [event dict with 's' start hour, 'e' end hour, 'a' activity, ...])"""
    log, recs = EventLog(), []
    for k, (ca, evs) in enumerate(L):
        t = Trace(attributes={"concept:name": "c%d" % k, **ca})
        for e in evs:
            d = {A: ACT[e["a"]], T: T0 + dtm.timedelta(hours=e["e"]), S: T0 + dtm.timedelta(hours=e["s"])}
            if e.get("r") is not None:
                d[R] = RES[e["r"]]
            for x in ("cost", "tag"):
                if e.get(x) is not None:
                    d[x] = e[x]
            t.append(Event(d))
            recs.append({C: "c%d" % k, **{"case:" + x: v for x, v in ca.items()}, **d})
        log.append(t)
    return log, pd.DataFrame(recs)


def table(got, want, name, ctx, only=False, **d):
    """want: {column: [value per row]}"""
    ctx.step()
    cols = list(got.columns)
    if len(cols) != len(set(cols)) or (set(want) != set(cols) if not only else not set(want) <= set(cols)):
        raise Violation("%s: columns differ" % name, got=sorted(map(str, cols)), want=sorted(want), **d)
    for c, w in want.items():
        g = list(got[c])
        if len(g) != len(w) or any((x != y) if isinstance(y, str) else not close(x, y) for x, y in zip(g, w)):
            raise Violation("%s: a column is wrong" % name, column=c, got=[str(x) for x in g], want=[str(x) for x in w], **d)


# ------------------------------------------------------------------ trace-based features of event logs
def logs(tier):
    """logs with start and end times"""
    out = []
    n1 = 3 if tier == "quick" else 4
    # single cases: every activity sequence and every non-decreasing end times, a start offset pattern
    for n in range(1, n1 + 1):
        for acts in itertools.product(range(2), repeat=n):
            for ends in itertools.combinations_with_replacement(range(0, 3), n):
                for off in ((0,) * n, tuple((i % 2) for i in range(n)), (1,) * n):
                    starts = [e - o for e, o in zip(ends, off)]
                    if any(starts[i] > starts[i + 1] for i in range(n - 1)):
                        continue
                    out.append([({}, [{"a": a, "s": s, "e": e, "r": i % 2} for i, (a, s, e) in enumerate(zip(acts, starts, ends))])])
    # pairs of cases on a grid
    m = 2 if tier == "quick" else 3
    half = []
    for n in range(1, m + 1):
        for acts in ([(0,), (1,)] if n == 1 else [(0, 0), (0, 1), (1, 0)] if n == 2 else [(0, 1, 0)]):
            for ends in itertools.combinations(range(0, 4), n):
                for r in range(2):
                    half.append([{"a": a, "s": e, "e": e, "r": (r + i) % 2 if n < 3 else r} for i, (a, e) in enumerate(zip(acts, ends))])
    for x, y in itertools.product(half, half):
        out.append([({}, x), ({}, y)])
    for x, y in itertools.product(half[:10:2], half[1:10:2]):
        out.append([({}, x), ({}, y), ({}, x)])
    return out


def f_gen(tier):
    for i, L in enumerate(logs(tier)):
        yield {"log": L}
        if len(L) < 3 and i % 7 == 0:
            for k in range(len(L) + 1):
                yield {"log": L[:k] + [({}, [])] + L[k:]}


def f_run(case, ctx):
    L = case["log"]
    log, df = build(L)
    ctx.state(("features", str(L)))
    for skey in (T, S):
        sk = "e" if skey == T else "s"
        n = len(L)
        tr = [evs for _, evs in L]
        want = {"@@case_id_column": ["c%d" % i for i in range(n)]}
        acts = sorted({ACT[e["a"]] for t in tr for e in t})
        ai = {a: ACT.index(a) for a in acts}
        for a in acts:
            want["event:concept:name@" + a] = [float(any(e["a"] == ai[a] for e in t)) for t in tr]
        if [] in tr:
            want["event:concept:name@UNDEFINED"] = [float(not t) for t in tr]
        succ = [{ACT[x["a"]] + "#" + ACT[y["a"]] for x, y in zip(t, t[1:])} or {None} for t in tr]
        for p in {x for z in succ for x in z}:
            want["succession:concept:name@" + ("UNDEFINED" if p is None else p)] = [float(p in z) for z in succ]
        want["@@caseDuration"] = [(t[-1]["e"] - t[0][sk]) * H if t else 0 for t in tr]
        for a in acts:
            pos = [[i for i, e in enumerate(t) if e["a"] == ai[a]] for t in tr]
            for nm, k in (("First", 0), ("Last", -1)):
                want["startTo%sOcc@@%s" % (nm, a)] = [(t[p[k]][sk] - t[0]["e"]) * H if p else 0 for t, p in zip(tr, pos)]
                want["%sOccToEnd@@%s" % (nm.lower(), a)] = [(t[-1][sk] - t[p[k]]["e"]) * H if p else 0 for t, p in zip(tr, pos)]
                want["%sIndexAct@@%s" % (nm.lower(), a)] = [p[k] if p else -1 for p in pos]
        for nm, lo in (("direct", 1), ("indirect", 2)):
            vals = []
            for t in tr:
                d = {}
                for i in range(len(t)):
                    for j in range(i + lo, len(t) if lo == 2 else min(len(t), i + 2)):
                        k = ACT[t[i]["a"]] + "##" + ACT[t[j]["a"]]
                        d.setdefault(k, 0)
                        if t[j][sk] > t[i]["e"]:
                            d[k] = (t[j][sk] - t[i]["e"]) * H
                vals.append(d)
            for k in {k for d in vals for k in d}:
                want["%sPathPerformanceLastOcc@@%s" % (nm, k)] = [d.get(k, 0) for d in vals]
        span = [(t[0][sk], t[-1]["e"]) if t else (1000, 0) for t in tr]
        ov = lambda x, y: x[0] <= y[1] and y[0] <= x[1]
        want["@@work_in_progress"] = [sum(ov(x, y) for y in span) if x[0] < 1000 else 0 for x in span]
        rs = [{e["r"] for e in t if e.get("r") is not None} for t in tr]
        for r in {r for z in rs for r in z}:
            want["resource_workload@@" + RES[r]] = [sum(ov(span[i], span[j]) for j in range(n) if r in rs[j]) if r in rs[i] else 0 for i in range(n)]
        conc = lambda t, a: max([sum(1 for j in range(i + 1, len(t)) if t[j][sk] <= t[i]["e"] and (a is None or (t[i]["a"] == a and t[j]["a"] == a))) for i in range(len(t))] + [0])
        want["@@max_concurrent_activities_general"] = [conc(t, None) for t in tr]
        for a in acts:
            want["@@max_concurrent_activities_like_" + a] = [conc(t, ai[a]) for t in tr]
        data, names = feats.apply(log, parameters={"str_ev_attr": [A], "str_tr_attr": [], "num_tr_attr": [], "num_ev_attr": [], "str_evsucc_attr": [A],
                                                   "enable_all_extra_features": True, "add_case_identifier_column": True,
                                                   "pm4py:param:start_timestamp_key": skey})
        table(pd.DataFrame(data, columns=names), want, "features of an event log", ctx, start_key=skey)
        # one option at a time gives exactly its columns
        if skey == T:
            tab = pm4py.extract_features_dataframe(log, str_ev_attr=[A], str_evsucc_attr=[A], include_case_id=True, enable_all_extra_features=True)
            table(tab, want, "extract_features_dataframe on an event log", ctx)
            for opt, pre in (("enable_case_duration", ("@@caseDuration",)), ("enable_times_from_first_occurrence", ("startToFirst", "firstOccTo")), ("enable_times_from_last_occurrence", ("startToLast", "lastOccTo")),
                             ("enable_direct_paths_times_last_occ", ("directPath",)), ("enable_indirect_paths_times_last_occ", ("indirectPath",)), ("enable_work_in_progress", ("@@work_in",)),
                             ("enable_resource_workload", ("resource_workload",)), ("enable_first_last_activity_index", ("firstIndex", "lastIndex")), ("enable_max_concurrent_events", ("@@max_concurrent_activities_general",)),
                             ("enable_max_concurrent_events_per_activity", ("@@max_concurrent_activities_like",))):
                if len(L) > 1 and opt not in ("enable_work_in_progress", "enable_resource_workload"):
                    continue
                t1 = pm4py.extract_features_dataframe(log, str_ev_attr=[A], **{opt: True})
                table(t1, {c: v for c, v in want.items() if c.startswith(pre) or c.startswith("event:")}, "features with one option", ctx, option=opt)
    # the default selection contains activities and successions
    tab = pm4py.extract_features_dataframe(log)
    table(tab, {c: v for c, v in want.items() if c.startswith(("event:", "succession:"))}, "default features of an event log", ctx, only=True)
    ctx.trace()
    ctx.outcome("ok")


# ------------------------------------------------------------------ attribute features
VALS = [None, "x", "y z"]
NUMS = [None, 0, 2.5]


def attr_gen(tier):
    per = [(ca, cn, ev) for ca in VALS for cn in NUMS[1:] for ev in ([(v, w)] for v in VALS for w in NUMS[1:])]
    per += [("x", 0, [(v1, w1), (v2, w2)]) for v1 in VALS for v2 in VALS for w1, w2 in ((0, 2.5), (2.5, None), (None, 0))]
    for i, (x, y) in enumerate(itertools.product(per, per)):
        if tier == "quick" and len(x[2]) == 2 and len(y[2]) == 2 and x[2][0] != y[2][1] or tier == "quick" and i % 2:
            continue
        yield {"cases": [x, y]}


def attr_run(case, ctx):
    L = []
    for ca, cn, ev in case["cases"]:
        d = {"num": cn}
        if ca is not None:
            d["kind"] = ca
        L.append((d, [{"a": i, "s": i, "e": i, "r": 0, "tag": v, "cost": w} for i, (v, w) in enumerate(ev)]))
    log, df = build(L)
    ctx.state(("attributes", str(L)))
    kinds = [ca.get("kind", "UNDEFINED") for ca, _ in L]
    tags = [{e["tag"] for e in t if e["tag"] is not None} or {"UNDEFINED"} for _, t in L]
    suc = [{"%s#%s" % (x["tag"], y["tag"]) for x, y in zip(t, t[1:]) if x["tag"] is not None and y["tag"] is not None} or {"UNDEFINED"} for _, t in L]
    want = {"trace:kind@" + k: [float(x == k) for x in kinds] for k in set(kinds)}
    want.update({"event:tag@" + k: [float(k in z) for z in tags] for k in set().union(*tags)})
    want.update({"succession:tag@" + k: [float(k in z) for z in suc] for k in set().union(*suc)})
    want["trace:num"] = [ca["num"] for ca, _ in L]
    last = [[e["cost"] for e in t if e["cost"] is not None] for _, t in L]
    want["event:cost"] = [z[-1] for z in last]
    got = pm4py.extract_features_dataframe(log, str_tr_attr=["kind"], num_tr_attr=["num"], str_ev_attr=["tag"], num_ev_attr=["cost"], str_evsucc_attr=["tag"])
    table(got, want, "attribute features of an event log", ctx)
    # prescribed feature names: a log is encoded against the columns of another log
    names = ["event:tag@x", "trace:kind@y z", "trace:num", "event:tag@never"]
    got = pm4py.extract_features_dataframe(log, str_tr_attr=["kind"], num_tr_attr=["num"], str_ev_attr=["tag"], feature_names=names)
    table(got, {c: want.get(c, [0.0] * len(L)) for c in names}, "features for given columns", ctx)
    if list(got.columns) != names:
        raise Violation("given feature names come back in another order", got=list(got.columns))
    # dataframe
    if any("kind" in ca for ca, _ in L) and any(e["tag"] is not None for _, t in L for e in t):
        wd = {}
        for k in {ca["kind"] for ca, _ in L if "kind" in ca}:
            wd["case:kind_" + k.replace(" ", "")] = [float(x == k) for x in kinds]
        for k in {e["tag"] for _, t in L for e in t if e["tag"] is not None}:
            wd["tag_" + k.replace(" ", "")] = [float(k in z) for z in tags]
        wd["case:num"] = want["trace:num"]
        wd["cost"] = want["event:cost"]
        for frame, how in ((df, "in order"), (df.iloc[::-1].sort_values(T, kind="stable").reset_index(drop=True), "by time")):
            got = pm4py.extract_features_dataframe(frame.copy(), str_tr_attr=["kind"], num_tr_attr=["num"], str_ev_attr=["tag"], num_ev_attr=["cost"], include_case_id=True)
            table(got, {C: ["c0", "c1"], **wd}, "features of a dataframe", ctx, rows=how)
        ren = df.rename(columns={C: "case:id", A: "what", T: "when"})
        got = pm4py.extract_features_dataframe(ren, str_tr_attr=["kind"], num_tr_attr=["num"], str_ev_attr=["tag"], num_ev_attr=["cost"], include_case_id=True, activity_key="what", timestamp_key="when", case_id_key="case:id")
        table(got, {"case:id": ["c0", "c1"], **wd}, "features of a dataframe with its own column names", ctx)
        # automatic selection
        auto = {A + "_" + a.replace(" ", ""): [float(any(ACT[e["a"]] == a for e in t)) for _, t in L] for a in {ACT[e["a"]] for _, t in L for e in t}}
        auto.update({"case:num": wd["case:num"], "cost": wd["cost"]})
        got = pm4py.extract_features_dataframe(df.copy(), include_case_id=True)
        table(got, {C: ["c0", "c1"], **auto}, "automatic features of a dataframe", ctx)
        p = {dfu.Parameters.MIN_DIFFERENT_OCC_STR_ATTR: 1, "pm4py:param:case_id_key": C, "add_case_identifier_column": True}
        if all("kind" in ca for ca, _ in L):
            auto.update({c: v for c, v in wd.items() if c.startswith("case:kind")})
        if all(any(e["tag"] is not None for e in t) for _, t in L):
            auto.update({c: v for c, v in wd.items() if c.startswith("tag")})
        auto[R + "_r"] = [1.0] * len(L)
        got, _ = feats.apply(df.copy(), parameters=p)
        table(got, {C: ["c0", "c1"], **auto}, "automatic features of a dataframe with lower thresholds", ctx)
    # event-based encoding
    full = all(e["cost"] is not None for _, t in L for e in t)
    tagv = {e["tag"] for _, t in L for e in t if e["tag"] is not None}
    names = sorted(["event:tag@" + v for v in tagv if len(tagv) >= 2] + (["event:cost"] if full else []))
    mx = max(len(t) for _, t in L)
    for src, nm in ((log, "event log"),):
        data, got = feats.apply(src, variant=feats.Variants.EVENT_BASED, parameters={"str_ev_attr": ["tag"], "num_ev_attr": ["cost"]})
        ctx.step()
        if list(got) != names or data.shape != (len(L), mx, len(names)):
            raise Violation("event-based features have other columns", got=list(got), want=names, shape=list(data.shape))
        for i, (_, t) in enumerate(L):
            for j in range(mx):
                e = t[j] if j < len(t) else None
                for k, nme in enumerate(names):
                    w = 0.0 if e is None else (e["cost"] if nme == "event:cost" else float(nme == "event:tag@%s" % e["tag"]))
                    if not close(data[i, j, k], w):
                        raise Violation("event-based feature is wrong", case_=i, event=j, feature=nme, got=float(data[i, j, k]), want=w)
    # class of a case by an attribute
    tg, cl = gcr.get_class_representation_by_str_ev_attr_value_presence(log, "tag", "x")
    if [cl[x] for x in tg] != [str("x" in z) for z in tags]:
        raise Violation("class by presence of an attribute value is wrong", got=[cl[x] for x in tg])
    tg, cl = gcr.get_class_representation_by_str_ev_attr_value_value(log, "tag")
    w = [([e["tag"] for e in t if e["tag"] is not None] or ["UNDEFINED"])[-1] for _, t in L]
    if [cl[x] for x in tg] != w:
        raise Violation("class by attribute value is wrong", got=[cl[x] for x in tg], want=w)
    ctx.step(2)
    ctx.trace()
    ctx.outcome("dataframe" if tagv else "log only")


# ------------------------------------------------------------------ targets, prefixes, rates, temporal features
def t_gen(tier):
    for i, L in enumerate(logs(tier)):
        if len(L) == 1 or len(L) == 3 or tier != "quick" or i % 4 == 1:
            yield {"log": L}


def t_run(case, ctx):
    L = case["log"]
    log, df = build(L)
    tr = [evs for _, evs in L]
    ctx.state(("targets", str(L)))
    acts = sorted({ACT[e["a"]] for t in tr for e in t})
    mx = max(map(len, tr))
    want = {"next_activity": [[[float(i + 1 < len(t) and ACT[t[i + 1]["a"]] == a) for a in acts] for i in range(len(t))] for t in tr],
            "next_time": [[(t[min(i + 1, len(t) - 1)]["e"] - t[i]["e"]) * H for i in range(len(t))] for t in tr],
            "remaining_time": [[(t[-1]["e"] - t[i]["e"]) * H for i in range(len(t))] for t in tr]}
    for v, w in want.items():
        for src, nm in ((log, "event log"), (df, "dataframe")):
            ctx.step()
            got, cls = pm4py.extract_target_vector(src, v)
            if [list(map(lambda z: list(z) if v == "next_activity" else float(z), x)) for x in got] != w or (v == "next_activity" and list(cls) != acts):
                raise Violation("target vector is wrong", variant=v, representation=nm, got=str(got), want=str(w))
        for size in (None, mx + 1):
            got, cls = target.apply(log, variant=getattr(target.Variants, v.upper()), parameters={"enable_padding": True, **({"pad_size": size} if size else {})})
            pad = [0.0] * len(acts) if v == "next_activity" else 0.0
            w2 = [x + [pad] * ((size or mx) - len(x)) for x in w]
            if [list(x) for x in got] != w2:
                raise Violation("padded target vector is wrong", variant=v, got=str(got), want=str(w2))
    if "a" in acts:
        got, cls = target.apply(log, variant=target.Variants.NEXT_ACTIVITY, parameters={"activities": ["a", "zz"]})
        if list(cls) != ["a", "zz"] or got != [[[x[acts.index("a")], 0.0] for x in t] for t in want["next_activity"]]:
            raise Violation("targets over given activities are wrong", got=str(got))
    # prefixes
    for k in range(0, mx + 2):
        ctx.step(2)
        w = [[ACT[e["a"]] for e in t[:k]] for t in tr]
        got = pm4py.get_prefixes_from_log(log, k)
        if [[e[A] for e in t] for t in got] != w or [t.attributes for t in got] != [t.attributes for t in log]:
            raise Violation("prefixes of an event log are wrong", length=k, got=[[e[A] for e in t] for t in got], want=w)
        for frame in (df, df.iloc[sorted(range(len(df)), key=lambda i: (df[T].iloc[i], i))]):
            got = pm4py.get_prefixes_from_log(frame, k)
            g = {c: list(x[A]) for c, x in got.groupby(C)}
            if g != {"c%d" % i: x for i, x in enumerate(w) if x}:
                raise Violation("prefixes of a dataframe are wrong", length=k, got=str(g), want=str(w))
    ren = df.rename(columns={C: "case:id"})
    got = pm4py.get_prefixes_from_log(ren, 1, case_id_key="case:id")
    if sorted(got["case:id"]) != ["c%d" % i for i in range(len(L))]:
        raise Violation("prefixes with another case column are wrong", got=list(got["case:id"]))
    for a in range(2):
        got, tm = gp.get_log_traces_until_activity(log, ACT[a], parameters={})
        w = []
        for t in tr:
            i = next((i for i, e in enumerate(t) if e["a"] == a), 0)
            if i:
                w.append(([ACT[e["a"]] for e in t[:i]], (t[i]["e"] - t[i - 1]["e"]) * H))
        ctx.step()
        if [([e[A] for e in t], d) for t, d in zip(got, tm)] != w or len(got) != len(w):
            raise Violation("traces until an activity are wrong", activity=ACT[a], got=[[e[A] for e in t] for t in got], want=str(w))
    # rates and times
    for sk, skey in (("e", T), ("s", S)):
        st = {"c%d" % i: min(e[sk] for e in t) for i, t in enumerate(tr)}
        en = {"c%d" % i: max(e["e"] for e in t) for i, t in enumerate(tr)}
        sv = {"c%d" % i: sum(e["e"] - e[sk] for e in t) for i, t in enumerate(tr)}

        def rate(d):
            o = sorted(d, key=lambda c: (d[c], c))
            return {c: (0 if i == 0 else d[c] - d[o[i - 1]]) for i, c in enumerate(o)}
        arr, fin = rate(st), rate(en)
        col = {"@@arrival_rate": arr, "@@finish_rate": fin, "@@service_time": sv, "@@sojourn_time": {c: en[c] - st[c] for c in st}, "@@waiting_time": {c: en[c] - st[c] - sv[c] for c in st}}
        enr = pm4py.extract_outcome_enriched_dataframe(df, start_timestamp_key=skey)
        ctx.step(2)
        if list(enr[C]) != list(df[C]) or list(enr[A]) != list(df[A]) or list(enr[T]) != list(df[T]):
            raise Violation("outcome-enriched dataframe lost or reordered events", got=list(enr[A]), want=list(df[A]))
        for c, d in col.items():
            if any(not close(g, d[k] * H) for g, k in zip(enr[c], enr[C])):
                raise Violation("outcome-enriched dataframe is wrong", column=c, start_key=skey, got=[float(x) for x in enr[c]], want=[d[k] * H for k in enr[C]])
        for a in acts:
            w = {"c%d" % i: float(any(ACT[e["a"]] == a for e in t)) for i, t in enumerate(tr)}
            if any(g != w[k] for g, k in zip(enr[A + "_" + a.replace(" ", "")], enr[C])):
                raise Violation("features of an outcome-enriched dataframe are wrong", activity=a)
        for freq, hours in (("h", 1), ("2h", 2)):
            got = pm4py.extract_temporal_features_dataframe(df, grouper_freq=freq, start_timestamp_key=skey)
            ev = [(e, "c%d" % i) for i, t in enumerate(tr) for e in t]
            lo = math.floor(min(e[sk] for e, _ in ev) / hours) * hours
            hi = math.floor(max(e[sk] for e, _ in ev) / hours) * hours
            rows = {k: [] for k in ("unique_resources", "unique_cases", "unique_activities", "num_events", "average_arrival_rate", "average_finish_rate", "average_waiting_time", "average_sojourn_time", "average_service_time")}
            stamps = []
            for b in range(lo, hi + 1, hours):
                g = [(e, c) for e, c in ev if b <= e[sk] < b + hours]
                cs = sorted({c for _, c in g})
                stamps.append(T0 + dtm.timedelta(hours=b))
                rows["unique_resources"].append(len({e["r"] for e, _ in g if e.get("r") is not None}))
                rows["unique_cases"].append(len(cs))
                rows["unique_activities"].append(len({e["a"] for e, _ in g}))
                rows["num_events"].append(len(g))
                mean = lambda d: sum(d[c] for c in cs) * H / len(cs) if cs else 0
                for nm, c in (("arrival_rate", "@@arrival_rate"), ("finish_rate", "@@finish_rate"), ("waiting_time", "@@waiting_time"), ("sojourn_time", "@@sojourn_time"), ("service_time", "@@service_time")):
                    rows["average_" + nm].append(mean(col[c]))
            ctx.step()
            if [x.to_pydatetime() for x in got["timestamp"]] != stamps:
                raise Violation("temporal features have other periods", got=[str(x) for x in got["timestamp"]], want=[str(x) for x in stamps], start_key=skey)
            table(got.drop(columns=["timestamp"]), rows, "temporal features", ctx, start_key=skey, freq=freq)
    ctx.trace()
    ctx.outcome("ok")


# ------------------------------------------------------------------ splits and samples under every random outcome
def s_gen(tier):
    n = 4 if tier == "quick" else 5
    for lens in itertools.chain.from_iterable(itertools.product((1, 2), repeat=k) for k in range(1, n + 1)):
        if list(lens) == sorted(lens) or len(lens) < 3:
            yield {"lens": list(lens)}


def s_run(case, ctx):
    lens = case["lens"]
    L = [({"n": i}, [{"a": (i + j) % 2, "s": j, "e": j, "r": 0} for j in range(k)]) for i, k in enumerate(lens)]
    n = len(L)
    log, df = build(L)
    log.attributes["concept:name"] = "whole"
    log.omni_present["trace"] = {"concept:name": "x"}
    ctx.state(("splits", str(lens)))
    ids = ["c%d" % i for i in range(n)]
    rowsof = lambda d: [(c, t) for c, t in zip(d[C], d[T])]
    full = rowsof(df)

    def whole_log(parts, what, disjoint=True):
        got = [t.attributes["concept:name"] for p in parts for t in p]
        if len(got) != len(set(got)):
            raise Violation("%s of an event log repeats a case" % what, got=got)
        for p in parts:
            if not isinstance(p, EventLog) or p.attributes != log.attributes or p.omni_present != log.omni_present:
                raise Violation("%s of an event log loses the log's attributes" % what, got=[str(p.attributes), str(p.omni_present)])
            for t in p:
                o = log[ids.index(t.attributes["concept:name"])]
                if [dict(e) for e in t] != [dict(e) for e in o] or t.attributes != o.attributes:
                    raise Violation("%s of an event log alters a case" % what, case_=t.attributes["concept:name"])
        return got

    def whole_df(parts, what):
        got = []
        for p in parts:
            r = rowsof(p)
            cs = set(p[C])
            if r != [x for x in full if x[0] in cs] or list(p.columns) != list(df.columns):
                raise Violation("%s of a dataframe is not made of whole cases" % what, got=str(r))
            got += sorted(cs)
        if len(got) != len(set(got)):
            raise Violation("%s of a dataframe repeats a case" % what, got=got)
        return got

    for p in (0.0, 0.3, 0.5, 0.8, 1.0):
        seen = set()
        for res, ch, cut in choices.explore(lambda: pm4py.split_train_test(log, train_percentage=p), n + 1, limit=4000):
            ctx.step()
            a, b = res
            if sorted(whole_log([a, b], "split")) != ids:
                raise Violation("split of an event log loses a case", train=len(a), test=len(b), choices=ch)
            if not -1e-9 <= len(a) - n * p <= 1 + 1e-9:
                raise Violation("training share of an event log is off", train=len(a), cases=n, percentage=p)
            seen.add(tuple(sorted(t.attributes["concept:name"] for t in a)))
        k = len(next(iter(seen)))
        if len(seen) != math.comb(n, k):
            raise Violation("some splits of an event log can never come out", percentage=p, seen=len(seen), possible=math.comb(n, k))
        seen = set()
        for res, ch, cut in choices.explore(lambda: pm4py.split_train_test(df, train_percentage=p), n + 1, limit=4000, grid=4):
            ctx.step()
            a, b = res
            if sorted(whole_df([a, b], "split")) != ids:
                raise Violation("split of a dataframe loses a case", choices=ch)
            seen.add(tuple(sorted(set(a[C]))))
        if p == 1.0 and seen != {tuple(ids)} or p == 0.0 and seen != {()} or p in (0.3, 0.5, 0.8) and len(seen) != 2 ** n:
            raise Violation("splits of a dataframe do not follow the percentage", percentage=p, seen=sorted(seen))
    for k in range(0, n + 2):
        for src, nm in ((log, "event log"), (df, "dataframe")):
            seen = set()
            for res, ch, cut in choices.explore(lambda: pm4py.sample_cases(src, k), 2 * n + 2, limit=4000):
                ctx.step()
                got = whole_log([res], "sample") if src is log else whole_df([res], "sample")
                if len(got) != min(k, n):
                    raise Violation("a sample of cases has another size", representation=nm, asked=k, got=len(got), choices=ch)
                seen.add(tuple(sorted(got)))
            if len(seen) != math.comb(n, min(k, n)):
                raise Violation("some samples of cases can never come out", representation=nm, asked=k, seen=len(seen))
    stream = EventStream([{C: c, A: a, T: t} for c, a, t in zip(df[C], df[A], df[T])])
    m = len(stream)
    if m <= 4:
        for k in range(0, m + 2):
            seen = set()
            for res, ch, cut in choices.explore(lambda: pm4py.sample_events(stream, k), 2 * m + 2, limit=4000):
                ctx.step()
                got = [(e[C], e[T]) for e in res]
                if not isinstance(res, EventStream) or len(got) != min(k, m) or len(set(got)) != len(got) or not set(got) <= set(full):
                    raise Violation("a sample of events is not a sub-multiset of the stream", asked=k, got=str(got), choices=ch)
                seen.add(tuple(sorted(got)))
            if len(seen) != math.comb(m, min(k, m)):
                raise Violation("some samples of events can never come out", asked=k, seen=len(seen))
    ctx.trace()
    ctx.outcome("ok")


# ------------------------------------------------------------------ log utilities
def u_gen(tier):
    k = 3 if tier == "quick" else 4
    trs = [tuple(t) for t in gen.traces(range(2), k, 0)]
    for a in trs:
        yield {"log": [list(a)]}
    for a, b in itertools.product(trs[:15], repeat=2):
        yield {"log": [list(a), list(b)]}
    small = trs[1:7]
    for a, b, c in itertools.product(small, repeat=3):
        yield {"log": [list(a), list(b), list(c)]}


def u_run(case, ctx):
    L = case["log"]
    ctx.state(("utils", str(L)))
    mk = lambda M: build([({"kind": "k%d" % (i % 2)}, [{"a": a, "s": j, "e": j, "r": j % 2, "tag": "t%d" % i, "cost": 1} for j, a in enumerate(t)]) for i, t in enumerate(M)])
    log, df = mk(L)
    names = [[ACT[a] for a in t] for t in L]
    ctx.step()
    if pm4py.project_on_event_attribute(log, A) != names:
        raise Violation("projection of an event log on its activities is wrong", got=str(pm4py.project_on_event_attribute(log, A)))
    nonempty = [x for x in names if x]
    if nonempty:
        for key, w in ((A, nonempty), ("tag", [["t%d" % i] * len(t) for i, t in enumerate(names) if t])):
            for frame in (df, df.rename(columns={C: "case:id"})):
                ck = C if C in frame else "case:id"
                got = pm4py.project_on_event_attribute(frame, key, case_id_key=None if ck == C else ck)
                if got != w:
                    raise Violation("projection of a dataframe on an attribute is wrong", attribute=key, got=str(got), want=str(w))
    # artificial start and end
    two, _ = mk(L)
    got = pm4py.insert_artificial_start_end(two, artificial_start="S", artificial_end="E")
    ctx.step(2)
    if [[e[A] for e in t] for t in got] != [["S"] + x + ["E"] for x in names]:
        raise Violation("artificial start and end of an event log are wrong", got=[[e[A] for e in t] for t in got])
    for t, o in zip(got, log):
        if [dict(e) for e in t[1:-1]] != [dict(e) for e in o] or t.attributes != o.attributes or (len(o) and not (t[0][T] < o[0][T] and t[-1][T] > o[-1][T])):
            raise Violation("artificial start and end alter the events of a case", case_=t.attributes["concept:name"])
    if nonempty:
        for frame, ck in ((df, C), (df.sort_values(T, kind="stable"), C), (df.rename(columns={C: "case:id"}), "case:id")):
            before = frame.copy()
            got = pm4py.insert_artificial_start_end(frame, artificial_start="S", artificial_end="E", case_id_key=ck)
            g = {c: list(x[A]) for c, x in got.groupby(ck)}
            if g != {"c%d" % i: ["S"] + x + ["E"] for i, x in enumerate(names) if x}:
                raise Violation("artificial start and end of a dataframe are wrong", got=str(g))
            for c, x in got.groupby(ck):
                ts = list(x[T])
                if not (ts[0] < ts[1] and ts[-1] > ts[-2]) or ts[1:-1] != list(df[df[C] == c][T]) or list(x["tag"])[1:-1] != list(df[df[C] == c]["tag"]):
                    raise Violation("artificial start and end alter the events of a dataframe", case_=c)
            if not before.equals(frame):
                raise Violation("inserting artificial start and end modifies the dataframe it is given", got=str(list(frame.columns)))
        # indexes
        for frame in (df, df.sample(frac=1, random_state=1)):
            got = pdu.insert_index(frame)
            if list(got["@@index"]) != list(range(len(df))) or list(got[T]) != list(frame[T]):
                raise Violation("event index is wrong", got=list(got["@@index"]))
            got = pdu.insert_ev_in_tr_index(frame)
            for c, x in got.groupby(C):
                if list(x["@@index_in_trace"]) != list(range(len(x))):
                    raise Violation("index in the case is wrong", got=list(x["@@index_in_trace"]))
            got = pdu.insert_case_index(frame)
            o = sorted(set(frame[C]))
            if [o[i] for i in got["@@case_index"]] != list(frame[C]):
                raise Violation("case index is wrong", got=list(got["@@case_index"]))
        got = pdu.insert_feature_activity_position_in_trace(df)
        for a in {x for t in nonempty for x in t}:
            w = [j if x == a else math.nan for t in nonempty for j, x in enumerate(t)]
            if any(not close(g, x) for g, x in zip(got["@@position_" + a], w)):
                raise Violation("position of an activity in the case is wrong", activity=a, got=[float(z) for z in got["@@position_" + a]], want=w)
        ctx.step(4)
        # activity and case tables
        at, ct = dfu.dataframe_to_activity_case_table(df.copy())
        wc = [("c%d" % i, "k%d" % (i % 2)) for i, t in enumerate(L) if t]
        if sorted(zip(ct[C], ct["case:kind"])) != wc or list(zip(at[C], at[A], at[T])) != list(zip(df[C], df[A], df[T])) or "case:kind" in at.columns or A in ct.columns:
            raise Violation("activity and case table are wrong", cases=str(list(ct.columns)), activities=str(list(at.columns)))
        # activities mapped to letters
        got, mp = activities_to_alphabet.apply(df.copy(), parameters={"return_mapping": True})
        if [mp[x] for x in got[A]] != list(df[A]) or len(mp) != df[A].nunique() or any(not (x.isalpha() and x.isupper()) for x in mp):
            raise Violation("mapping of activities to letters is not invertible", got=list(got[A]), mapping=str(mp))
        got = dfu.insert_partitioning(df.copy(), 2)
        if any(len(set(x)) != 1 for _, x in got.groupby(C)["@@partitioning"]):
            raise Violation("a case lies in two partitions", got=list(got["@@partitioning"]))
    # character encoding
    mp = log_regex.form_encoding_dictio_from_log(log, parameters={})
    enc = log_regex.get_encoded_log(log, mp, parameters={})
    inv = {v: k for k, v in mp.items()}
    if len(inv) != len(mp) or any(len(v) != 1 for v in inv) or [[inv[c] for c in x] for x in enc] != names:
        raise Violation("character encoding of a log is not faithful", got=enc, mapping=str(mp))
    mp = log_regex.form_encoding_dictio_from_two_logs(EventLog(log[:1]), EventLog(log[1:]), parameters={})
    if set(mp) != {x for t in names for x in t} or len(set(mp.values())) != len(mp):
        raise Violation("character encoding of two logs is not injective", got=str(mp))
    # attributes constant in every case move to the case, and only those
    three, _ = mk(L)
    if all(L):
        for t in three:
            for j, e in enumerate(t):
                e["const"] = "v"
                e["step"] = j
                if j == 0:
                    e["first"] = True
        got = move_attrs_to_trace.apply(three, parameters={"enable_deepcopy": True})
        up = {"const", "tag", "start_timestamp", "step", "first"} if all(len(t) == 1 for t in L) else {"const", "tag"}
        for t, o in zip(got, three):
            for k in sorted(up):
                if t.attributes.get(k) != o[0][k] or any(k in e for e in t):
                    raise Violation("an attribute constant in every case is not moved to the case", attribute=k)
            for e, f in zip(t, o):
                if {k: v for k, v in f.items() if k not in up and k != "cost"} != {k: v for k, v in e.items() if k != "cost"}:
                    raise Violation("moving attributes to the case alters other attributes", got=str(dict(e)))
    # trie = set of variants
    for src, nm in ((log, "event log"),) + (((df, "dataframe"),) if nonempty and all(L) else ()):
        root = trie_algo.apply(src)
        found = []

        def walk(node, word, depth):
            labels = [c.label for c in node.children]
            if len(labels) != len(set(labels)) or node.depth != depth:
                raise Violation("prefix tree has twin children or a wrong depth", got=str(labels), representation=nm)
            if node.final:
                found.append(tuple(word))
            for c in node.children:
                if c.parent is not node:
                    raise Violation("prefix tree has a wrong parent", representation=nm)
                walk(c, word + [c.label], depth + 1)
            if not node.children and not node.final and word:
                raise Violation("prefix tree has a leaf that ends no variant", word=word, representation=nm)
        walk(root, [], 0)
        if sorted(found) != sorted(set(map(tuple, names))):
            raise Violation("prefix tree is not the set of variants", got=str(found), want=str(names), representation=nm)
        ctx.step()
    # numbering
    st = pm4py.convert_to_event_stream(log) if nonempty else None
    four, _ = mk(L)
    index_attribute.insert_trace_index_as_event_attribute(four)
    if any(e["@@traceindex"] != i + 1 for i, t in enumerate(four) for e in t):
        raise Violation("trace index is wrong", got=str([[e["@@traceindex"] for e in t] for t in four]))
    # class by duration
    for th in (0, H, 2 * H):
        tg, cl = gcr.get_class_representation_by_trace_duration(log, th)
        w = ["GREATER" if t and (len(t) - 1) * H > th else "LESSEQUAL" for t in L]
        if [cl[x] for x in tg] != w:
            raise Violation("class by duration is wrong", threshold=th, got=[cl[x] for x in tg], want=w)
    ctx.trace()
    ctx.outcome("ok" if nonempty else "empty")


def families(tier):
    return [("features", f_gen, f_run), ("attributes", attr_gen, attr_run), ("targets", t_gen, t_run), ("random", s_gen, s_run), ("utilities", u_gen, u_run)]
