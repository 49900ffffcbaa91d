"""C26 statistics against direct computation: every small log with every relative order of its timestamps, in both representations and under other attribute names."""
import datetime as dtm, itertools, math, statistics as st, warnings
from collections import Counter
from mc import gen
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.statistics.traces.generic.log import case_statistics as lcs, case_arrival as lca
from pm4py.statistics.traces.generic.pandas import case_statistics as pcs, case_arrival as pca
from pm4py.statistics.traces.cycle_time.log import get as lcy
from pm4py.statistics.traces.cycle_time.pandas import get as pcy
from pm4py.statistics.overlap.cases.log import get as loc
from pm4py.statistics.overlap.cases.pandas import get as poc
from pm4py.statistics.overlap.interval_events.log import get as loi
from pm4py.statistics.overlap.interval_events.pandas import get as poi
from pm4py.statistics.concurrent_activities.log import get as lconc
from pm4py.statistics.concurrent_activities.pandas import get as pconc
from pm4py.statistics.service_time.log import get as lst
from pm4py.statistics.service_time.pandas import get as pst
from pm4py.statistics.rework.cases.log import get as lrw
from pm4py.statistics.rework.cases.pandas import get as prw
from pm4py.statistics.passed_time.log import algorithm as lpt
from pm4py.statistics.passed_time.pandas import algorithm as ppt
from pm4py.statistics.attributes.log import get as lat
from pm4py.statistics.attributes.pandas import get as pat
from checks.C23 import exact, T0

ID, TITLE = "C26", "Case and event statistics equal their definitions"
BOUNDS = {"quick": "all multisets of two to three cases of <=2 events with every interval [s,e] on 0..2 h (four instants for single timestamps) x every statistic x default and renamed attributes x event log, formatted and interleaved dataframe; all attribute assignments of two cases of <=2 events",
          "thorough": "three events per case, four instants"}
ASSUMPTIONS = ["intervals touching in an instant overlap (epsilon of the code); an event without start is an instant", "case duration: from the start (completion when no start attribute is given) of the first event to the completion of the last",
               "the median of an even number of durations may be the upper one", "start and end instants of cases may be floored to seconds for dataframes", "frequent segments need the prefixspan package, which is not installed; densities (kde) are not covered"]
BUDGET = {"quick": 320, "thorough": 850}
warnings.simplefilter("ignore")
STD = dict(act="concept:name", ts="time:timestamp", start="start_timestamp", case="case:concept:name")
OWN = dict(act="Act", ts="Done", start="Begin", case="Case")
H = 3600.0


def build(L, K, start):
    """L: per case a list of (activity, start hour, end hour) -> [(name, object)]"""
    log, rows = EventLog(), []
    for i, evs in enumerate(L):
        t = Trace(attributes={"concept:name": "c%d" % i})
        for a, s, e in evs:
            d = {K["act"]: a, K["ts"]: T0 + dtm.timedelta(hours=e)}
            if start:
                d[K["start"]] = T0 + dtm.timedelta(hours=s)
            t.append(Event(d))
            rows.append({K["case"]: "c%d" % i, **d})
        log.append(t)
    out = [("event log", log), ("dataframe", pd.DataFrame(rows))]
    rows = sorted(rows, key=lambda r: r.get(K["start"], r[K["ts"]]))
    r = pd.DataFrame(rows)
    r.index = range(50, 50 - len(r), -1)
    out.append(("interleaved dataframe", r))
    if K is STD:
        f = pd.DataFrame(rows)
        f = pm4py.format_dataframe(f, start_timestamp_key="start_timestamp") if start else pm4py.format_dataframe(f)
        out.append(("formatted dataframe", f))
    return out


def close(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=1e-6)
    return a == b


def same(ctx, name, rep, L, got, want):
    ctx.step()
    if not close(got, want):
        raise Violation("statistic %s differs from its definition" % name, representation=rep, got=str(got), want=str(want), log=L)


def union(iv):
    tot, cur = 0.0, None
    for s, e in sorted(iv):
        if cur is None or s > cur[1]:
            if cur:
                tot += cur[1] - cur[0]
            cur = [s, e]
        cur[1] = max(cur[1], e)
    return tot + (cur[1] - cur[0] if cur else 0)


def diffs(xs):
    xs = sorted(xs)
    return [b - a for a, b in zip(xs, xs[1:])]


def time_run(case, ctx):
    ctx.state(case)
    start, L, own = case
    K = OWN if own else STD
    L0 = L
    for rep, x in build(L, K, start):
        # formatting sorts by the completion
        L = [sorted(evs, key=lambda e: e[2]) for evs in L0] if rep.startswith("formatted") else L0
        before = exact(x)
        df = not isinstance(x, EventLog)
        P = {"pm4py:param:activity_key": K["act"], "pm4py:param:attribute_key": K["act"], "pm4py:param:timestamp_key": K["ts"]}
        if df:
            P["pm4py:param:case_id_key"] = K["case"]
        if start:
            P["pm4py:param:start_timestamp_key"] = K["start"]
        Q = dict(activity_key=K["act"], timestamp_key=K["ts"], **({"case_id_key": K["case"]} if df else {}))
        iv = {i: [(s if start else e, e) for a, s, e in evs] for i, evs in enumerate(L)}
        first = {i: v[0] for i, v in iv.items()}
        # --- durations
        # a formatted dataframe remembers its start attribute; everything else uses it only when told
        durs = {"c%d" % i: (v[-1][1] - v[0][1]) * H for i, v in iv.items()}
        sdurs = {"c%d" % i: (v[-1][1] - v[0][0]) * H for i, v in iv.items()}
        d = sdurs if rep.startswith("formatted") else durs
        same(ctx, "all case durations", rep, L, pm4py.get_all_case_durations(x, **Q), sorted(d.values()))
        for c in d:
            same(ctx, "case duration", rep, L, pm4py.get_case_duration(x, c, **Q), d[c])
        cs, ca = (pcs, pca) if df else (lcs, lca)
        d = sdurs if df else durs
        desc = cs.get_cases_description(x, parameters=dict(P))
        same(ctx, "case description", rep, L, {str(c): v["caseDuration"] for c, v in desc.items()}, d)
        same(ctx, "case description", rep, L, {str(c): v["endTime"] - T0.timestamp() for c, v in desc.items()}, {"c%d" % i: v[-1][1] * H for i, v in iv.items()})
        for key, asc in (("caseDuration", True), ("caseDuration", False)):
            p = {**P, cs.Parameters.SORT_ASCENDING: asc, cs.Parameters.MAX_RET_CASES: 2}
            p[cs.Parameters.SORT_BY_COLUMN if df else cs.Parameters.SORT_BY_INDEX] = "caseDuration" if df else 3
            same(ctx, "sorted case description", rep, L, [v["caseDuration"] for v in cs.get_cases_description(x, parameters=p).values()], sorted(d.values(), reverse=not asc)[:2])
        s = sorted(d.values())
        ctx.step()
        if not any(close(float(cs.get_median_case_duration(x, parameters=dict(P))), v) for v in (st.median(s), s[len(s) // 2])):
            raise Violation("median case duration", representation=rep, log=L)
        q1 = cs.get_first_quartile_case_duration(x, parameters=dict(P))
        if not (sum(1 for v in s if v <= q1 + 1e-6) >= len(s) / 4 and sum(1 for v in s if v >= q1 - 1e-6) >= 3 * len(s) / 4):
            raise Violation("the first quartile of the case durations is not one", representation=rep, durations=s, got=q1)
        # --- arrivals
        if len(L) > 1:
            same(ctx, "case arrival", rep, L, pm4py.get_case_arrival_average(x, **Q), st.mean(diffs([v[0][1] * H for v in iv.values()])))
            same(ctx, "case dispersion", rep, L, ca.get_case_dispersion_avg(x, parameters=dict(P)), st.mean(diffs([v[-1][1] * H for v in iv.values()])))
        # --- cycle time, overlaps, concurrency
        flat = [v for i in iv for v in iv[i]]
        same(ctx, "cycle time", rep, L, (pcy if df else lcy).apply(x, parameters=dict(P)), union(flat) * H / len(L))
        if not start:
            same(ctx, "cycle time", rep, L, pm4py.get_cycle_time(x, **Q), 0.0)
        hull = [(min(a for a, b in v), max(b for a, b in v)) for v in iv.values()]
        ov = [sum(1 for c, d_ in hull if c <= b and a <= d_) for a, b in hull]
        r = (poc if df else loc).apply(x, parameters=dict(P))
        order = list(dict.fromkeys(x[K["case"]])) if df else ["c%d" % i for i in range(len(L))]
        same(ctx, "case overlap", rep, L, dict(zip(order, r)), {"c%d" % i: v for i, v in enumerate(ov)})
        oe = Counter((a, b, sum(1 for c, d_ in flat if c <= b and a <= d_)) for a, b in flat)
        r = (poi if df else loi).apply(x, parameters=dict(P))
        rows = [(z[K["start"] if start else K["ts"]], z[K["ts"]]) for z in (x.to_dict("records") if df else [e for t in x for e in t])]
        got = Counter(((a - T0).total_seconds() / H, (b - T0).total_seconds() / H, n) for (a, b), n in zip(rows, r))
        same(ctx, "event overlap", rep, L, dict(got), dict(oe))
        for strict in (False, True):
            want = Counter()
            for i, evs in enumerate(L):
                for (x1, v1), (x2, v2) in itertools.combinations(list(zip(evs, iv[i])), 2):
                    inter = min(v1[1], v2[1]) - max(v1[0], v2[0])
                    if inter > 0 or inter == 0 and not strict:
                        want[tuple(sorted((x1[0], x2[0])))] += 1
            same(ctx, "concurrent activities", rep, L, {k: int(v) for k, v in (pconc if df else lconc).apply(x, parameters={**P, "strict": strict}).items()}, dict(want))
        # --- service time
        for agg in ("mean", "median", "min", "max", "sum"):
            by = {}
            for evs, v in zip(L, iv.values()):
                for (a, _, _), (p, q) in zip(evs, v):
                    by.setdefault(a, []).append((q - p) * H)
            want = {a: {"mean": st.mean, "median": st.median, "min": min, "max": max, "sum": sum}[agg](v) for a, v in by.items()}
            same(ctx, "service time", rep, L, pm4py.get_service_time(x, aggregation_measure=agg, **{**Q, "start_timestamp_key": K["start"] if start else K["ts"]}), want)
        # --- passed time around an activity
        for a in "ab":
            pre, post = [], []
            for evs in L0:
                # by the start of the events (dataframes are sorted by it, the given logs are in that order)
                for j in range(len(evs) - 1):
                    gap = (evs[j + 1][1 if start else 2] - evs[j][2]) * H
                    if evs[j + 1][0] == a:
                        pre.append((evs[j][0], max(gap, 0)))
                    if evs[j][0] == a:
                        post.append((evs[j + 1][0], max(gap, 0)))

            def table(z):
                return {k: [st.mean(v for q, v in z if q == k), sum(1 for q, v in z if q == k)] for k in {q for q, _ in z}}

            def avg(z):
                return st.mean(v for q, v in z) if z else 0.0
            alg = ppt if df else lpt
            for var, keys in ((alg.Variants.PRE, ("pre",)), (alg.Variants.POST, ("post",)), (alg.Variants.PREPOST, ("pre", "post"))):
                y = x.copy() if df else x
                r = alg.apply(y, a, variant=var, parameters=dict(P))
                for k in keys:
                    z = pre if k == "pre" else post
                    same(ctx, "passed time", rep, L, {q[0]: q[1:] for q in r[k]}, table(z))
                    same(ctx, "average passed time", rep, L, r[k + "_avg_perf"], avg(z))
        if exact(x) != before:
            raise Violation("computing statistics changes the log", representation=rep, before=before, after=exact(x))
    ctx.outcome("interval" if start else "instant")


def inst_gen(tier):
    n = 2 if tier == "quick" else 3
    cs = [list(t) for k in range(1, n + 1) for t in itertools.combinations_with_replacement(range(3 if k > 1 else 4), k)]
    k = 0
    for m in (1, 2, 3):
        for pick in itertools.combinations_with_replacement(cs, m):
            if m == 3 and sum(map(len, pick)) > (4 if tier == "quick" else 6):
                continue
            k += 1
            names = itertools.cycle("ab" if k % 3 else "aab")
            yield [False, [[[next(names), t, t] for t in c] for c in pick], k % 4 == 0]


def iv_gen(tier):
    ivs = [(s, e) for s in range(3) for e in range(s, 3)]
    one = [[v] for v in ivs]
    two = [[v, w] for v in ivs for w in ivs if v <= w]
    k = 0
    for pick in itertools.chain(itertools.product(two, one), itertools.combinations_with_replacement(one, 3), itertools.combinations_with_replacement(two, 2) if tier != "quick" else ((a, b) for a in two[::3] for b in two[::4])):
        k += 1
        names = itertools.cycle("ab" if k % 3 else "abb")
        yield [True, [[[next(names), s, e] for s, e in c] for c in pick], k % 3 == 0]
    for c in itertools.combinations_with_replacement(ivs, 3):
        yield [True, [[[a, s, e] for a, (s, e) in zip("aba", c)]], False]


def at_gen(tier):
    for shape in [(1, 1), (2, 1), (2, 2)]:
        for vs in itertools.product(["", "u", "v"], repeat=sum(shape)):
            if any(vs):
                yield ["str", list(shape), list(vs)]
    for w in itertools.product("ab", repeat=4):
        for cut in (1, 2, 3):
            for ck in itertools.product(["", "p", "q"], repeat=2):
                yield ["act", "".join(w), cut, list(ck)]
    for a, b in itertools.combinations_with_replacement(range(0, 24 * 800, 24 * 31 + 5), 2):
        yield ["dist", a, b]


def at_run(case, ctx):
    ctx.state(case)
    kind = case[0]
    if kind == "dist":
        ts = [T0 + dtm.timedelta(hours=case[1]), T0 + dtm.timedelta(hours=case[2]), T0 + dtm.timedelta(hours=case[2] + 30)]
        log = EventLog([Trace([Event({"concept:name": "a", "time:timestamp": t}) for t in ts], attributes={"concept:name": "c0"})])
        df = pd.DataFrame([{"case:concept:name": "c0", "concept:name": "a", "time:timestamp": t} for t in ts])
        W = dict(days_month=lambda t: t.day, months=lambda t: t.month, years=lambda t: t.year, hours=lambda t: t.hour, days_week=lambda t: ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"][t.weekday()], weeks=lambda t: t.isocalendar()[1])
        for rep, x in (("event log", log), ("dataframe", df)):
            for k, f in W.items():
                xs, ys = pm4py.statistics.attributes.log.get.get_events_distribution(x, k) if x is log else pat.get_events_distribution(x, k)
                same(ctx, "events distribution " + k, rep, [str(t) for t in ts], {(a if k == "days_week" else int(a)): int(b) for a, b in zip(xs, ys) if b}, dict(Counter(f(t) for t in ts)))
                if k == "days_week":
                    same(ctx, "order of the week days", rep, [], list(xs), ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"])
                elif list(map(int, xs)) != sorted(map(int, xs)):
                    raise Violation("the distribution is not in calendar order", kind=k, got=list(xs))
        ctx.outcome("distribution")
        return
    if kind == "str":
        it = iter(case[2])
        evs = [[{"k": v} if v else {} for v in itertools.islice(it, m)] for m in case[1]]
        names = [["a"] * m for m in case[1]]
        cattr = [{}, {}]
    else:
        names = [list(case[1][:case[2]]), list(case[1][case[2]:])]
        evs = [[{} for _ in c] for c in names]
        cattr = [{"ck": v} if v else {} for v in case[3]]
    log = EventLog([Trace([Event({"concept:name": a, "time:timestamp": T0 + dtm.timedelta(hours=2 * j + i), **d}) for j, (a, d) in enumerate(zip(n, c))], attributes={"concept:name": "c%d" % i, **cattr[i]}) for i, (n, c) in enumerate(zip(names, evs))])
    rows = [{**{"case:" + k: v for k, v in t.attributes.items()}, **dict(e)} for t in log for e in t]
    df = pd.DataFrame(rows)
    df2 = pd.DataFrame(sorted(rows, key=lambda r: r["time:timestamp"]))
    for rep, x in (("event log", log), ("dataframe", df), ("interleaved dataframe", df2)):
        before = exact(x)
        isdf = x is not log
        if kind == "str":
            same(ctx, "attribute values", rep, case, pm4py.get_event_attribute_values(x, "k"), dict(Counter(d["k"] for c in evs for d in c if d)))
            same(ctx, "attribute values once per case", rep, case, pm4py.get_event_attribute_values(x, "k", count_once_per_case=True), dict(Counter(v for c in evs for v in {d["k"] for d in c if d})))
            same(ctx, "event attributes", rep, case, sorted(a for a in pm4py.get_event_attributes(x) if not a.startswith("case:")), sorted(["concept:name", "time:timestamp", "k"]))
        else:
            same(ctx, "activities", rep, case, pm4py.get_event_attribute_values(x, "concept:name"), dict(Counter(a for n in names for a in n)))
            if any(cattr):
                same(ctx, "case attribute values", rep, case, pm4py.get_trace_attribute_values(x, "case:ck" if isdf else "ck"), dict(Counter(c["ck"] for c in cattr if c)))
                got = {a.replace("case:", "") for a in pm4py.get_trace_attributes(x)} - {"concept:name"}
                same(ctx, "case attributes", rep, case, sorted(got), ["ck"])
            for a in "abz":
                same(ctx, "activity positions", rep, case, {int(k): int(v) for k, v in pm4py.get_activity_position_summary(x, a).items()}, dict(Counter(j for n in names for j, b in enumerate(n) if a == b)))
            same(ctx, "rework cases per activity", rep, case, {k: int(v) for k, v in pm4py.get_rework_cases_per_activity(x).items()}, dict(Counter(a for n in names for a in set(n) if n.count(a) > 1)))
            same(ctx, "rework of cases", rep, case, {k: {a: int(b) for a, b in v.items()} for k, v in (prw if isdf else lrw).apply(x).items()}, {"c%d" % i: {"number_activities": len(n), "rework": len(n) - len(set(n))} for i, n in enumerate(names)})
            if isdf:
                y = x.rename(columns={"case:concept:name": "Case", "concept:name": "Act"})
                same(ctx, "rework of cases", rep, case, {k: {a: int(b) for a, b in v.items()} for k, v in prw.apply(y, parameters={prw.Parameters.CASE_ID_KEY: "Case", prw.Parameters.ACTIVITY_KEY: "Act"}).items()}, {"c%d" % i: {"number_activities": len(n), "rework": len(n) - len(set(n))} for i, n in enumerate(names)})
        if exact(x) != before:
            raise Violation("computing statistics changes the log", representation=rep, before=before, after=exact(x))
    ctx.outcome(kind)


def families(tier):
    return [("intervals", iv_gen, time_run), ("instants", inst_gen, time_run), ("attributes", at_gen, at_run)]
