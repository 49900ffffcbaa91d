"""C16 DFG, performance DFG, EFG, start/end activities, triples and minimum self distances against a plain walk of each case, in every representation."""
import itertools, math, statistics
from collections import Counter
from datetime import datetime, timedelta, timezone
import pandas as pd
from mc import gen
from mc.harness import Violation
import pm4py
from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
from pm4py.algo.discovery.dfg import algorithm as dfg_algo
from pm4py.algo.discovery.dfg.variants import performance as perf_variant
from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics, freq_triples
from pm4py.statistics.eventually_follows.log import get as efg_log
from pm4py.statistics.eventually_follows.pandas import get as efg_df
from pm4py.util import constants, xes_constants
from checks.C15 import business, SLOTS

ID, TITLE = "C16", "Directly-follows and eventually-follows graphs count exactly"
BOUNDS = {"quick": "all logs of 1..2 traces of length <=3 over {a,b} (3 traces of length <=2), single traces of length <=5 over {a,b} and <=4 over {a,b,c}, two traces of length <=2 over {a,b,c}; each as event log, event stream, dataframe grouped by case, every interleaving of the cases (logs of <=5 events), "
                   "equal timestamps, reversed case order, foreign index and column names; timed: 1..2 cases of <=3 intervals with every aggregation; business hours",
          "thorough": "logs of 3 traces of length <=3 over {a,b}, single traces of length <=6, interleavings of logs of <=6 events"}
ASSUMPTIONS = ["the standard deviation of a single measurement may be reported as 0 or as missing; durations of overlapping events count as 0 when start timestamps are given; events of event logs are in time order"]
BUDGET = {"quick": 300, "thorough": 800}
T0 = datetime(2020, 1, 6, 8, tzinfo=timezone.utc)
H = timedelta(hours=1)
CI, ACT, TS = "case:concept:name", "concept:name", "time:timestamp"
NAMES = ["c1", "c10", "b2", "c2"]


def ref_graphs(L):
    dfg, efg, first, tri = Counter(), Counter(), Counter(), Counter()
    for w in L:
        for i in range(len(w) - 1):
            dfg[w[i], w[i + 1]] += 1
            first[w[i], w[i + 1]] += 1
            for j in range(i + 1, len(w)):
                efg[w[i], w[j]] += 1
        for i in range(len(w) - 2):
            tri[tuple(w[i:i + 3])] += 1
    sa, ea = Counter(w[0] for w in L if w), Counter(w[-1] for w in L if w)
    msd, wit = {}, {}
    for w in L:
        for i in range(len(w)):
            for j in range(i + 1, len(w)):
                if w[i] == w[j]:
                    msd[w[i]] = min(msd.get(w[i], 99), j - i - 1)
                    break
    for a, d in msd.items():
        if d > 0:
            wit[a] = {x for w in L for i in range(len(w)) if i + d + 1 < len(w) and w[i] == a == w[i + d + 1] for x in w[i + 1:i + d + 1]}
    return dict(dfg=dict(dfg), efg=dict(efg), first=dict(first), tri=dict(tri), sa=dict(sa), ea=dict(ea), msd=msd, wit=wit)


def rows_of(L, order=None, times=None):
    """order: list of case indices, one per event"""
    pos, rows = [0] * len(L), []
    order = order or [i for i, w in enumerate(L) for _ in w]
    for k, i in enumerate(order):
        rows.append({CI: NAMES[i], ACT: L[i][pos[i]], TS: pd.Timestamp(T0 + (k if times is None else times) * H)})
        pos[i] += 1
    return rows


def el_of(L):
    log = EventLog()
    k = 0
    for i, w in enumerate(L):
        t = Trace(attributes={ACT: NAMES[i]})
        for x in w:
            t.append(Event({ACT: x, TS: T0 + k * H}))
            k += 1
        log.append(t)
    return log


def merges(L):
    return sorted(set(itertools.permutations([i for i, w in enumerate(L) for _ in w]))) if sum(map(len, L)) <= 6 else []


def judge(L, E, obj, rep, ctx, full=True):
    ctx.trace()
    isdf = isinstance(obj, pd.DataFrame)
    kw = {}
    if rep == "own column names":
        kw = dict(case_id_key="K", activity_key="A", timestamp_key="T")

    def chk(what, got, exp):
        if not isinstance(got, dict) and not hasattr(got, "items") or {k: v for k, v in got.items() if v} != exp if what not in ("minimum self distance",) else dict(got) != exp:
            raise Violation("%s is wrong (%s)" % (what, rep), log=L, reported=str(got), expected=str(exp), order=str([tuple(r) for r in obj.itertuples(index=False)]) if isdf else "")
    dfg, sa, ea = pm4py.discover_dfg(obj, **kw)
    chk("directly-follows graph", dfg, E["dfg"])
    chk("start activities of the directly-follows graph", sa, E["sa"])
    chk("end activities of the directly-follows graph", ea, E["ea"])
    if isdf:
        d = pm4py.discover_dfg_typed(obj, **kw)
        chk("typed directly-follows graph", d.graph, E["dfg"])
        chk("start activities of the typed graph", d.start_activities, E["sa"])
        chk("end activities of the typed graph", d.end_activities, E["ea"])
    if not full:
        return
    chk("eventually-follows graph", pm4py.discover_eventually_follows_graph(obj, **kw), E["efg"])
    chk("start activities", pm4py.get_start_activities(obj, **kw), E["sa"])
    chk("end activities", pm4py.get_end_activities(obj, **kw), E["ea"])
    chk("minimum self distance", pm4py.get_minimum_self_distances(obj, **kw), E["msd"])
    got = pm4py.get_minimum_self_distance_witnesses(obj, **kw)
    if {k: set(v) for k, v in got.items()} != E["wit"]:
        raise Violation("minimum self distance witnesses are wrong (%s)" % rep, log=L, reported=str(got), expected=str(E["wit"]))
    if not kw:
        chk("directly-follows graph (algorithm)", dfg_algo.apply(obj), E["dfg"])
        chk("frequency of triples", dfg_algo.apply(obj, variant=dfg_algo.Variants.FREQ_TRIPLES), E["tri"])
        m = efg_df if isdf else efg_log
        chk("eventually-follows graph (first following only)", m.apply(obj, parameters={m.Parameters.KEEP_FIRST_FOLLOWING: True}), E["first"])
        if isdf:
            chk("frequency of triples (dataframe)", freq_triples.get_freq_triples(obj), E["tri"])
            for win in (2,):
                exp = Counter((w[i], w[i + win]) for w in L for i in range(len(w) - win))
                chk("directly-follows graph with window", df_statistics.get_dfg_graph(obj.copy(), window=win), dict(exp))
            once = Counter(p for w in L for p in set(zip(w, w[1:])))
            chk("directly-follows graph counted once per case", df_statistics.get_dfg_graph(obj.copy(), keep_once_per_case=True), dict(once))
        else:
            N = dfg_algo.native
            exp = Counter((w[i], w[i + 2]) for w in L for i in range(len(w) - 2))
            chk("directly-follows graph with window", N.apply(pm4py.convert_to_event_log(obj), parameters={N.Parameters.WINDOW: 2}), dict(exp))
            chk("directly-follows graph counted once per case", N.apply(pm4py.convert_to_event_log(obj), parameters={N.Parameters.KEEP_ONCE_PER_CASE: True}), dict(Counter(p for w in L for p in set(zip(w, w[1:])))))


def r_logs(case, ctx):
    L, inter = case
    ctx.state(L)
    ctx.step(sum(map(len, L)))
    E = ref_graphs(L)
    judge(L, E, el_of(L), "event log", ctx)
    # case attributes on edges
    exp = {}
    for i, w in enumerate(L):
        for p in zip(w, w[1:]):
            exp.setdefault(p, {ACT: Counter()})[ACT][NAMES[i]] += 1
    got = dfg_algo.apply(el_of(L), variant=dfg_algo.Variants.CASE_ATTRIBUTES)
    if {k: {a: dict(c) for a, c in v.items()} for k, v in exp.items()} != got:
        raise Violation("directly-follows graph with case attributes is wrong", log=L, reported=str(got))
    if any(L):
        rows = rows_of(L)
        base = pd.DataFrame(rows)
        judge(L, E, base.copy(), "dataframe", ctx)
        judge(L, E, EventStream([dict(r) for r in rows]), "event stream", ctx, full=False)
        judge(L, E, pd.DataFrame(rows_of(L, times=0)), "dataframe with equal timestamps", ctx)
        d = base.copy()
        d.index = [5] * len(d)
        judge(L, E, d, "dataframe with repeated index labels", ctx, full=len(L) == 1)
        d = base.rename(columns={CI: "K", ACT: "A", TS: "T"})
        judge(L, E, d, "own column names", ctx)
        if len(L) > 1:
            d = pd.DataFrame(rows_of(L, order=[i for i in reversed(range(len(L))) for _ in L[i]]))
            judge(L, E, d, "dataframe with reversed case order", ctx)
        if inter:
            for m in merges(L):
                if list(m) != sorted(m):
                    judge(L, E, pd.DataFrame(rows_of(L, order=list(m))), "dataframe with interleaved cases", ctx, full=len(m) <= 4)
    ctx.outcome("%d relations" % len(E["dfg"]))


AGG = {"mean": statistics.mean, "median": statistics.median, "min": min, "max": max, "sum": sum, "stdev": lambda v: statistics.stdev(v) if len(v) > 1 else 0.0}


def perf(L, slots=0):
    d = {}
    for c in L:
        for p, q in zip(c, c[1:]):
            e, s = T0 + p[2] * H, T0 + q[1] * H
            v = max(0.0, (s - e).total_seconds()) if slots == 0 else business(e, max(e, s), slots)
            d.setdefault((p[0], q[0]), []).append(v)
    return d


def num(x, y, name):
    if name == "stdev" and y == 0 and (x is None or x != x):
        return True
    return x == x and abs(x - y) <= 1e-6 * max(1, abs(y))


def timed(L, point):
    log, rows = EventLog(), []
    for i, c in enumerate(L):
        t = Trace(attributes={ACT: NAMES[i]})
        for a, s, e in c:
            ev = {ACT: a, TS: T0 + e * H}
            if not point:
                ev["begin"] = T0 + s * H
            t.append(Event(ev))
            rows.append(dict(ev, **{CI: NAMES[i]}))
        log.append(t)
    df = pd.DataFrame(rows)
    for c in (TS, "begin"):
        if c in df.columns:
            df[c] = pd.to_datetime(df[c], utc=True)
    return log, df


def r_perf(case, ctx):
    L, point = case
    ctx.state(str(case))
    ctx.step(sum(map(len, L)))
    exp = perf(L)
    log, df = timed(L, point)
    objs = [("event log", log), ("dataframe", df), ("dataframe sorted by time", df.sort_values(TS, kind="stable"))] if len(df) else [("event log", log)]
    sk = {} if point else {constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY: "begin"}
    for on, obj in objs:
        ctx.trace()
        isdf = on != "event log"
        if point:
            got = pm4py.discover_performance_dfg(obj.copy() if isdf else obj)
            if set(got[0]) != set(exp) or not all(num(got[0][k][m], f(exp[k]), m) for k in exp for m, f in AGG.items()):
                raise Violation("performance directly-follows graph is wrong (%s)" % on, log=str(L), reported=str(got[0]), durations=str(exp))
            if dict(got[1]) != dict(Counter(c[0][0] for c in L if c)) or dict(got[2]) != dict(Counter(c[-1][0] for c in L if c)):
                raise Violation("start/end activities of the performance graph are wrong (%s)" % on, log=str(L))
        for m, f in AGG.items():
            got = dfg_algo.apply(obj.copy() if isdf else obj, variant=dfg_algo.Variants.PERFORMANCE, parameters=dict(sk, **{perf_variant.Parameters.AGGREGATION_MEASURE.value: m}))
            if set(got) != set(exp) or not all(num(got[k], f(exp[k]), m) for k in exp):
                raise Violation("performance directly-follows graph: aggregation %s is wrong (%s)" % (m, on), log=str(L), aggregation=m, reported=str(dict(got)), durations=str(exp))
        if isdf:
            got = df_statistics.get_dfg_graph(obj.copy(), measure="performance", perf_aggregation_key="raw_values", start_timestamp_key=None if point else "begin")
        else:
            got = dfg_algo.apply(obj, variant=dfg_algo.Variants.PERFORMANCE, parameters=dict(sk, **{perf_variant.Parameters.AGGREGATION_MEASURE.value: "raw_values"}))
        if {k: sorted(v) for k, v in got.items()} != {k: sorted(v) for k, v in exp.items()}:
            raise Violation("performance directly-follows graph: raw values are wrong (%s)" % on, log=str(L), reported=str(dict(got)), durations=str(exp))
        if not point:
            ef = Counter((c[i][0], c[j][0]) for c in L for i in range(len(c)) for j in range(i + 1, len(c)) if c[i][2] <= c[j][1])
            first = Counter(next((c[i][0], c[j][0]) for j in range(i + 1, len(c)) if c[i][2] <= c[j][1]) for c in L for i in range(len(c)) if any(c[i][2] <= c[j][1] for j in range(i + 1, len(c))))
            mod = efg_df if isdf else efg_log
            got = mod.apply(obj.copy() if isdf else obj, parameters=dict(sk))
            if dict(got) != dict(ef):
                raise Violation("eventually-follows graph of an interval log is wrong (%s)" % on, log=str(L), reported=str(got), expected=str(ef))
            got = mod.apply(obj.copy() if isdf else obj, parameters=dict(sk, **{mod.Parameters.KEEP_FIRST_FOLLOWING.value: True}))
            if dict(got) != dict(first):
                raise Violation("eventually-follows graph (first following only) of an interval log is wrong (%s)" % on, log=str(L), reported=str(got), expected=str(first))
    ctx.outcome("%d timed relations" % len(exp))


def r_business(case, ctx):
    L, sn = case
    ctx.state(str(case))
    exp = perf(L, SLOTS[sn])
    log, df = timed(L, True)
    kw = dict(business_hours=True)
    if SLOTS[sn] is not None:
        kw["business_hour_slots"] = SLOTS[sn]
    for on, obj in (("event log", log), ("dataframe", df)):
        ctx.trace()
        got = pm4py.discover_performance_dfg(obj, **kw)[0]
        if set(got) != set(exp) or not all(num(got[k][m], f(exp[k]), m) for k in exp for m, f in AGG.items()):
            raise Violation("performance directly-follows graph in business hours is wrong (%s)" % on, log=str(L), slots=sn, reported=str(got), durations=str(exp))
    ctx.outcome("business hours")


def g_logs(tier):
    seen = set()

    def emit(L, inter):
        k = (tuple(map(tuple, L)))
        if k not in seen:
            seen.add(k)
            yield [[list(w) for w in L], inter]
    for n in range(0, (6 if tier == "quick" else 7)):
        for w in itertools.product("ab", repeat=n):
            yield from emit([w], False)
    for n in range(0, 5 if tier == "quick" else 6):
        for w in itertools.product("abc", repeat=n):
            yield from emit([w], False)
    ab = [w for n in range(0, 4) for w in itertools.product("ab", repeat=n)]
    for p in itertools.combinations_with_replacement(ab, 2):
        yield from emit(p, sum(map(len, p)) <= 5)
    ab2 = [w for w in ab if len(w) <= (2 if tier == "quick" else 3)]
    for p in itertools.combinations_with_replacement(ab2, 3):
        yield from emit(p, sum(map(len, p)) <= 4)
    abc = [w for n in range(1, 3) for w in itertools.product("abc", repeat=n)]
    for p in itertools.combinations_with_replacement(abc, 2):
        yield from emit(p, tier != "quick")


def cases(n, times, point):
    ivs = [(t, t) for t in times] if point else [(s, e) for s in times for e in times if s <= e]
    for iv in itertools.combinations_with_replacement(ivs, n):
        for acts in itertools.product("ab", repeat=n):
            yield [(a, s, e) for a, (s, e) in zip(acts, iv)]


def g_perf(tier):
    for n in (0, 1, 2, 3):
        for c in cases(n, (0, 1, 3), True):
            yield [[c], True]
    for p in itertools.combinations_with_replacement(list(cases(2, (0, 1, 3), True)), 2):
        yield [list(p), True]
    for n in (1, 2, 3):
        for c in cases(n, (0, 1, 2), False):
            if n < 3 or c[0][0] == "a" or tier != "quick":
                yield [[c], False]
    two = [c for c in cases(2, (0, 1, 2), False) if tier != "quick" or c[0][0] == "a"]
    for p in itertools.combinations_with_replacement(two, 2):
        if tier != "quick" or p[0][1][0] == "b":
            yield [list(p), False]


def g_business(tier):
    inst = [-2, 0, 1, 3, 9, 23, 33, 95, 106, 121, 167, 170, 14 * 24 + 1]
    for s in inst:
        for e in inst:
            if s <= e:
                for sn in SLOTS:
                    yield [[[("a", s, s), ("b", e, e)], [("a", 0, 0), ("b", 30, 30), ("a", 100, 100)]], sn]


def families(tier):
    return [("logs", g_logs, r_logs), ("performance", g_perf, r_perf), ("business hours", g_business, r_business)]
