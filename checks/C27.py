"""C27 business hours: every pair of instants around the borders of every slot set, and the statistics that use them."""
import datetime as dtm, itertools, math
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.util.business_hours import BusinessHours, soj_time_business_hours_diff
from pm4py.util import constants
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.statistics.traces.generic.log import case_arrival as lca
from pm4py.statistics.service_time.log import get as lst
from pm4py.statistics.service_time.pandas import get as pst
from pm4py.algo.filtering.log.cases import case_filter as lcf
from pm4py.algo.filtering.pandas.cases import case_filter as pcf

ID, TITLE = "C27", "Business-hours durations are exact"
BOUNDS = {"quick": "all sets of <=3 of 14 slots (touching, one second apart, overlapping, nested, ending at midnight, whole days, the whole week, unsorted) x all ordered pairs of instants within a second of each slot border, day border and week border over three weeks and a year's end; statistics on all pairs of events over 9 instants",
          "thorough": "sets of <=4 slots"}
ASSUMPTIONS = ["slots begin and end within the week (0..604800 seconds)", "both instants carry the same time zone; wall-clock time counts", "case arrival averages of dataframes have no business-hours option"]
BUDGET = {"quick": 320, "thorough": 850}
D, W = 86400, 604800
POOL = [(7 * 3600, 17 * 3600), (17 * 3600, 18 * 3600), (17 * 3600 + 1, 19 * 3600), (8 * 3600, 9 * 3600), (16 * 3600, 24 * 3600), (0, D), (D, D + 3600), (D - 1, D), (5 * D + 7 * 3600, 6 * D + 1800),
        (6 * D, W), (W - 1, W), (0, 1), (0, W), (2 * D + 0.5, 2 * D + 1.25)]
MON = dtm.datetime(2019, 12, 23)   # a Monday, the year ends in the second week


def week_measure(slots, x):
    """length of the business time within [MON, MON + x seconds], by an elementary decomposition of the week"""
    cuts = sorted({0, W} | {c for s in slots for c in s})
    k, r = divmod(x, W)
    tot = 0
    for a, b in zip(cuts, cuts[1:]):
        if any(s <= a and b <= e for s, e in slots):
            tot += k * (b - a) + max(0, min(r, b) - a)
    return tot


def gen_sets(tier):
    for n in range(0, 4 if tier == "quick" else 5):
        for c in itertools.combinations(range(len(POOL)), n):
            yield list(c)
    yield "default"


def run_set(case, ctx):
    ctx.state(str(case))
    slots = list(constants.DEFAULT_BUSINESS_HOUR_SLOTS) if case == "default" else [POOL[i] for i in reversed(case)]
    pts = set()
    for c in {c for s in slots for c in s} | {0, D, 3 * D + 12 * 3600}:
        for d in (-1, 0, 1):
            for k in (0, 1, 2):
                if 0 <= c + d + k * W:
                    pts.add(c + d + k * W)
    pts = sorted(pts)
    if len(pts) > 34:
        mid = [p for p in pts if W <= p < 2 * W]
        pts = sorted(set(pts[:14] + mid[::2] + pts[-10:]))
    pts += [p + 0.25 for p in pts[::9]]
    for i, a in enumerate(pts):
        for b in pts:
            if b < a and (a + b) % 5:
                continue
            x, y = MON + dtm.timedelta(seconds=a), MON + dtm.timedelta(seconds=b)
            if i % 3 == 1:
                x, y = x.replace(tzinfo=dtm.timezone.utc), y.replace(tzinfo=dtm.timezone.utc)
            elif i % 3 == 2:
                z = dtm.timezone(dtm.timedelta(hours=5, minutes=30))
                x, y = pd.Timestamp(x.replace(tzinfo=z)), pd.Timestamp(y.replace(tzinfo=z))
            want = max(0, week_measure(slots, b) - week_measure(slots, a))
            ctx.step()
            got = BusinessHours(x, y, business_hour_slots=[tuple(s) for s in slots]).get_seconds() if case != "default" or i % 2 else BusinessHours(x, y).get_seconds()
            if not math.isclose(got, want, abs_tol=1e-5):
                raise Violation("business-hours duration is not the length of the intersection with the slots", slots=slots, start=str(x), end=str(y), got=got, want=want)
            if (i + b) % 7 == 0:
                got = soj_time_business_hours_diff(x, y, slots)
                if not math.isclose(got, want, abs_tol=1e-5):
                    raise Violation("business-hours difference is not the length of the intersection with the slots", slots=slots, start=str(x), end=str(y), got=got, want=want)
    ctx.outcome("slots")


INST = [6 * 3600, 7 * 3600, 12 * 3600, 17 * 3600 + 1, D + 8 * 3600, 5 * D + 12 * 3600, 6 * D + 3600, W + 7 * 3600 + 30, 2 * W + 3 * D]
SETS = [[(7 * 3600, 17 * 3600), (D + 7 * 3600, D + 12 * 3600)], [(5 * D, 6 * D), (0, D), (D + 3600, D + 7200)], []]


def stat_gen(tier):
    for k in range(len(SETS)):
        for a, b in itertools.combinations_with_replacement(range(len(INST)), 2):
            yield [k, [[a, b]], "pair"]
        for a, b, c in itertools.combinations(range(len(INST)), 3):
            if tier != "quick" or (a + b + c) % 3 == 0:
                yield [k, [[a, b], [c]], "two"]
                yield [k, [[a], [c]], "single"]


def stat_run(case, ctx):
    ctx.state(case)
    k, L, _ = case
    slots = SETS[k]
    m = lambda a, b: week_measure(slots, INST[b]) - week_measure(slots, INST[a])
    t = lambda i: MON.replace(tzinfo=dtm.timezone.utc) + dtm.timedelta(seconds=INST[i])
    log, rows = EventLog(), []
    for j, c in enumerate(L):
        tr = Trace(attributes={"concept:name": "c%d" % j})
        for n, i in enumerate(c):
            d = {"concept:name": "ab"[n], "time:timestamp": t(i), "start_timestamp": t(c[n - 1] if n else c[0])}
            tr.append(Event(d))
            rows.append({"case:concept:name": "c%d" % j, **d})
        log.append(tr)
    df = pd.DataFrame(rows)

    def same(name, rep, got, want):
        ctx.step()
        ok = set(got) == set(want) and all(math.isclose(got[x], want[x], abs_tol=1e-5) for x in want) if isinstance(want, dict) else len(got) == len(want) and all(math.isclose(a, b, abs_tol=1e-5) for a, b in zip(got, want))
        if not ok:
            raise Violation("%s in business hours" % name, representation=rep, slots=slots, log=[[str(t(i)) for i in c] for c in L], got=str(got), want=str(want))
    for rep, x in (("event log", log), ("dataframe", df.copy())):
        isdf = rep == "dataframe"
        same("case durations", rep, pm4py.get_all_case_durations(x, business_hours=True, business_hour_slots=slots), sorted(m(c[0], c[-1]) for c in L))
        for j, c in enumerate(L):
            same("case duration", rep, [pm4py.get_case_duration(x, "c%d" % j, business_hours=True, business_hour_slots=slots)], [m(c[0], c[-1])])
        dfg, _, _ = pm4py.discover_performance_dfg(x, business_hours=True, business_hour_slots=slots) if not isdf else pm4py.discover_performance_dfg(x.drop(columns=["start_timestamp"]), business_hours=True, business_hour_slots=slots)
        same("performance of directly-follows pairs", rep, {p: (v["mean"] if isinstance(v, dict) else v) for p, v in dfg.items()}, {("a", "b"): m(*c) for c in L if len(c) == 2})
        M = pst if isdf else lst
        st = {}
        for c in L:
            for n, i in enumerate(c):
                st.setdefault("ab"[n], []).append(m(c[n - 1] if n else c[0], i))
        same("service time", rep, M.apply(x.copy() if isdf else x, parameters={M.Parameters.START_TIMESTAMP_KEY: "start_timestamp", M.Parameters.BUSINESS_HOURS: True, M.Parameters.BUSINESS_HOUR_SLOTS: slots, M.Parameters.AGGREGATION_MEASURE: "sum"}), {a: sum(v) for a, v in st.items()})
        F = pcf if isdf else lcf
        if isdf and len(L[0]) == 2:
            d = m(*L[0])
            for lo, hi in ((d, d), (d + 1, 1e9), (0, d - 1), (0, 1e9)):
                r = F.filter_on_case_performance(x, min_case_performance=lo, max_case_performance=hi, business_hours=True, business_hours_slots=slots)
                if ("c0" in set(r["case:concept:name"])) != (lo <= d <= hi):
                    raise Violation("case duration filter in business hours", slots=slots, log=L, bounds=[lo, hi], duration=d)
    if len(L) == 2:
        a, b = sorted((L[0][0], L[1][0]))
        same("case arrival", "event log", [lca.get_case_arrival_avg(log, parameters={lca.Parameters.BUSINESS_HOURS: True, lca.Parameters.BUSINESS_HOUR_SLOTS: slots})], [m(a, b)])
    ctx.outcome("statistics")


def families(tier):
    return [("slots", gen_sets, run_set), ("statistics", stat_gen, stat_run)]
