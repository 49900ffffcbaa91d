"""C15 Temporal profile: pairs, mean, deviation and conformance against the plain definition, for logs and dataframes."""
import itertools, math, sys
from datetime import datetime, timedelta, timezone
import pandas as pd
from mc.harness import Violation
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.discovery.temporal_profile import algorithm as disc
from pm4py.algo.conformance.temporal_profile import algorithm as conf

ID, TITLE = "C15", "Temporal profile discovery and conformance are exact"
BOUNDS = {"quick": "all logs of one case of <=3 events and of two cases of <=2 events over {a,b} with times from {0,1,3} h (ties included), two cases of 3 events with gaps {0,2} h; every case of <=3 intervals from {0,1,2} h; business hours: all pairs of instants around slot and weekend "
                   "boundaries with the default and two other slot lists; conformance: all profiles assigning absent/6 (mean, std) combinations to (a,b) and (b,a), zeta 0, 1, 2; event logs, dataframes, dataframes with shuffled rows, diagnostics dataframes",
          "thorough": "two cases of 3 events with times from {0,1,3} h; three cases of 2 events; intervals from {0..3} h"}
ASSUMPTIONS = ["the standard deviation is the sample standard deviation (0 for a single measurement), as in both implementations; a pair is measured when the first event completes no later than the second one starts; events of event logs are in time order"]
BUDGET = {"quick": 300, "thorough": 800}
T0 = datetime(2020, 1, 6, 8, tzinfo=timezone.utc)      # a Monday
H = timedelta(hours=1)
SLOTS = {"default": None, "mon-morning + sat": [(8 * 3600, 10 * 3600), ((5 * 24 + 9) * 3600, (5 * 24 + 11) * 3600)], "overlapping": [(9 * 3600, 12 * 3600), (7 * 3600, 10 * 3600), ((24 + 7) * 3600, (24 + 17) * 3600)]}
DEF = [((d * 24 + 7) * 3600, (d * 24 + 17) * 3600) for d in range(5)]


def ts(x):
    return T0 + x * H if isinstance(x, (int, float)) else x


def log_of(L):
    out = EventLog()
    for i, c in enumerate(L):
        t = Trace(attributes={"concept:name": "c%d" % i})
        for a, s, e in c:
            t.append(Event({"concept:name": a, "start": ts(s), "time:timestamp": ts(e)}))
        out.append(t)
    return out


def df_of(L, order=None):
    rows = [{"case:concept:name": "c%d" % i, "concept:name": a, "start": pd.Timestamp(ts(s)), "time:timestamp": pd.Timestamp(ts(e))} for i, c in enumerate(L) for a, s, e in c]
    if order == "time":
        rows.sort(key=lambda r: r["time:timestamp"])
    if order == "reversed":
        # strictly different instants only: reversing ties would change the order of the events
        rows.reverse()
    return pd.DataFrame(rows)


def business(s, e, slots):
    """seconds between s and e inside the union of the weekly slots, minute by minute is too slow: union of intervals, week by week"""
    iv = sorted(slots or DEF)
    un = []
    for b, f in iv:
        if un and b <= un[-1][1]:
            un[-1][1] = max(un[-1][1], f)
        else:
            un.append([b, f])
    s, e = s.replace(tzinfo=None), e.replace(tzinfo=None)
    mon = datetime(s.year, s.month, s.day) - timedelta(days=s.weekday())
    tot = 0.0
    while mon < e:
        for b, f in un:
            lo, hi = max(s, mon + timedelta(seconds=b)), min(e, mon + timedelta(seconds=f))
            if hi > lo:
                tot += (hi - lo).total_seconds()
        mon += timedelta(days=7)
    return tot


def pairs(c, slots=0):
    out = []
    for i in range(len(c)):
        for j in range(i + 1, len(c)):
            e, s = ts(c[i][2]), ts(c[j][1])
            if s >= e:
                out.append((c[i][0], c[j][0], (s - e).total_seconds() if slots == 0 else business(e, s, slots)))
    return out


def profile(L, slots=0):
    d = {}
    for c in L:
        for a, b, x in pairs(c, slots):
            d.setdefault((a, b), []).append(x)
    out = {}
    for k, v in d.items():
        m = sum(v) / len(v)
        out[k] = (m, math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else 0.0)
    return out


def close(x, y):
    return abs(x - y) <= 1e-6 * max(1, abs(x), abs(y))


def same_profile(got, exp):
    return set(got) == set(exp) and all(close(got[k][0], exp[k][0]) and close(got[k][1], exp[k][1]) for k in exp)


def devs(c, prof, zeta, slots=0):
    out = []
    for a, b, x in pairs(c, slots):
        if (a, b) in prof:
            m, s = prof[a, b]
            if abs(x - m) > zeta * s:
                out.append((a, b, x, abs(x - m) / s if s > 0 else sys.maxsize))
    return sorted(out)


def near(c, prof, zeta, slots=0):
    """a floating point tie between deviation and threshold"""
    for a, b, x in pairs(c, slots):
        if (a, b) in prof:
            m, s = prof[a, b]
            d = abs(abs(x - m) - zeta * s)
            if 0 < d < 1e-6 * max(1, m) or (d == 0 and (m != int(m) or s * 2 != int(s * 2))):
                return True
    return False


def same_devs(got, exp):
    g = sorted(tuple(x) for x in got)
    return len(g) == len(exp) and all(p[:2] == q[:2] and close(p[2], q[2]) and close(p[3], q[3]) for p, q in zip(g, exp))


def views(L, ctx=None):
    """(name, object, case index of each reported entry)"""
    out = [("event log", log_of(L), list(range(len(L))))]
    if any(L):
        idx = [i for i, c in enumerate(L) if c]
        out.append(("dataframe", df_of(L), idx))
        if sum(map(len, L)) > 1:
            if len(idx) > 1:
                d = df_of(L, "time")
                out.append(("dataframe sorted by time", d, [int(x[1:]) for x in d["case:concept:name"].unique()]))
            if all(len({(s, e) for _, s, e in c}) == len(c) for c in L):
                d = df_of(L, "reversed")
                out.append(("dataframe with reversed rows", d, [int(x[1:]) for x in d["case:concept:name"].unique()]))
    return out


def judge(L, ctx, interval=False, slots=0, zetas=(0, 1, 2), facade=True):
    exp = profile(L, slots)
    P = {disc.dataframe.Parameters.START_TIMESTAMP_KEY.value: "start"} if interval else {}
    if slots != 0:
        P["business_hours"] = True
        if slots is not None:
            P["business_hour_slots"] = slots
    for vn, obj, idx in views(L):
        ctx.trace()
        got = disc.apply(obj, parameters=dict(P))
        if not same_profile(got, exp):
            raise Violation("temporal profile is wrong (%s%s%s)" % (vn, ", intervals" if interval else "", ", business hours" if slots != 0 else ""), log=str(L), slots=str(slots), reported=str(got), expected=str(exp))
        if facade and not P and not same_profile(pm4py.discover_temporal_profile(obj), exp):
            raise Violation("discover_temporal_profile differs from the profile of the log (%s)" % vn, log=str(L))
        for z in zetas:
            if any(near(c, exp, z, slots) for c in L):
                continue
            res = conf.apply(obj, exp, parameters=dict(P, zeta=z))
            if len(res) != len(idx):
                raise Violation("temporal profile conformance: not one result per case (%s)" % vn, log=str(L), result=str(res))
            for i, r in zip(idx, res):
                if not same_devs(r, devs(L[i], exp, z, slots)):
                    raise Violation("temporal profile conformance is wrong (%s)" % vn, log=str(L), case=i, zeta=z, profile=str(exp), reported=str(r), expected=str(devs(L[i], exp, z, slots)))
    ctx.step(sum(len(pairs(c)) for c in L))
    ctx.outcome("%s pairs in the profile" % len(exp))


def r_points(L, ctx):
    ctx.state(str(L))
    judge(L, ctx, zetas=(0, 1))


def r_intervals(L, ctx):
    ctx.state(str(L))
    judge(L, ctx, interval=True, zetas=(0, 2))


def r_business(case, ctx):
    s, e, sn = case
    ctx.state(str(case))
    s, e = T0 + timedelta(seconds=s), T0 + timedelta(seconds=e)
    judge([[("a", s, s), ("b", e, e)], [("a", T0, T0), ("b", T0 + 2 * H, T0 + 2 * H)]], ctx, slots=SLOTS[sn], zetas=(0,))


def r_conf(case, ctx):
    L, prof = case
    ctx.state(str(case))
    prof = {(a, b): tuple(v) for a, b, v in prof}
    for vn, obj, idx in views(L):
        for z in (0, 1, 2):
            ctx.trace()
            res = pm4py.conformance_temporal_profile(obj, prof, zeta=z)
            if len(res) != len(idx):
                raise Violation("temporal profile conformance: not one result per case (%s)" % vn, log=str(L), result=str(res))
            tot = 0
            for i, r in zip(idx, res):
                e = devs(L[i], prof, z)
                tot += len(e)
                if not same_devs(r, e):
                    raise Violation("temporal profile conformance is wrong (%s)" % vn, log=str(L), case=i, zeta=z, profile=str(prof), reported=str(r), expected=str(e))
            ctx.outcome("%s deviations" % min(tot, 3))
        diag = pm4py.conformance_temporal_profile(obj, prof, zeta=2, return_diagnostics_dataframe=True)
        exp = sorted(("c%d" % i, a, b) for i in idx for a, b, _, _ in devs(L[i], prof, 2))
        got = sorted(tuple(x) for x in diag.iloc[:, :3].itertuples(index=False)) if len(diag) else []
        if got != exp:
            raise Violation("diagnostics dataframe of the temporal profile does not list the deviations (%s)" % vn, log=str(L), profile=str(prof), reported=str(got), expected=str(exp))


def cases(n, times):
    for acts in itertools.product("ab", repeat=n):
        for t in itertools.combinations_with_replacement(times, n):
            if n and t[0] != times[0]:
                continue
            yield [(a, x, x) for a, x in zip(acts, t)]


def g_points(tier):
    one = [c for n in range(0, 4) for c in cases(n, (0, 1, 3))]
    for c in one:
        yield [c]
    two = [c for n in range(0, 3) for c in cases(n, (0, 1, 3))]
    for p in itertools.combinations_with_replacement(two, 2):
        yield list(p)
    three = list(cases(3, (0, 2) if tier == "quick" else (0, 1, 3)))
    for p in itertools.combinations_with_replacement(three, 2):
        yield list(p)
    if tier != "quick":
        for p in itertools.combinations_with_replacement([c for c in two if len(c) == 2], 3):
            yield list(p)


def g_intervals(tier):
    T = (0, 1, 2) if tier == "quick" else (0, 1, 2, 3)
    ivs = [(s, e) for s in T for e in T if s <= e]
    for n in (1, 2, 3):
        for iv in itertools.combinations_with_replacement(ivs, n):
            for acts in itertools.product("ab", repeat=n):
                if n == 3 and acts[0] == "b":
                    continue
                yield [[(a, s, e) for a, (s, e) in zip(acts, iv)]]


def g_business(tier):
    h = 3600
    base = [-2, -1, 0, 1, 2, 3, 9, 10, 23, 24, 33, 95, 96 + 9, 96 + 10, 5 * 24, 5 * 24 + 1, 5 * 24 + 3, 6 * 24 + 12, 7 * 24 - 1, 7 * 24, 7 * 24 + 2, 14 * 24 + 1, 15 * 24]
    inst = [int(x * h) for x in base] + [1, -1, 9 * h - 1, 9 * h + 1]
    for s in sorted(set(inst)):
        for e in sorted(set(inst)):
            if s <= e:
                for sn in SLOTS:
                    yield [s, e, sn]


def g_conf(tier):
    ms = [None, (3600.0, 0.0), (3600.0, 1800.0), (0.0, 0.0), (7200.0, 3600.0), (10800.0, 7200.0)]
    logs = [[list(c)] for c in cases(3, (0, 1, 3)) if len({x[0] for x in c}) == 2 and c[0][0] == "a"] + [[[("a", 0, 0), ("b", 1, 1)], [("a", 0, 0), ("b", 4, 4)]], [[("b", 0, 0)], [("a", 0, 0), ("b", 6, 6)]], [[("a", 0, 0)]], [[("c", 0, 0), ("a", 3, 3)]]]
    for L in logs:
        for p, q in itertools.product(ms, repeat=2):
            yield [L, [["a", "b", p]] * bool(p) + [["b", "a", q]] * bool(q)]


def families(tier):
    return [("points", g_points, r_points), ("intervals", g_intervals, r_intervals), ("business hours", g_business, r_business), ("given profiles", g_conf, r_conf)]
