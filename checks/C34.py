"""C34 organisational mining: every small log with resources, against the textbook definitions."""
import datetime as dtm, itertools, math, warnings
from collections import Counter
from mc import gen
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.organizational_mining.resource_profiles import algorithm as rp
from pm4py.algo.organizational_mining.local_diagnostics import algorithm as ld
from pm4py.algo.organizational_mining.roles import algorithm as roles_algo
from pm4py.algo.organizational_mining.roles.variants import log as roles_log
warnings.filterwarnings("ignore")

ID, TITLE = "C34", "Organizational networks and roles are exact"
BOUNDS = {"quick": "networks: all single cases of <=5 events over 3 resources, all pairs of cases of <=3 events and multiplicities; similarity and roles: all tables of counts 0..2 (3x2, 2x3, 4x2 subset) x thresholds; profiles: all pairs of cases of <=2 events over 2 resources x 2 activities x all merges in time x all windows on the half-hour; diagnostics and network analysis over all small logs",
          "thorough": "cases of <=6 events, pairs of <=4 events, counts 0..3, profiles of <=3 events"}
ASSUMPTIONS = ["every event has a resource", "tasks that touch count as overlapping in the workload", "roles: ties between equally similar pairs may be broken either way", "two constant vectors have no correlation"]
BUDGET = {"quick": 320, "thorough": 850}
T0 = dtm.datetime(2022, 3, 7, 8, 0, 0, tzinfo=dtm.timezone.utc)
RES = ["r 1", "s,t", "u"]
ACT = ["a", "b b", "c", "d"]
KEYS = {"c": "case:concept:name", "a": "concept:name", "t": "time:timestamp", "r": "org:resource", "g": "org:group", "s": "start_timestamp"}
ALT = {"c": "case:key", "a": "what", "t": "when", "r": "who", "g": "team", "s": "begin"}


def build(rows, keys=KEYS):
    """rows: (case, activity, resource, hour[, group[, start]]) in the order of the table"""
    ck = keys["c"][5:]
    log, traces, recs = EventLog(), {}, []
    for row in rows:
        c, a, r, h = row[:4]
        e = {keys["a"]: a, keys["t"]: T0 + dtm.timedelta(hours=h), keys["r"]: r}
        if len(row) > 4 and row[4] is not None:
            e[keys["g"]] = row[4]
        if len(row) > 5:
            e[keys["s"]] = T0 + dtm.timedelta(hours=row[5])
        if c not in traces:
            traces[c] = Trace(attributes={ck: c})
            log.append(traces[c])
        traces[c].append(Event(e))
        recs.append({keys["c"]: c, **e})
    return [("event log", log), ("dataframe", pd.DataFrame(recs))]


def same(ctx, name, rep, got, want, **d):
    ctx.step()
    f = lambda x, y: (math.isnan(x) and math.isnan(y)) or math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-9)
    if isinstance(want, dict):
        ok = set(got) == set(want) and all(f(got[x], want[x]) for x in want)
    else:
        ok = f(got, want)
    if not ok:
        raise Violation(name, representation=rep, got=str(got), want=str(want), **d)


# ------------------------------------------------------------------ networks over the cases
def net_gen(tier):
    k = 5 if tier == "quick" else 6
    for t in gen.traces(range(3), k, 1):
        yield [["".join(map(str, t)), 1]]
    for s, t in itertools.combinations_with_replacement(gen.traces(range(3), 3 if tier == "quick" else 4, 1), 2):
        if tier == "thorough" and len(s) + len(t) > 7:
            continue
        yield [["".join(map(str, s)), 2], ["".join(map(str, t)), 1 + (len(s) + len(t)) % 2]]
    yield [["0110", 3], ["1001", 1], ["2", 2]]


def net_run(case, ctx):
    ctx.state(str(case))
    L, rows, per = [], [], []
    for s, n in case:
        for _ in range(n):
            L.append([RES[int(x)] for x in s])
    for i, t in enumerate(L):
        per.append([("c%d" % i, ACT[j % 3], r, 10 * j + i / 100) for j, r in enumerate(t)])
    inter = len(L[0]) % 2
    rows = sorted(itertools.chain(*per), key=lambda x: x[3]) if inter else list(itertools.chain(*per))
    reps = build(rows)
    det = {"resources": L, "interleaved": bool(inter)}
    for beta in (0, 0.5, 1):
        w = Counter()
        for t in L:
            for i in range(len(t)):
                for j in range(i + 1, len(t)):
                    x = (1 if j == i + 1 else 0) if beta == 0 else beta ** (j - i - 1)
                    if x:
                        w[t[i], t[j]] += x
        tot = sum(w.values())
        for rep, x in reps:
            s = pm4py.discover_handover_of_work_network(x, beta=beta)
            same(ctx, "handover of work network", rep, s.connections, {p: v / tot for p, v in w.items()}, beta=beta, **det)
            if not s.is_directed:
                raise Violation("handover of work network is not directed")
    for n in (2, 3):
        w = Counter()
        for t in L:
            for i in range(len(t) - n):
                if t[i] == t[i + n]:
                    for j in range(i + 1, i + n):
                        w[t[i], t[j]] += 1
        for rep, x in reps:
            same(ctx, "subcontracting network", rep, pm4py.discover_subcontracting_network(x, n=n).connections, {p: v / len(L) for p, v in w.items()}, n=n, **det)
    w = Counter()
    for t in L:
        for a, b in itertools.permutations(set(t), 2):
            w[a, b] += 1
    for rep, x in reps:
        s = pm4py.discover_working_together_network(x)
        same(ctx, "working together network", rep, s.connections, {p: v / len(L) for p, v in w.items()}, **det)
        if s.is_directed:
            raise Violation("working together network is directed")
    ctx.outcome("networks")


# ------------------------------------------------------------------ activity profiles: similarity and roles
def tab_gen(tier):
    m = 3 if tier == "quick" else 4
    for R, A in ((3, 2), (2, 3)):
        for c in itertools.product(range(m), repeat=R * A):
            if tier == "quick" or sum(c) <= 11:
                yield [R, A, list(c)]
    for c in itertools.product(range(3), repeat=8):
        if (sum(c) * 7 + c[0] + 2 * c[3]) % (9 if tier == "quick" else 2) == 0:
            yield [2, 4, list(c)]


def pearson(x, y):
    mx, my = sum(x) / len(x), sum(y) / len(y)
    sx, sy = sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y)
    return sum((a - mx) * (b - my) for a, b in zip(x, y)) / math.sqrt(sx * sy) if sx and sy else float("nan")


def similarity(p, q):
    sp, sq = sum(p.values()), sum(q.values())
    ks = set(p) | set(q)
    return sum(min(p.get(k, 0) / sp, q.get(k, 0) / sq) for k in ks) / sum(max(p.get(k, 0) / sp, q.get(k, 0) / sq) for k in ks)


def ref_roles(start, thr):
    """all results of merging one most similar pair after the other while above the threshold; None when too close to call"""
    todo, seen, out = [frozenset((frozenset([a]), frozenset(c.items())) for a, c in start.items())], set(), set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        prs = [(similarity(dict(p[1]), dict(q[1])), p, q) for p, q in itertools.combinations(s, 2)]
        if any(abs(x - thr) < 1e-9 for x, _, _ in prs):
            return None
        best = max((x for x, _, _ in prs), default=0)
        if best <= thr:
            out.add(s)
            continue
        for x, p, q in prs:
            if best - x < 1e-9:
                todo.append((s - {p, q}) | {(p[0] | q[0], frozenset((Counter(dict(p[1])) + Counter(dict(q[1]))).items()))})
    return out


def tab_run(case, ctx):
    R, A, c = case
    if not any(c):
        return ctx.outcome("empty")
    ctx.state(case)
    cnt = {(i, j): c[i * A + j] for i in range(R) for j in range(A)}
    evs = [(RES[i], ACT[j]) for (i, j), n in sorted(cnt.items(), key=lambda x: (x[0][0] + x[0][1]) % 2) for _ in range(n)]
    rows = [("c%d" % (k % 2), a, r, k) for k, (r, a) in enumerate(evs)]
    reps = build(rows)
    rs, as_ = sorted({r for r, _ in evs}), sorted({a for _, a in evs})
    vec = {r: [sum(e == (r, a) for e in evs) for a in as_] for r in rs}
    if len(as_) >= 2:
        want = {(x, y): pearson(vec[x], vec[y]) for x in rs for y in rs if x != y}
        for rep, x in reps:
            s = pm4py.discover_activity_based_resource_similarity(x)
            got = {p: v for p, v in s.connections.items() if not math.isnan(v)}
            same(ctx, "activity-based resource similarity", rep, got, {p: v for p, v in want.items() if not math.isnan(v)}, profiles=vec)
            if s.is_directed:
                raise Violation("resource similarity is directed")
    prof = {a: Counter(r for r, b in evs if b == a) for a in as_}
    for thr in (None, 0.3, 0.9):
        want = ref_roles(prof, 0.65 if thr is None else thr)
        if want is None:
            ctx.outcome("similarity equal to the threshold")
            continue
        for rep, x in reps:
            ctx.step()
            got = pm4py.discover_organizational_roles(x) if thr is None else roles_algo.apply(x, variant=roles_algo.Variants.LOG if rep == "event log" else roles_algo.Variants.PANDAS, parameters={roles_log.Parameters.ROLES_THRESHOLD_PARAMETER: thr})
            g = frozenset((frozenset(r.activities), frozenset((k, v) for k, v in r.originator_importance.items() if v)) for r in got)
            if g not in want or len(got) != len(g) or sum(len(r.activities) for r in got) != len(as_):
                raise Violation("organisational roles are not those of the definition", representation=rep, profiles={a: dict(p) for a, p in prof.items()}, threshold=thr, got=[(r.activities, r.originator_importance) for r in got],
                                want=[[(sorted(a), sorted(p)) for a, p in w] for w in want])
    ctx.outcome("%d roles" % len(got))


# ------------------------------------------------------------------ resource profiles
def prof_gen(tier):
    sym = range(4)
    k = 2 if tier == "quick" else 3
    for s in gen.traces(sym, 3 if tier == "quick" else 4, 1):
        yield [["".join(map(str, s))], "0" * len(s), 0]
    for s, t in itertools.product(gen.traces(sym, k, 1), repeat=2):
        if s > t or len(s) + len(t) > 5:
            continue
        for pos in itertools.combinations(range(len(s) + len(t)), len(s)):
            if tier == "quick" and len(s) + len(t) == 4 and (s[0] + t[-1] + pos[1]) % 3:
                continue
            m = "".join("0" if i in pos else "1" for i in range(len(s) + len(t)))
            yield [["".join(map(str, s)), "".join(map(str, t))], m, (len(s) + sum(t) + pos[0]) % 3]


def mean(x):
    return sum(x) / len(x)


def prof_run(case, ctx):
    tr, m, mode = case
    ctx.state(case)
    keys = ALT if (sum(map(ord, tr[0])) + mode) % 4 == 0 else KEYS
    it = [iter(t) for t in tr]
    rows, last, h = [], {}, 0
    for k, c in enumerate(m):
        x = int(next(it[int(c)]))
        h += (1, 0, 2)[(k + mode) % 3] if mode else 1   # mode>0: events at the same instant and gaps
        case_ = "c" + c
        start = h - (k % 3) * 0.75 if mode == 2 else last.get(case_, h)
        rows.append((case_, ACT[x // 2], RES[x % 2], h, None, start))
        last[case_] = h
    H = h
    par = {"pm4py:param:case_id_key": keys["c"], "pm4py:param:activity_key": keys["a"], "pm4py:param:timestamp_key": keys["t"], "pm4py:param:resource_key": keys["r"]}
    base = dict(par) if keys is ALT else {}
    given = mode == 2
    if given:
        base["pm4py:param:start_timestamp_key"] = keys["s"]
    cases = {}
    for r in rows:
        cases.setdefault(r[0], []).append(r)
    det = {"events": [list(r) for r in rows], "start given": given}
    wins = [(a, b) for a in (0, 0.5, 1, 2, 2.5, H) for b in (1, 1.5, 2, 3, H, H + 0.5) if a <= b]
    wins = [w for i, w in enumerate(sorted(set(wins))) if (i + len(rows) + mode) % 6 == 0] + [(0, H + 1), (H, H)]
    for rep, x in build([r if given else r[:5] for r in rows], keys):
        # an event log holds its case identifier without the prefix
        p = dict(base)
        if rep == "event log" and keys is ALT:
            p["pm4py:param:case_id_key"] = keys["c"][5:]

        def call(f, *a):
            return f(x.copy() if rep == "dataframe" else x, *a, parameters=dict(p))
        for wi, (a, b) in enumerate(wins):
            ta, tb = T0 + dtm.timedelta(hours=a), T0 + dtm.timedelta(hours=b)
            if wi % 2:
                ta, tb = ta.strftime("%Y-%m-%d %H:%M:%S"), tb.strftime("%Y-%m-%d %H:%M:%S")
            inw = [r for r in rows if a <= r[3] < b]
            compl = [c for c, e in cases.items() if a <= e[-1][3] < b]
            d = dict(det, window=[a, b])
            for r in RES[:2]:
                mine = [e for e in inw if e[2] == r]
                inv = [c for c, e in cases.items() if any(y[2] == r for y in e)]
                d["resource"] = r
                same(ctx, "distinct activities of a resource", rep, call(rp.distinct_activities, ta, tb, r), len({e[1] for e in mine}), **d)
                for act in ACT[:2]:
                    same(ctx, "activity frequency of a resource", rep, call(rp.activity_frequency, ta, tb, r, act), sum(e[1] == act for e in mine) / len(mine) if mine else 0, **d)
                    z = [3600 * (e[3] - e[5]) for e in mine if e[1] == act]
                    if z:
                        same(ctx, "average duration of an activity of a resource", rep, call(rp.average_duration_activity, ta, tb, r, act), mean(z), activity=act, **d)
                same(ctx, "activity completions of a resource", rep, call(rp.activity_completions, ta, tb, r), len(mine), **d)
                done = [c for c in compl if c in inv]
                same(ctx, "case completions of a resource", rep, call(rp.case_completions, ta, tb, r), len(done), **d)
                same(ctx, "fraction of case completions of a resource", rep, call(rp.fraction_case_completions, ta, tb, r), len(done) / len(compl) if compl else 0, **d)
                iv = [(e[5], e[3]) for e in rows if e[2] == r]
                load = [sum(s2 <= e and s <= e2 for s2, e2 in iv) for s, e in iv]
                q = [(e - s, w) for (s, e), w in zip(iv, load) if s < b <= e]
                same(ctx, "average workload of a resource", rep, call(rp.average_workload, ta, tb, r), sum(u * w for u, w in q) / sum(u for u, w in q) if sum(u for u, w in q) else 0, **d)
                q = [(e - s, w) for (s, e), w in zip(iv, load) if a <= s and e <= b]
                same(ctx, "multitasking of a resource", rep, call(rp.multitasking, ta, tb, r), sum(u for u, w in q if w > 1) / sum(u for u, w in q) if sum(u for u, w in q) else 0, **d)
                z = [3600 * (cases[c][-1][3] - cases[c][0][3]) for c in inv if cases[c][0][3] <= b and cases[c][-1][3] >= a]
                if z and not given:
                    same(ctx, "average case duration of a resource", rep, call(rp.average_case_duration, ta, tb, r), mean(z), **d)
                ci = {e[0] for e in inw}
                same(ctx, "social position of a resource", rep, call(rp.social_position, ta, tb, r), len({e[0] for e in mine}) / len(ci) if ci else 0, **d)
            d.pop("resource")
            both = [c for c in compl if all(any(y[2] == r for y in cases[c]) for r in RES[:2])]
            same(ctx, "interaction of two resources", rep, call(rp.interaction_two_resources, ta, tb, RES[0], RES[1]), len(both), **d)
    ctx.outcome("profiles mode %d" % mode)


# ------------------------------------------------------------------ groups
def grp_gen(tier):
    sym = list(itertools.product(range(2), range(3), (0, 1, None)))   # activity, resource, group
    for n in (1, 2, 3):
        for e in itertools.combinations_with_replacement(range(len(sym)), n):
            if n == 3 and tier == "quick" and sum(e) % 2:
                continue
            yield [list(sym[i]) for i in e]


def grp_run(case, ctx):
    ctx.state(str(case))
    rows = [("c%d" % (i % 2), ACT[a], RES[r], i, None if g is None else "g%d" % g) for i, (a, r, g) in enumerate(case)]
    ra = Counter((r[2], r[1]) for r in rows)
    acts = {r[1] for r in rows}
    nested = lambda d: {(str(x), str(y)): v for x, m in d.items() for y, v in m.items()}

    def compare(rep, out, groups, name):
        foc, stk, cov, con = {}, {}, {}, {}
        for g, members in groups.items():
            tot = sum(n for (r, a), n in ra.items() if r in members)
            for a in acts:
                n = sum(k for (r, b), k in ra.items() if b == a and r in members)
                foc[g, a] = n / sum(k for (r, b), k in ra.items() if b == a)
                stk[g, a] = n / tot
            for r, n in members.items():
                cov[g, r] = n / sum(members.values())
                for (q, a), k in ra.items():
                    if q == r:
                        con[g, r, a] = k
        d = {"events": rows, "groups": groups, "from": name}
        same(ctx, "relative focus of a group", rep, nested(out["group_relative_focus"]), foc, **d)
        same(ctx, "relative stake of a group", rep, nested(out["group_relative_stake"]), stk, **d)
        same(ctx, "coverage of a group", rep, nested(out["group_coverage"]), cov, **d)
        same(ctx, "member contribution in a group", rep, {(g, r, a): n for g, m in out["group_member_contribution"].items() for r, x in m.items() for a, n in x.items()}, con, **d)
    gattr = {}
    for r in rows:
        if r[4] is not None:
            gattr.setdefault(r[4], Counter())[r[2]] += 1
    for rep, x in build(rows):
        if gattr:
            compare(rep, ld.apply_from_group_attribute(x), gattr, "group attribute")
        rs = sorted({r[2] for r in rows})
        n = Counter(r[2] for r in rows)
        cl = {"k": rs[:1], "l": rs[1:] or rs}
        compare(rep, ld.apply_from_clustering_or_roles(x, cl), {k: {r: n[r] for r in v} for k, v in cl.items()}, "clusters")
        rl = pm4py.discover_organizational_roles(x)
        compare(rep, ld.apply_from_clustering_or_roles(x, rl), {str(i): {r: n[r] for r in o.originator_importance} for i, o in enumerate(rl)}, "roles")
    ctx.outcome("groups")


# ------------------------------------------------------------------ network analysis
def na_gen(tier):
    sym = list(itertools.product(range(2), range(2), range(2)))   # case, resource, activity
    for n in range(1, 5):
        for e in itertools.product(range(8), repeat=n):
            if n == 4 and (e[0] or (tier == "quick" and sum(e) % 4)):
                continue
            yield [list(sym[i]) for i in e]


def na_run(case, ctx):
    ctx.state(str(case))
    rows = [("c%d" % c, ACT[a], RES[r], i * (i + 1) / 2) for i, (c, r, a) in enumerate(case)]
    perm = rows[1:] + rows[:1] if len(rows) % 2 else rows
    links = [("case:concept:name", "case:concept:name", 0, 0), ("org:resource", "concept:name", 2, 1), ("concept:name", "case:concept:name", 1, 0)]
    for rep, x in build(perm):
        for out, inn, io, ii in links:
            # values that are compared across columns are made equal by renaming
            mapping = {RES[0]: "a", RES[1]: "b b", "c0": "a", "c1": "b b"} if io != ii else {}
            if mapping and rep == "event log":
                continue
            y = x if not mapping else x.assign(**{"org:resource": x["org:resource"].map(lambda v: mapping.get(v, v)), "case:concept:name": x["case:concept:name"].map(lambda v: mapping.get(v, v))})
            R = [tuple(mapping.get(v, v) if isinstance(v, str) else v for v in r) for r in rows]
            for ref, src, tgt in (("_out", "org:resource", "org:resource"), ("_in", "org:resource", "concept:name")):
                col = {"org:resource": 2, "concept:name": 1}
                want = {}
                for i in range(len(R)):
                    for j in range(i + 1, len(R)):
                        if R[i][io] == R[j][ii]:
                            want.setdefault((R[i][col[src]], R[j][col[tgt]], R[j][1] if ref == "_in" else R[i][1]), []).append(3600 * (R[j][3] - R[i][3]))
                            break   # the first event that receives the signal
                for perf in (False, True):
                    ctx.step()
                    got = pm4py.discover_network_analysis(y, out_column=out, in_column=inn, node_column_source=src, node_column_target=tgt, edge_column="concept:name", edge_reference=ref, performance=perf)
                    g = {(*k, e): (sorted(v) if perf else v) for k, m in got.items() for e, v in m.items()}
                    w = {k: (sorted(v) if perf else len(v)) for k, v in want.items()}
                    if g != w:
                        raise Violation("network analysis does not have the links of the events", representation=rep, events=R, link=[out, inn], performance=perf, got=str(g), want=str(w))
    ctx.outcome("%d links" % sum(len(v) for v in want.values()))


def families(tier):
    return [("networks", net_gen, net_run), ("profiles of activities", tab_gen, tab_run), ("resource profiles", prof_gen, prof_run), ("groups", grp_gen, grp_run), ("network analysis", na_gen, na_run)]
