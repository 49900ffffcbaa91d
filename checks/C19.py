"""C19 heuristics miner: nodes, arcs, measures and bindings of the heuristics net against the published formulas; language of its Petri-net conversion against the bindings."""
import itertools
from collections import Counter
from datetime import datetime, timedelta, timezone
from mc import gen, ref
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.algo.discovery.heuristics.variants import classic, plusplus
from pm4py.algo.discovery.heuristics import algorithm as heu_algo
from pm4py.objects.conversion.heuristics_net import converter as heu_conv
from pm4py.algo.discovery.causal import algorithm as causal_algorithm
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.util import constants, xes_constants
from checks.C09 import mk_log, mk_df

ID, TITLE = "C19", "Heuristics miner measures and thresholds are exact"
BOUNDS = {"quick": "all weighted directly-follows graphs over {a,b} with counts 0..3 and single-loop variants, all 0/1/3-weighted graphs over {a,b,c} without a,a loops (canonical), every log of <=2 traces of length <=4 over {a,b,c} (canonical) and <=5 over {a,b}; "
                   "dependency thresholds {0,.5,.51,.8}, and-threshold {0.3,.65}, loop thresholds {.5,.67}, minimum counts {1,2}; logs of <=3 timed intervals for the ++ variant",
          "thorough": "0/1/3/25-weighted graphs over {a,b,c}, logs of 2 traces of length <=5 and 3 traces of length <=4"}
ASSUMPTIONS = ["an activity without any arc may be left out of the heuristics net, unless no arc exists at all, in which case all activities are nodes",
               "the ++ variant (which has no published formula) is held to the definitions in its documentation: dependency (v1-v2)/(v1+v2+concurrency) above the threshold, over first-following counts",
               "an arc pair added for a length-two loop carries dependency value 0; when only one direction meets the minimum arc count the pair may or may not be added"]
BUDGET = {"quick": 280, "thorough": 800}
T0 = datetime(2020, 1, 6, 8, tzinfo=timezone.utc)
H = timedelta(hours=1)
CI, ACT, TS, ST = "case:concept:name", "concept:name", "time:timestamp", "start_timestamp"


def expect(dfg, occ, tri, sa, ea, th, ath, lth, mina=1, mind=1):
    """-> arcs {(a,b): (dep, freq)}, optional arcs, nodes"""
    D = {k: v for k, v in dfg.items() if v > 0}
    f = lambda x, y: D.get((x, y), 0)
    dep = lambda x, y: f(x, x) / (f(x, x) + 1) if x == y else (f(x, y) - f(y, x)) / (f(x, y) + f(y, x) + 1)
    okn = {x for x, c in occ.items() if c >= mina}
    arcs, opt = {}, {}
    for (x, y), v in D.items():
        if x in okn and y in okn and v >= mind and dep(x, y) >= th:
            arcs[x, y] = (dep(x, y), v)
    base = dict(arcs)
    for (x, y) in {(p[0], p[1]) for p in tri if p[0] == p[2] != p[1]}:
        v = tri.get((x, y, x), 0) + tri.get((y, x, y), 0)
        if x in okn and y in okn and v / (v + 1) >= lth and f(x, y) > 0 and not dep(x, y) >= th and not dep(y, x) >= th:
            oks = [f(x, y) >= mind, f(y, x) >= mind]
            for e in ((x, y), (y, x)):
                if all(oks):
                    arcs[e] = (0, f(*e))
                elif any(oks):
                    opt[e] = (0, f(*e))
    return base, arcs, opt


def measures(D, arcs, ath, direction):
    """{x: {frozenset pair: value}} of the AND measures at the outputs (inputs) of x, arcs with a dependency only"""
    f = lambda x, y: D.get((x, y), 0)
    R = {}
    for x in {e[direction] for e in arcs}:
        oth = sorted(e[1 - direction] for e in arcs if e[direction] == x)
        for p, q in itertools.combinations(oth, 2):
            d = (f(x, p) + f(x, q)) if direction == 0 else (f(p, x) + f(q, x))
            v = (f(p, q) + f(q, p)) / (d + 1)
            if v >= ath:
                R.setdefault(x, {})[frozenset((p, q))] = v
    return R


def cliques(nodes, edges):
    sets = [frozenset(c) for n in range(1, len(nodes) + 1) for c in itertools.combinations(sorted(nodes), n) if all(frozenset(p) in edges for p in itertools.combinations(c, 2))]
    return [c for c in sets if not any(c < d for d in sets)]


def facts(hn):
    nodes = {n.node_name if hasattr(n, "node_name") else n: v for n, v in hn.nodes.items()}
    out, inn = {}, {}
    for name, n in nodes.items():
        if n.node_name != name:
            raise Violation("node stored under a foreign name", name=name)
        for o, es in n.output_connections.items():
            if nodes.get(o.node_name) is not o or len(es) != 1 or es[0].start_node is not n or es[0].end_node is not o:
                raise Violation("output connection is not a single edge to a node of the net", frm=name, to=o.node_name, edges=len(es))
            out[name, o.node_name] = (es[0].dependency_value, es[0].dfg_value, es[0].repr_value)
        for o, es in n.input_connections.items():
            inn[o.node_name, name] = tuple(es[0].dfg_value if i == 1 else (es[0].dependency_value if i == 0 else es[0].repr_value) for i in range(3))
    return nodes, out, inn


def near(a, b):
    return abs(a - b) < 1e-9


def am(nodes, attr):
    R = {}
    for x, n in nodes.items():
        for p, d in getattr(n, attr).items():
            for q, v in d.items():
                R.setdefault(x, {})[frozenset((p, q))] = v
    return R


def judge(hn, dfg, occ, tri, sa, ea, par, ctx, how, perf=None):
    th, ath, lth, mina, mind = par
    base, arcs, opt = expect(dfg, occ, tri, sa, ea, th, ath, lth, mina, mind)
    nodes, out, inn = facts(hn)
    if set(out) - set(arcs) - set(opt) or set(arcs) - set(out):
        raise Violation("the arcs of the heuristics net are not exactly the dependencies meeting the thresholds", how=how, got=sorted(map(str, out)), expected=sorted(map(str, arcs)), optional=sorted(map(str, opt)))
    full = dict(opt)
    full.update(arcs)
    for e, (d, v, r) in out.items():
        if not near(d, full[e][0]) or v != full[e][1]:
            raise Violation("dependency measure or frequency of an arc differs from the formula", how=how, arc=str(e), got=[d, v], expected=full[e])
        if perf is None and r != full[e][1] or perf is not None and not near(r, perf[e]):
            raise Violation("decoration of an arc differs", how=how, arc=str(e), got=r)
    if set(inn) != set(out) or any(inn[e][1] != out[e][1] or not near(inn[e][0], out[e][0]) for e in out):
        raise Violation("input and output connections of the heuristics net disagree", how=how, inputs=str(inn), outputs=str(out))
    en = {x for e in out for x in e} or set(occ)
    if set(nodes) - (en | {x for x, c in occ.items() if c >= mina}) or en - set(nodes):
        raise Violation("the nodes of the heuristics net are not the activities of its arcs", how=how, got=sorted(nodes), expected=sorted(en))
    for x, n in nodes.items():
        if n.node_occ != occ[x]:
            raise Violation("occurrence count of a node differs", how=how, node=x, got=n.node_occ, expected=occ[x])
    for k, attr in ((0, "and_measures_out"), (1, "and_measures_in")):
        e, g = measures(dfg, base, ath, k), am(nodes, attr)
        if {x: set(v) for x, v in e.items()} != {x: set(v) for x, v in g.items()} or any(not near(e[x][p], g[x][p]) for x in e for p in e[x]):
            raise Violation("AND measures differ from the formula", how=how, which=attr, got=str(g), expected=str(e))
    ctx.step(len(out) + 1)
    ctx.outcome("arcs=%d loops2=%d" % (len(out), (len(out) - len([e for e in out if e in base])) // 2))
    return out


def bind_net(hn, sa, ea):
    """reference net of a heuristics net: one place per arc, XOR between bindings (maximal AND cliques and the remaining single arcs), start and end as bindings"""
    nodes, out, inn = facts(hn)
    tr = []
    for x in nodes:
        ins, outs = [e[0] for e in out if e[1] == x], [e[1] for e in out if e[0] == x]
        ci = cliques(ins, set(am(nodes, "and_measures_in").get(x, {})))
        co = cliques(outs, set(am(nodes, "and_measures_out").get(x, {})))
        I = [{("arc", p, x): 1 for p in c} for c in ci] + ([{"source": 1}] if x in sa else [])
        O = [{("arc", x, p): 1 for p in c} for c in co] + ([{"sink": 1}] if x in ea else [])
        for i in I or [{}]:
            for o in O or [{}]:
                tr.append(dict(label=x, pre={str(k): v for k, v in i.items()}, post={str(k): v for k, v in o.items()}))
    return ref.Net(tr, {"source": 1}, {"sink": 1})


def judge_net(res, hn, sa, ea, ctx, how):
    net, im, fm = res
    bad = ref.check_structure(net)
    if bad:
        raise Violation(bad, how=how)
    labs = sorted(t.label for t in net.transitions if t.label is not None)
    if labs != sorted(hn.nodes):
        raise Violation("the Petri net of the heuristics net does not have exactly its activities as visible transitions", how=how, got=labs, expected=sorted(hn.nodes))
    A, B = bind_net(hn, sa, ea), ref.net_from_pm4py(net, im, fm)
    try:
        d = ref.lang_diff(A, B, 300)
    except ref.Blowup:
        ctx.outcome("unbounded: language not compared")
        return
    ctx.step(1)
    if d is not None:
        raise Violation("the Petri net does not have the runs given by the bindings of the heuristics net", how=how, diff=str(d))


PARS = [(0.5, 0.65, 0.5, 1, 1), (0.0, 0.3, 0.5, 1, 1), (0.51, 0.65, 0.67, 1, 2), (0.8, 0.65, 0.5, 2, 1), (0.75, 0.2, 0.5, 1, 1)]
P_ = classic.Parameters


def r_dfg(case, ctx):
    dfg = {(a, b): c for a, b, c in case["dfg"]}
    occ = {}
    for (a, b), c in dfg.items():
        for x in {a, b}:
            occ[x] = max(occ.get(x, 0), sum(v for k, v in dfg.items() if k[1] == x), sum(v for k, v in dfg.items() if k[0] == x))
    sa = {x: 1 for x in sorted(occ)[:1]}
    ea = {x: 1 for x in sorted(occ)[-1:]}
    tri = {}
    if case.get("tri"):
        tri = {("a", "b", "a"): case["tri"][0], ("b", "a", "b"): case["tri"][1]}
        tri = {k: v for k, v in tri.items() if v}
    ctx.state(str(sorted(dfg.items())) + str(tri))
    for i in case["pars"]:
        th, ath, lth, mina, mind = PARS[i]
        pp = {P_.DEPENDENCY_THRESH: th, P_.AND_MEASURE_THRESH: ath, P_.LOOP_LENGTH_TWO_THRESH: lth, P_.MIN_ACT_COUNT: mina, P_.MIN_DFG_OCCURRENCES: mind}
        noise = case.get("noise", 0.0)
        pp[P_.DFG_PRE_CLEANING_NOISE_THRESH] = noise
        eff = dict(dfg)
        if noise:
            mx = {x: max(sum(v for k, v in dfg.items() if k[1] == x), sum(v for k, v in dfg.items() if k[0] == x)) for x in occ}
            mx = {x: max(v for k, v in dfg.items() if x in k) for x in occ} if case.get("mx", 1) else mx
            eff = {k: v for k, v in dfg.items() if not v < min(mx[k[0]], mx[k[1]]) * noise}
        hn = classic.apply_heu_dfg(dict(dfg), activities=sorted(occ), activities_occurrences=dict(occ), start_activities=dict(sa), end_activities=dict(ea), freq_triples=dict(tri) if tri else None, parameters=dict(pp))
        judge(hn, eff, occ, tri, sa, ea, PARS[i], ctx, "apply_heu_dfg %s" % (PARS[i],))
        if case.get("conv"):
            judge_net(heu_conv.apply(hn), hn, sa, ea, ctx, "conversion %s" % (PARS[i],))
        ctx.trace()
    cr = causal_algorithm.apply(dict(dfg), variant=causal_algorithm.Variants.CAUSAL_HEURISTIC)
    f = lambda x, y: dfg.get((x, y), 0)
    exp = {(x, y): (f(x, y) / (f(x, y) + 1) if x == y else (f(x, y) - f(y, x)) / (f(x, y) + f(y, x) + 1)) for x, y in dfg}
    if any(k not in cr or not near(cr[k], v) for k, v in exp.items()) or any(k not in exp and not (k[::-1] in exp and near(v, -exp[k[::-1]])) for k, v in cr.items()):
        raise Violation("the heuristic causal relation differs from the dependency measure", got=str(cr), expected=str(exp))


def g_dfg(tier):
    ps = list(itertools.product("ab", repeat=2))
    for ws in itertools.product((0, 1, 2, 3), repeat=4):
        d = [(a, b, w) for (a, b), w in zip(ps, ws) if w]
        if d:
            yield dict(dfg=d, pars=[0, 1, 2, 3, 4], conv=True)
            if ws[1] and ws[2]:
                for tr in ((1, 0), (0, 1), (1, 1), (2, 0)):
                    yield dict(dfg=d, tri=tr, pars=[0, 1, 2, 3], conv=True)
    ps = [p for p in itertools.product("abc", repeat=2) if p != ("a", "a")]
    vals = (0, 1, 3, 25) if tier == "thorough" else (0, 1, 3)
    for k, ws in enumerate(itertools.product(vals, repeat=8)):
        d = [(a, b, w) for (a, b), w in zip(ps, ws) if w]
        if not d or (ws[3], ws[7]) != tuple(sorted((ws[3], ws[7]))) and tier != "thorough":
            continue
        if tier == "thorough" and k % 4:
            continue
        yield dict(dfg=d, pars=[k % 5, (k + 1) % 5], conv=k % 3 == 0)
    ps = [("a", "b"), ("b", "a"), ("a", "c"), ("c", "b"), ("b", "b"), ("b", "c")]
    for ws in itertools.product((0, 1, 2, 40), repeat=6):
        d = [(a, b, w) for (a, b), w in zip(ps, ws) if w]
        if d:
            yield dict(dfg=d, pars=[0, 4], noise=0.05)
    # parallel branches: 1..3 concurrent activities between a split and a join
    for n in (2, 3, 4):
        br = "bcde"[:n]
        pairs = list(itertools.combinations(br, 2))
        for m in range(2 ** len(pairs)):
            d = [("a", x, 2) for x in br] + [(x, "z", 2) for x in br] + [e for i, (x, y) in enumerate(pairs) if m >> i & 1 for e in ((x, y, 3), (y, x, 3))]
            yield dict(dfg=d, pars=[0, 1], conv=True)


def r_log(case, ctx):
    L = case["L"]
    dfg = Counter((w[i], w[i + 1]) for w in L for i in range(len(w) - 1))
    tri = Counter(tuple(w[i:i + 3]) for w in L for i in range(len(w) - 2))
    occ = Counter(x for w in L for x in w)
    sa, ea = Counter(w[0] for w in L), Counter(w[-1] for w in L)
    ctx.state(str(L))
    log, df = mk_log(L), mk_df(L)
    for i in case["pars"]:
        th, ath, lth, mina, mind = PARS[i]
        for obj, how in ((log, "event log"), (df, "dataframe")):
            hn = pm4py.discover_heuristics_net(obj, dependency_threshold=th, and_threshold=ath, loop_two_threshold=lth, min_act_count=mina, min_dfg_occurrences=mind)
            judge(hn, dfg, occ, tri, sa, ea, PARS[i], ctx, "%s %s" % (how, PARS[i]))
            if how == "event log":
                judge_net(heu_conv.apply(hn), hn, set(sa), set(ea), ctx, how)
            ctx.trace()
        if mina == mind == 1:
            for obj in (log, df):
                res = pm4py.discover_petri_net_heuristics(obj, dependency_threshold=th, and_threshold=ath, loop_two_threshold=lth)
                judge_net(res, hn, set(sa), set(ea), ctx, "discover_petri_net_heuristics")


def g_log(tier):
    T = tier == "thorough"
    for L in gen.logs("abc", 4, 1, 1):
        yield dict(L=L, pars=[0, 1, 2, 3])
    for L in gen.logs("ab", 6 if T else 5, 1, 5):
        yield dict(L=L, pars=[0, 2])
    for k, L in enumerate(gen.logs("abc", 3, 2, 1)):
        if len(L) == 2:
            yield dict(L=L, pars=[k % 4] if not T else [0, 1, 2])
    for L in gen.logs("ab", 4, 2, 3):
        if len(L) == 2:
            yield dict(L=L, pars=[0, 2])
    perm = [list("a" + "".join(p) + "e") for p in itertools.permutations("bcd")]
    for n in (1, 2, 3):
        for c in itertools.combinations(perm, n):
            yield dict(L=[w for w in c] * 2, pars=[0, 1])
    for k, L in enumerate(gen.logs("abc", 4 if T else 2, 3, 2)):
        if len(L) == 3:
            yield dict(L=L, pars=[k % 4])


def r_pp(case, ctx):
    """++ variant on atomic events and on intervals"""
    L = case["L"]      # list of cases; case = list of (act, start, end)
    first, conc, occ, perf = Counter(), Counter(), Counter(), {}
    for w in L:
        s = sorted(w, key=lambda e: (e[1], e[2]))
        for i in range(len(s)):
            occ[s[i][0]] += 1
            for j in range(i + 1, len(s)):
                if s[i][2] <= s[j][1]:
                    first[s[i][0], s[j][0]] += 1
                    break
            for j in range(i + 1, len(s)):
                if max(s[i][1], s[j][1]) <= min(s[i][2], s[j][2]):
                    conc[tuple(sorted((s[i][0], s[j][0])))] += 1
    ctx.state(str(L))
    log, rows = EventLog(), []
    for i, w in enumerate(L):
        t = Trace(attributes={ACT: "c%d" % i})
        for a, s, e in sorted(w, key=lambda e: (e[1], e[2])):
            t.append(Event({ACT: a, ST: T0 + s * H, TS: T0 + e * H}))
            rows.append({CI: "c%d" % i, ACT: a, ST: pd.Timestamp(T0 + s * H), TS: pd.Timestamp(T0 + e * H)})
        log.append(t)
    th, ath = case["th"], case["ath"]
    pp = {"dependency_thresh": th, "and_measure_thresh": ath}
    f, c = lambda x, y: first.get((x, y), 0), lambda x, y: conc.get(tuple(sorted((x, y))), 0)
    exp = {e: ((v - f(e[1], e[0])) / (v + f(e[1], e[0]) + c(*e)), v) for e, v in first.items()}
    exp = {e: v for e, v in exp.items() if v[0] > th}
    for obj, how in ((log, "event log"), (pd.DataFrame(rows), "dataframe")):
        hn = (plusplus.apply_heu if how == "event log" else plusplus.apply_heu_pandas)(obj, parameters=dict(pp))
        nodes, out, inn = facts(hn)
        if set(out) != set(exp) or any(not near(out[e][0], exp[e][0]) or out[e][1] != exp[e][1] for e in exp):
            raise Violation("heuristics miner ++: arcs or dependency values differ from the definition", how=how, got=str({k: v[:2] for k, v in out.items()}), expected=str(exp), conc=str(conc))
        if set(nodes) != set(occ) or set(inn) != set(out):
            raise Violation("heuristics miner ++: nodes or input connections differ", how=how, got=sorted(nodes), expected=sorted(occ))
        for k, attr in ((0, "and_measures_out"), (1, "and_measures_in")):
            e = {}
            for x in nodes:
                oth = sorted(a[1 - k] for a in out if a[k] == x)
                for p, q in itertools.combinations(oth, 2):
                    d = (f(x, p) + f(x, q)) if k == 0 else (f(p, x) + f(q, x))
                    v = (f(p, q) + f(q, p) + c(p, q)) / d
                    if v > ath:
                        e.setdefault(x, {})[frozenset((p, q))] = v
            g = am(nodes, attr)
            if {x: set(v) for x, v in e.items()} != {x: set(v) for x, v in g.items()} or any(not near(e[x][p], g[x][p]) for x in e for p in e[x]):
                raise Violation("heuristics miner ++: AND measures differ", how=how, which=attr, got=str(g), expected=str(e))
        sa = {min(w, key=lambda e: e[1])[0] for w in L}
        res = heu_algo.apply(obj, variant=heu_algo.Variants.PLUSPLUS, parameters=dict(pp))
        labs = sorted(t.label for t in res[0].transitions if t.label is not None)
        if labs != sorted(nodes):
            raise Violation("heuristics miner ++: visible labels of the net", how=how, got=labs)
        ctx.trace()
    ctx.step(len(exp))
    ctx.outcome("pp arcs=%d" % len(exp))


def g_pp(tier):
    for L in itertools.chain(gen.logs("abc", 3, 1, 1), gen.logs("ab", 2, 2, 1)):
        yield dict(L=[[(x, 2 * i, 2 * i) for i, x in enumerate(w)] for w in L], th=0.5, ath=0.65)
    iv = [(0, 1), (0, 3), (2, 3), (2, 5), (4, 5), (1, 2)]
    k = 0
    for n in (2, 3) if tier != "thorough" else (2, 3, 4):
        for I in itertools.combinations(iv, n):
            if len({s for s, _ in I}) < n:
                continue      # order of equal starts is free
            for labs in itertools.product("abc", repeat=n):
                k += 1
                if tier == "thorough" or n == 2 or k % 2:
                    yield dict(L=[[(a, s, e) for a, (s, e) in zip(labs, I)]], th=[0.5, 0.0][k % 2], ath=[0.65, 0.2][k % 2])
    for I in itertools.combinations(iv, 2):
        for l1 in itertools.permutations("abc", 2):
            for J in itertools.combinations(iv, 2):
                if len({s for s, _ in I}) == 2 and len({s for s, _ in J}) == 2:
                    for l2 in (("a", "b"), ("b", "a")):
                        yield dict(L=[[(a, s, e) for a, (s, e) in zip(l1, I)], [(a, s, e) for a, (s, e) in zip(l2, J)]], th=0.3, ath=0.65)


def r_perf(case, ctx):
    """performance decoration: mean hours between the events"""
    L = case["L"]
    from checks.C16 import rows_of, el_of
    log = el_of(L)
    df = pd.DataFrame(rows_of(L))
    ctx.state(str(L))
    dfg = Counter((w[i], w[i + 1]) for w in L for i in range(len(w) - 1))
    perf = {k: 3600.0 for k in dfg}
    tri = Counter(tuple(w[i:i + 3]) for w in L for i in range(len(w) - 2))
    occ = Counter(x for w in L for x in w)
    sa, ea = Counter(w[0] for w in L), Counter(w[-1] for w in L)
    for obj, how in ((log, "event log"), (df, "dataframe")):
        hn = pm4py.discover_heuristics_net(obj, decoration="performance")
        judge(hn, dfg, occ, tri, sa, ea, PARS[0], ctx, how, perf=perf)
        ctx.trace()


def g_perf(tier):
    for L in gen.logs("abc", 3, 2, 2):
        yield dict(L=L)


def families(tier):
    return [("graphs", g_dfg, r_dfg), ("logs", g_log, r_log), ("plusplus", g_pp, r_pp), ("performance", g_perf, r_perf)]
