"""C08 Petri-net alignments are valid and of minimal cost: exhaustive comparison with an independent shortest-path search."""
import heapq, itertools
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.objects.log.obj import Trace, Event, EventLog
from pm4py.algo.conformance.alignments.petri_net import algorithm as ali
from pm4py.objects.petri_net.utils import align_utils

ID, TITLE = "C08", "Petri-net alignments are valid and of minimal cost"
BOUNDS = {"quick": "all bounded nets with 3 places x <=3 single-input single-output transitions, 3 places x 2 transitions with arc multiplicities, up to symmetry, nets of all process trees <=3 leaves; all traces over "
                   "{a,b} (+ unknown c) of length <=3 (A* variants: <=2 and a subset of nets); standard costs and 6 user-supplied cost assignments",
          "thorough": "longer traces, more nets, all variants everywhere"}
ASSUMPTIONS = ["final marking reachable, bounded net", "standard cost function: the relative cost of silent moves (0 or 1) is an implementation choice, only differences of whole deviations are compared across variants"]

V = {"astar": ali.Variants.VERSION_STATE_EQUATION_A_STAR, "tweaked": ali.Variants.VERSION_TWEAKED_STATE_EQUATION_A_STAR,
     "dijkstra": ali.Variants.VERSION_DIJKSTRA_NO_HEURISTICS, "lessmem": ali.Variants.VERSION_DIJKSTRA_LESS_MEMORY}
BIG = 10000
CASE_LIMIT = 60


def optimum(N, w, logc, modc, sync, ctx=None):
    """cheapest path in the product of the trace and the net; every reachable product state up to the optimum is visited"""
    start = (N.im, 0)
    best, heap, k = {start: 0}, [(0, 0, start)], 0
    done = set()
    while heap:
        g, _, s = heapq.heappop(heap)
        if s in done:
            continue
        done.add(s)
        m, i = s
        if i == len(w) and m == N.fm:
            return g
        nxt = []
        if i < len(w):
            nxt.append((g + logc[i], (m, i + 1)))
        for t in range(len(N.trans)):
            if N.enabled(m, N.trans[t]):
                q = N.fire(m, N.trans[t])
                nxt.append((g + modc[t], (q, i)))
                if i < len(w) and N.trans[t]["label"] == w[i]:
                    nxt.append((g + sync[t], (q, i + 1)))
        if ctx is not None:
            ctx.step(len(nxt))
        for c, s2 in nxt:
            if c < best.get(s2, 1 << 60):
                best[s2] = c
                k += 1
                heapq.heappush(heap, (c, k, s2))
    return None


def mk_trace(w):
    t = Trace()
    for x in w:
        t.append(Event({"concept:name": x}))
    return t


def check_valid(N, w, al, what, logc, modc, sync, **kw):
    """alignment with names: ((trace name, model name), (trace label, model label)); returns its cost"""
    name = {t["name"]: i for i, t in enumerate(N.trans)}
    m, i, g = N.im, 0, 0
    for (tn, mn), (tl, ml) in al:
        if tl == ">>" and ml == ">>":
            raise Violation("%s: a move is silent on both sides" % what, **kw)
        if ml != ">>":
            t = name.get(mn)
            if t is None or N.trans[t]["label"] != ml:
                raise Violation("%s: a model move names no transition of the net" % what, alignment=str(al), **kw)
            if not N.enabled(m, N.trans[t]):
                raise Violation("%s: the model part is not a firing sequence" % what, alignment=str(al), **kw)
            m = N.fire(m, N.trans[t])
        if tl != ">>":
            if i >= len(w) or w[i] != tl:
                raise Violation("%s: the log part is not the trace" % what, alignment=str(al), **kw)
            if ml != ">>" and ml != tl:
                raise Violation("%s: a synchronous move joins different labels" % what, alignment=str(al), **kw)
            g += sync[t] if ml != ">>" else logc[i]
            i += 1
        else:
            g += modc[t]
    if i != len(w):
        raise Violation("%s: the log part is not the trace" % what, alignment=str(al), **kw)
    if m != N.fm:
        raise Violation("%s: the model part does not reach the final marking" % what, alignment=str(al), **kw)
    return g


def std(N, tau=1):
    return [BIG if t["label"] is not None else tau for t in N.trans]


def run_std(net, im, fm, N, w, variants, ctx, **kw):
    mc, sy = std(N), [0] * len(N.trans)
    lc = [BIG] * len(w)
    opt = optimum(N, w, lc, mc, sy, ctx)
    worst = optimum(N, [], [], mc, sy)
    fits = ref.accepts(N, w)
    for v in variants:
        ctx.trace()
        what = "alignment (%s)" % v
        r = ali.apply(mk_trace(w), net, im, fm, variant=V[v], parameters={ali.Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE: True})
        if r is None:
            raise Violation("%s: no alignment returned" % what, trace=w, optimum=opt, **kw)
        g = check_valid(N, w, r["alignment"], what, lc, mc, sy, trace=w, **kw)
        if g // BIG > opt // BIG:
            raise Violation("%s is not optimal" % what, trace=w, cost=g, optimum=opt, alignment=str(r["alignment"]), **kw)
        if g < opt:
            raise AssertionError("reference search is not optimal")
        if v != "lessmem":
            if abs(r["cost"] - g) > 1e-6 or g != opt:
                raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g, optimum=opt, **kw)
            if abs(r["bwc"] - (BIG * len(w) + worst)) > 1e-6:
                raise Violation("%s: wrong best-worst cost" % what, trace=w, reported=r["bwc"], expected=BIG * len(w) + worst, **kw)
        else:       # silent moves cost 0 or 1 there
            if r["cost"] // BIG != g // BIG or r["cost"] > g or r["bwc"] // BIG != (BIG * len(w) + worst) // BIG:
                raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g, bwc=r["bwc"], **kw)
        den = (BIG * len(w) + worst) // BIG
        if den > 0:
            f = 1 - (g // BIG) / den
            if abs(r["fitness"] - f) > 1e-9:
                raise Violation("%s: wrong fitness" % what, trace=w, reported=r["fitness"], expected=f, **kw)
        if (r["fitness"] == 1.0) != fits:
            raise Violation("%s: the trace is %s the language but its fitness is %s" % (what, "in" if fits else "not in", r["fitness"]), trace=w, **kw)
        ctx.outcome("fit" if fits else "deviating")


def r_std(d, ctx):
    net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d["net"])
    for w in d["traces"]:
        run_std(net, im, fm, N, w, d["variants"], ctx)
    if ref.net_from_pm4py(net, im, fm).trans != N.trans:
        raise Violation("computing alignments changed the net")


def r_tree(d, ctx):
    net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(d["t"]))
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d["t"])
    for w in d["traces"]:
        run_std(net, im, fm, N, w, d["variants"], ctx, tree=d["t"])


def usable(desc, labels=True):
    N = ref.net_ref(desc)
    try:
        order, edges = N.graph(limit=60, bound=3)
    except ref.Blowup:
        return False
    return N.fm in order and len(set(e[1] for e in edges)) == len(N.trans)


def canon_labels(desc):
    seen = []
    for t in desc["trans"]:
        if t[0] is not None and t[0] not in seen:
            seen.append(t[0])
    return seen == ["a", "b"][:len(seen)]


def g_std(tier):
    T3 = list(gen.traces("ab", 3)) + [["c"], ["a", "c", "b"]]
    T2 = [w for w in T3 if len(w) <= 2]
    fast, slow = ["dijkstra", "lessmem"], ["astar", "tweaked"]
    th = tier == "thorough"
    k = 0
    specs = [gen.nets(2, 1, ["a", None], maxpre=1, maxpost=1), gen.nets(2, 2, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(2, 3, ["a", "b", None], maxpre=1, maxpost=1),
             gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(3, 3, ["a", "b", None], maxpre=1, maxpost=1),
             gen.nets(3, 2, ["a", None], weights=(1, 2), maxpre=1, maxpost=2, im=[[0, 2]]), gen.nets(2, 2, ["a", "b", None], weights=(1, 2, 3), maxpre=1, maxpost=1, im=[[0, 1]], fm=[[1, 2]]),
             gen.nets(2, 2, ["a", "b", None], weights=(1, 2), maxpre=1, maxpost=1, im=[[0, 2]], fm=[[1, 1]]),
             gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2, im=[[0, 1], [1, 1]], fm=[[2, 1]])]
    if th:
        specs += [gen.nets(3, 3, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(4, 3, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(3, 2, ["a", "b", None], weights=(1, 2), maxpre=2, maxpost=2, im=[[0, 2]])]
    for s in specs:
        for d in s:
            if not canon_labels(d) or not usable(d):
                continue
            k += 1
            wt = any(x > 1 for t in d["trans"] for side in (t[1], t[2]) for _, x in side)
            yield {"net": d, "traces": T3, "variants": fast}
            if th or wt or k % 4 == 0:
                yield {"net": d, "traces": T3 if th else T2, "variants": slow}


def g_tree(tier):
    th = tier == "thorough"
    k = 0
    for n in (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*", "O")):
            k += 1
            yield {"t": t, "traces": list(gen.traces("ab", 3)), "variants": ["dijkstra", "lessmem"]}
            if th or k % 3 == 0:
                yield {"t": t, "traces": list(gen.traces("ab", 3 if th else 2)), "variants": ["astar", "tweaked"]}
    for t in gen.trees("abc", 4, ops=("->", "X", "+", "*"), tau=False):
        k += 1
        if th or k % 4 == 0:
            yield {"t": t, "traces": [["a", "b", "c"], ["c", "a"], ["a", "a", "b"], ["b"]], "variants": ["dijkstra", "lessmem", "astar", "tweaked"]}


COSTS = [  # (log cost per event position, model cost of the i-th transition, sync cost of the i-th transition)
    ([3, 1, 2], [2, 5, 1], [0, 0, 0]), ([1, 1, 1], [10, 1, 1], [0, 4, 1]), ([5, 7, 5], [1, 1, 1], [3, 0, 1]),
    ([2, 2, 2], [3, 3, 3], [6, 6, 6]), ([1, 9, 4], [4, 2, 7], [1, 1, 1]), ([10000, 1, 10000], [1, 10000, 1], [0, 0, 5])]


def r_cost(d, ctx):
    net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    lc0, mc0, sy0 = d["cost"]
    idx = {t.name: i for i, t in enumerate(ts)}
    mc = [mc0[idx[t["name"]]] for t in N.trans]
    sy = [sy0[idx[t["name"]]] for t in N.trans]
    ctx.state(d)
    P = ali.Parameters
    worst = optimum(N, [], [], mc, sy)
    for w in d["traces"]:
        lc = lc0[:len(w)]
        for v in d["variants"]:
            syv = [0] * len(sy) if v == "lessmem" else sy        # that variant takes one synchronous cost for all transitions (default 0)
            opt = optimum(N, w, lc, mc, syv, ctx)
            pars = {P.PARAM_MODEL_COST_FUNCTION: {t: mc0[i] for i, t in enumerate(ts)}, P.PARAM_SYNC_COST_FUNCTION: {t: sy0[i] for i, t in enumerate(ts)},
                    P.PARAM_TRACE_COST_FUNCTION: list(lc), P.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE: True}
            ctx.trace()
            what = "alignment with user costs (%s)" % v
            r = ali.apply_trace(mk_trace(w), net, im, fm, variant=V[v], parameters=pars)
            if r is None:
                raise Violation("%s: no alignment returned" % what, trace=w)
            g = check_valid(N, w, r["alignment"], what, lc, mc, syv, trace=w)
            if g != opt:
                raise Violation("%s is not optimal" % what, trace=w, cost=g, optimum=opt, alignment=str(r["alignment"]))
            if abs(r["cost"] - g) > 1e-6:
                raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g)
            if abs(r["bwc"] - (sum(lc) + worst)) > 1e-6:
                raise Violation("%s: wrong best-worst cost" % what, trace=w, reported=r["bwc"], expected=sum(lc) + worst)


def g_cost(tier):
    th = tier == "thorough"
    T3 = list(gen.traces("ab", 3)) + [["c"]]
    T2 = [w for w in T3 if len(w) <= 2]
    k = 0
    for s in (gen.nets(2, 2, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(3, 3, ["a", "b", None], maxpre=1, maxpost=1)):
        for d in s:
            if not canon_labels(d) or not usable(d):
                continue
            k += 1
            for j, c in enumerate(COSTS):
                if not th and (j + k) % 3:
                    continue
                yield {"net": d, "cost": c, "traces": T3, "variants": ["dijkstra", "lessmem"]}
                if th or k % 12 == 0:
                    yield {"net": d, "cost": c, "traces": T2, "variants": ["astar", "tweaked"]}


def r_log(d, ctx):
    """whole logs through the facade: one result per case, in order, for event logs and dataframes"""
    import pandas as pd
    net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    mc, sy = std(N), [0] * len(N.trans)
    ctx.state(d)
    rows = []
    for i, w in enumerate(d["log"]):
        for j, x in enumerate(w):
            rows.append({"case:concept:name": str(i), "concept:name": x, "time:timestamp": pd.Timestamp("2020-01-%02dT%02d:00:00Z" % (i + 1, j))})
    for obj in ("df", "log"):
        for v in (None, "lessmem"):
            if obj == "df":
                L = pd.DataFrame(rows)
            else:
                L = EventLog([mk_trace(w) for w in d["log"]])
                for i, t in enumerate(L):
                    t.attributes["concept:name"] = str(i)
            ctx.trace()
            if v is None:
                res = pm4py.conformance_diagnostics_alignments(L, net, im, fm)
            else:
                res = ali.apply(L, net, im, fm, variant=V[v])
            if len(res) != len(d["log"]):
                raise Violation("number of alignments differs from the number of cases", got=len(res))
            fits = 0
            for w, r in zip(d["log"], res):
                opt = optimum(N, w, [BIG] * len(w), mc, sy, ctx)
                if [x[0] for x in r["alignment"] if x[0] != ">>"] != w:
                    raise Violation("alignment attached to the wrong case", trace=w, alignment=str(r["alignment"]))
                if r["cost"] // BIG != opt // BIG:
                    raise Violation("log alignment: wrong cost", trace=w, cost=r["cost"], optimum=opt)
                vis = [x[1] for x in r["alignment"] if x[1] not in (">>", None)]
                if not ref.accepts(N, vis):
                    raise Violation("log alignment: model part not in the language", trace=w, alignment=str(r["alignment"]))
                if (r["fitness"] == 1.0) != ref.accepts(N, w):
                    raise Violation("log alignment: wrong fitness", trace=w, fitness=r["fitness"])
                fits += r["fitness"] == 1.0
            if v is None and obj == "df":
                dd = pm4py.conformance_diagnostics_alignments(L, net, im, fm, return_diagnostics_dataframe=True)
                if list(dd["is_fit"]) != [ref.accepts(N, w) for w in d["log"]] or list(dd["case_id"]) != [str(i) for i in range(len(d["log"]))]:
                    raise Violation("alignment diagnostics dataframe is wrong", got=dd.to_dict("list"))


def g_log(tier):
    nets = [{"n": 3, "trans": [["a", [[0, 1]], [[1, 1]]], ["b", [[1, 1]], [[2, 1]]], [None, [[1, 1]], [[0, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]},
            {"n": 2, "trans": [["a", [[0, 1]], [[1, 1]]], ["a", [[1, 1]], [[0, 1]]], ["b", [[0, 1]], [[1, 1]]]], "im": [[0, 1]], "fm": [[1, 1]]},
            {"n": 4, "trans": [["a", [[0, 1]], [[2, 1]]], ["b", [[1, 1]], [[3, 1]]], [None, [[1, 1]], [[3, 1]]]], "im": [[0, 1], [1, 1]], "fm": [[2, 1], [3, 1]]}]
    ts = [["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a", "b"]]
    for n in nets:
        for k in (1, 2, 3):
            for c in itertools.product(ts, repeat=k):
                if k == 3 and tier == "quick" and c[0] != c[2]:
                    continue
                yield {"net": n, "log": [list(x) for x in c]}


def families(tier):
    return [("standard_costs", g_std, r_std), ("process_trees", g_tree, r_tree), ("user_costs", g_cost, r_cost), ("logs", g_log, r_log)]
