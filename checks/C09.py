"""C09 tree, DFG and log-to-log alignments: exhaustive comparison with an independent shortest-path search."""
import heapq, importlib.util, itertools
from mc import ref, gen
from mc.harness import Violation
import pandas as pd, pm4py
from pm4py.objects.process_tree.obj import ProcessTree
from pm4py.objects.log.obj import Trace, Event, EventLog
from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt
from pm4py.algo.conformance.alignments.process_tree.variants.approximated import original as approx
from pm4py.algo.conformance.alignments.process_tree.variants.approximated import matrix_lp
from pm4py.algo.conformance.alignments.dfg import algorithm as dfg_al
from pm4py.algo.conformance.alignments.edit_distance import algorithm as ed_al

ID, TITLE = "C09", "Process-tree, DFG and log-to-log alignments are valid and optimal"
BOUNDS = {"quick": "trees without repeated activities: <=3 leaves over {a,b,tau}, 3 leaves over {a,b,c}, a quarter of those with 3 activities and a silent leaf; all traces <=3 (plus unknown activity); "
                   "all DFGs over 2 activities and a third of those over 3 activities with <=4 edges; log-to-log: all reference logs of 1-2 (a fifth of 3) traces of length <=3",
          "thorough": "all trees, traces of length 4, DFGs up to 9 edges, all reference logs"}
ASSUMPTIONS = ["process trees without interleaving and without duplicate activities", "DFGs whose activities all lie on a path from start to end", "log-to-log alignments are optimal with respect to the chosen trace's Levenshtein distance, "
               "not the number of moves", "the pulp-based variant of the approximate alignment cannot run here (pulp is not installed)"]
BIG = 10000
CASE_LIMIT = 10


def mk_trace(w):
    return Trace([Event({"concept:name": x}) for x in w])


def mk_log(L):
    log = EventLog([mk_trace(w) for w in L])
    for i, t in enumerate(log):
        t.attributes["concept:name"] = str(i)
    return log


def mk_df(L):
    rows = []
    for i, w in enumerate(L):
        for j, x in enumerate(w):
            rows.append({"case:concept:name": "c%03d" % i, "concept:name": x, "time:timestamp": pd.Timestamp("2020-01-01T00:00:00Z") + pd.Timedelta(hours=100 * i + j)})
    return pd.DataFrame(rows)


def opt_aut(A, w, ctx=None, lc=None, mc=None):
    """cheapest insertions/deletions to turn w into a word of A (unit costs unless given): exhaustive search of the product"""
    s0 = (A.init(), 0)
    heap, k, done = [(0, 0, s0)], 0, set()
    while heap:
        g, _, (s, i) = heapq.heappop(heap)
        if (s, i) in done:
            continue
        done.add((s, i))
        if i == len(w) and A.acc(s):
            return g
        nxt = []
        if i < len(w):
            nxt.append(((lc[w[i]] if lc else 1), (s, i + 1)))
        for a, q in A.succ(s):
            if a is None:
                nxt.append((0, (q, i)))
            else:
                nxt.append(((mc[a] if mc else 1), (q, i)))
                if i < len(w) and a == w[i]:
                    nxt.append((0, (q, i + 1)))
        if ctx is not None:
            ctx.step(len(nxt))
        for c, x in nxt:
            if x not in done:
                k += 1
                heapq.heappush(heap, (g + c, k, x))
    return None


def valid(A, w, al, what, **kw):
    """alignment of plain labels; silent moves may be listed as ('>>', None).  Returns number of deviations."""
    al = [tuple(y.label if isinstance(y, ProcessTree) else y for y in x) for x in al]
    if [x for x, _ in al if x != ">>"] != list(w):
        raise Violation("%s: the log part is not the trace" % what, alignment=str(al), **kw)
    g, vis = 0, []
    for x, y in al:
        if x == ">>" and y == ">>":
            raise Violation("%s: a move is silent on both sides" % what, alignment=str(al), **kw)
        if x != ">>" and y not in (">>", x):
            raise Violation("%s: a synchronous move joins different labels" % what, alignment=str(al), **kw)
        if y not in (">>", None):
            vis.append(y)
        g += (x == ">>" and y is not None) or (y == ">>")
    if not ref.accepts(A, vis):
        raise Violation("%s: the model part is not a complete run" % what, alignment=str(al), **kw)
    return g


def r_tree(d, ctx):
    t = d["t"]
    A = ref.Tree(t)
    tree = ref.tree_to_pm4py(t)
    ctx.state(t)
    L = [w for w in d["traces"]]
    worst = opt_aut(A, [])
    res = search_graph_pt.apply(mk_log(L), tree)
    one = [search_graph_pt.apply(mk_trace(w), tree) for w in L[:3]]
    if ref.tree_from_pm4py(tree) != t:
        raise Violation("computing alignments changed the tree")
    what = "process-tree alignment"
    for w, r in list(zip(L, res)) + list(zip(L, one)):
        ctx.trace()
        g = valid(A, w, r["alignment"], what, trace=w)
        opt = opt_aut(A, w, ctx)
        if g != opt:
            raise Violation("%s is not optimal" % what, trace=w, cost=g, optimum=opt, alignment=str(r["alignment"]))
        if r["cost"] != g:
            raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g)
        if "fitness" in r:
            fit = ref.accepts(A, w)
            if (r["fitness"] == 1) != fit or (len(w) + worst and abs(r["fitness"] - (1 - g / (len(w) + worst))) > 1e-9):
                raise Violation("%s: wrong fitness" % what, trace=w, reported=r["fitness"], cost=g, worst=len(w) + worst)
        ctx.outcome("fit" if g == 0 else "deviating")
    if d.get("facade"):
        LL = [w for w in L if w]
        for r, w in zip(pm4py.conformance_diagnostics_alignments(mk_df(LL), tree), LL):
            if valid(A, w, r["alignment"], what, trace=w) != opt_aut(A, w):
                raise Violation("%s through the facade is not optimal" % what, trace=w)


def r_approx(d, ctx):
    t = d["t"]
    A = ref.Tree(t)
    tree = ref.tree_to_pm4py(t)
    ctx.state(t)
    for name, mod in ([("original", approx)] if importlib.util.find_spec("pulp") else []) + [("matrix_lp", matrix_lp)]:
        what = "approximate process-tree alignment (%s)" % name
        for w in d["traces"]:
            ctx.trace()
            r = mod.apply(mk_trace(w), tree)
            if isinstance(r, list):
                r = r[0]
            g = valid(A, w, r["alignment"], what, trace=w)
            opt = opt_aut(A, w, ctx)
            if g < opt:
                raise AssertionError("reference not optimal")
            if (g == 0) != ref.accepts(A, w) and opt > 0:
                raise AssertionError("reference")
            if r["cost"] != g:
                raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g)
            if (r["fitness"] == 1) != (g == 0):
                raise Violation("%s: wrong fitness" % what, trace=w)
            ctx.outcome("approx optimal" if g == opt else "approx above optimum")
        res = mod.apply(mk_log(d["traces"]), tree)
        for w, r in zip(d["traces"], res):
            valid(A, w, r["alignment"], what + " of a log", trace=w)


def g_trees(tier):
    th = tier == "thorough"
    T = list(gen.traces("ab", 3)) + [["c"], ["a", "c", "b"]]
    for n in (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*", "O"), loop3=False):
            labs = [x for x in leaves(t) if x]
            if len(set(labs)) < len(labs):
                continue
            yield {"t": t, "traces": T}
    k = 0
    T3 = [list(x) for n in range(5) for x in itertools.product("abc", repeat=n)]
    for n in (3, 4):
        for t in gen.trees("abc", n, ops=("->", "X", "+", "*", "O"), maxar=3):
            labs = [x for x in leaves(t) if x]
            if len(set(labs)) < 3 or len(labs) > 3:
                continue
            k += 1
            if th or n == 3 or k % 4 == 0 or "O" in str(t):
                yield {"t": t, "traces": T3[:40] if not th and "O" not in str(t) else T3, "facade": k % 11 == 0}


def g_approx(tier):
    th = tier == "thorough"
    T = list(gen.traces("ab", 3)) + [["c"], ["a", "c", "b"]]
    for n in (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*")):
            labs = [x for x in leaves(t) if x]
            if len(set(labs)) == len(labs):
                yield {"t": t, "traces": T}
    k = 0
    for t in gen.trees("abc", 3, ops=("->", "X", "+", "*"), tau=False):
        if len(set(leaves(t))) == 3:
            k += 1
            if th or k % 3 == 0:
                yield {"t": t, "traces": list(gen.traces("abc", 2)) + [["a", "b", "a", "c"], ["c", "b", "a"], ["a", "b", "a", "b", "c"]]}


def leaves(t):
    return [t] if t is None or isinstance(t, str) else [x for c in t[1:] for x in leaves(c)]


def r_dfg(d, ctx):
    dfg = {(a, b): 1 for a, b in d["dfg"]}
    sa, ea = {a: 1 for a in d["sa"]}, {a: 1 for a in d["ea"]}
    A = ref.Dfg(dfg, sa, ea)
    ctx.state([d["dfg"], d["sa"], d["ea"]])
    worst = opt_aut(A, [])
    what = "DFG alignment"
    L = d["traces"]
    snap = (dict(dfg), dict(sa), dict(ea))
    res = dfg_al.apply(mk_log(L), dfg, sa, ea)
    if (dfg, sa, ea) != snap:
        raise Violation("computing alignments changed the graph")
    res1 = [dfg_al.apply(mk_trace(w), dfg, sa, ea) for w in L]
    LL = [w for w in L if w]
    res2 = pm4py.conformance_diagnostics_alignments(mk_df(LL), dfg, sa, ea) if d.get("facade") else []
    for w, r in list(zip(L, res)) + list(zip(L, res1)) + list(zip(LL, res2)):
        ctx.trace()
        g = valid(A, w, r["alignment"], what, trace=w)
        opt = opt_aut(A, w, ctx)
        if g != opt:
            raise Violation("%s is not optimal" % what, trace=w, cost=g, optimum=opt, alignment=str(r["alignment"]))
        if r["cost"] // BIG != g:
            raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g)
        if "fitness" in r and abs(r["fitness"] - (1 - g / (len(w) + worst))) > 1e-9:
            raise Violation("%s: wrong fitness" % what, trace=w, reported=r["fitness"], cost=g, worst=len(w) + worst)
        ctx.outcome("fit" if g == 0 else "deviating")
    # user supplied costs
    for lc, mc in (({"a": 3, "b": 7, "c": 5}, {"a": 2, "b": 9, "c": 4}), ({"a": 10, "b": 1, "c": 1}, {"a": 1, "b": 4, "c": 8})):
        P = dfg_al.Variants.CLASSIC.value.Parameters
        for w in L:
            r = dfg_al.apply(mk_trace(w), dfg, sa, ea, parameters={P.LOG_MOVE_COST_FUNCTION: lc, P.MODEL_MOVE_COST_FUNCTION: mc, P.SYNC_COST_FUNCTION: {"a": 0, "b": 0, "c": 0}})
            valid(A, w, r["alignment"], what, trace=w)
            g = sum(lc[x] if y == ">>" else mc[y] if x == ">>" else 0 for x, y in r["alignment"])
            opt = opt_aut(A, w, None, lc, mc)
            if g != opt or r["cost"] != g:
                raise Violation("%s with user costs is not optimal" % what, trace=w, cost=g, reported=r["cost"], optimum=opt, alignment=str(r["alignment"]), log_costs=lc, model_costs=mc)


def g_dfg(tier):
    th = tier == "thorough"
    T = list(gen.traces("ab", 3)) + [["c"], ["a", "c", "b"], ["c", "a", "a"]] + ([list(x) for x in itertools.product("ab", repeat=4)] if th else [])
    k = 0
    for E in itertools.chain.from_iterable(itertools.combinations(list(itertools.product("ab", repeat=2)), n) for n in range(5)):
        for sa in (["a"], ["b"], ["a", "b"]):
            for ea in (["a"], ["b"], ["a", "b"]):
                if nonempty(E, sa, ea):
                    k += 1
                    yield {"dfg": [list(e) for e in E], "sa": sa, "ea": ea, "traces": T, "facade": k % 4 == 0}
    # three activities: graphs with every edge subset of a ring with chords
    T3 = [list(x) for n in range(4) for x in itertools.product("abc", repeat=n)] + [list(x) for x in itertools.product("abc", repeat=4)][:: 1 if th else 7]
    edges = [e for e in itertools.product("abc", repeat=2)]
    for n in range(1, 10 if th else 5):
        for i, E in enumerate(itertools.combinations(edges, n)):
            if not th and i % 3:
                continue
            for sa, ea in ((["a"], ["c"]), (["a", "b"], ["c"]), (["a"], ["b", "a"])):
                if nonempty(E, sa, ea):
                    yield {"dfg": [list(e) for e in E], "sa": sa, "ea": ea, "traces": T3}


def lev(a, b):
    D = list(range(len(b) + 1))
    for i, x in enumerate(a):
        p, D[0] = D[0], i + 1
        for j, y in enumerate(b):
            p, D[j + 1] = D[j + 1], min(D[j + 1] + 1, D[j] + 1, p + (x != y))
    return D[-1]


def r_edit(d, ctx):
    ctx.state(d)
    A = ref.Words([tuple(w) for w in d["ref"]])
    for as_df in (False, True):
        L1, L2 = d["log"], d["ref"]
        if as_df:
            if [] in L1 or [] in L2:
                continue
            res = pm4py.conformance_diagnostics_alignments(mk_df(L1), mk_df(L2))
        else:
            res = ed_al.apply(mk_log(L1), mk_log(L2))
        if len(res) != len(L1):
            raise Violation("log-to-log alignment: number of results differs from number of cases")
        what = "log-to-log alignment"
        bw = min(len(w) for w in L2)
        for w, r in zip(L1, res):
            ctx.trace()
            g = valid(A, w, r["alignment"], what, trace=w)
            m = [y for _, y in r["alignment"] if y != ">>"]
            best = min(lev(w, x) for x in L2)
            if lev(w, m) != best:
                raise Violation("%s: the chosen reference trace is not one of minimal edit distance" % what, trace=w, chosen=m, distance=lev(w, m), best=best)
            if r["cost"] != BIG * g:
                raise Violation("%s: wrong cost" % what, trace=w, reported=r["cost"], of_alignment=g)
            if (r["fitness"] == 1) != (w in L2):
                raise Violation("%s: wrong fitness" % what, trace=w, fitness=r["fitness"])
            if g and abs(r["fitness"] - (1 - g / (len(w) + bw))) > 1e-9:
                raise Violation("%s: wrong fitness" % what, trace=w, fitness=r["fitness"], cost=g, worst=len(w) + bw)
            ctx.outcome("fit" if g == 0 else "deviating")


def g_edit(tier):
    T = [list(x) for n in range(0, 4) for x in itertools.product("ab", repeat=n)] + [["c"], ["a", "c"], ["c", "a", "b"]]
    k = 0
    for n in (1, 2, 3):
        for R in itertools.combinations(T, n):
            k += 1
            if n == 3 and tier == "quick" and k % 5:
                continue
            yield {"ref": [list(x) for x in R], "log": T}


def nonempty(E, sa, ea):
    """every activity of the graph lies on a path from a start to an end activity"""
    def reach(S, E):
        S = set(S)
        while True:
            n = S | {b for a, b in E if a in S}
            if n == S:
                return S
            S = n
    acts = {x for e in E for x in e} | set(sa) | set(ea)
    return reach(sa, E) & reach(ea, [(b, a) for a, b in E]) == acts


def families(tier):
    return [("process_tree", g_trees, r_tree), ("approximated", g_approx, r_approx), ("dfg", g_dfg, r_dfg),
            ("edit_distance", g_edit, r_edit)]
