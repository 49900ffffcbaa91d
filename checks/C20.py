"""C20 ILP and POWL miners: every trace of the log is accepted by the discovered model (independent automaton), with exactly the log's activities."""
import itertools, warnings
from mc import gen, ref
from mc.harness import Violation
import pm4py
from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
from pm4py.algo.discovery.powl import algorithm as powl_algo
from pm4py.algo.discovery.ilp import algorithm as ilp_miner
from pm4py.algo.discovery.causal import algorithm as causal_algorithm
from pm4py.algo.discovery.dfg import algorithm as dfg_algo
from pm4py.objects.conversion.powl import converter as powl_conv
from pm4py.objects.log.util import artificial
from checks.C09 import mk_log, mk_df

ID, TITLE = "C20", "ILP, POWL and region-style miners give models fitting the log"
BOUNDS = {"quick": "ILP: all logs of one trace of length <=4 over {a,b,c}, two traces of length <=3 over {a,b,c} (canonical), sets of <=3 permutations of {a,b,c}(d); POWL (4 variants): all logs of <=2 traces of length <=4 and 3 traces of length <=3 over {a,b,c} (canonical), sets of <=3 traces out of all orderings of {a,b,c,d} subsets, empty traces included",
          "thorough": "two traces of length <=4 over {a,b,c} for ILP, three traces of length <=4 for POWL, sets of <=4 orderings"}
ASSUMPTIONS = ["ILP: the log has no empty trace (the miner inserts an artificial start and end) and alpha=1.0", "POWL: filtering factor 0 and order threshold 1.0 or unset"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")


def judge(A, L, labels, what, ctx):
    acts = {x for w in L for x in w}
    if labels != acts:
        raise Violation("the activities of the discovered model are not those of the log", miner=what, got=sorted(map(str, labels)), expected=sorted(acts))
    for w in sorted(set(map(tuple, L))):
        ctx.step(1)
        try:
            ok = ref.accepts(A, w)
        except ref.Blowup:
            ctx.outcome("blowup")
            continue
        if not ok:
            raise Violation("the discovered model does not accept a trace of the log", miner=what, trace=list(w))


def r_ilp(case, ctx):
    L = case["L"]
    ctx.state(str(L))
    log = mk_log(L)
    runs = [("ILP event log", lambda: pm4py.discover_petri_net_ilp(log, alpha=1.0))]
    if case.get("df"):
        runs.append(("ILP dataframe", lambda: pm4py.discover_petri_net_ilp(mk_df(L), alpha=1.0)))
    if case.get("heu"):
        def f():
            c = causal_algorithm.apply(dfg_algo.apply(artificial.insert_artificial_start_end(mk_log(L))), variant=causal_algorithm.Variants.CAUSAL_HEURISTIC)
            return ilp_miner.apply(log, parameters={"causal_relation": {k: v for k, v in c.items() if v > 0.4}})
        runs.append(("ILP heuristic causality", f))
    for what, f in runs:
        net, im, fm = f()
        bad = ref.check_structure(net)
        if bad:
            raise Violation(bad, miner=what)
        labs = sorted(t.label for t in net.transitions if t.label is not None)
        if len(labs) != len(set(labs)):
            raise Violation("an activity has several transitions", miner=what, got=labs)
        judge(ref.net_from_pm4py(net, im, fm), L, set(labs), what, ctx)
        ctx.trace()
    ctx.outcome("ilp places=%d" % len(net.places))


def g_ilp(tier):
    T = tier == "thorough"
    for k, L in enumerate(gen.logs("abc", 4, 1, 1)):
        yield dict(L=L, df=k % 4 == 0, heu=k % 4 == 1)
    n = 0
    for L in gen.logs("abc", 4 if T else 3, 2, 1):
        if len(L) == 2:
            n += 1
            if T or n % 2:
                yield dict(L=L, df=n % 16 == 0, heu=n % 4 == 1)
    perm = [list(p) for p in itertools.permutations("abc")] + [list(p) for p in itertools.permutations("abc", 2)] + [list(p) for p in itertools.permutations("abcd")]
    for k in (2, 3) if T else (2, 3):
        for i, ws in enumerate(itertools.combinations(perm, k)):
            if gen.canon_words(ws) and (T or k == 2 or i % 3 == 0):
                yield dict(L=[list(w) for w in ws], heu=i % 2 == 0)
    # concurrency followed by choices, repeated blocks
    blocks = [["b", "c"], ["c", "b"], ["b"], ["d"], ["b", "b"], ["b", "c", "b"]]
    for k in (2, 3):
        for bs in itertools.combinations(blocks, k):
            for tail in ([], ["e"]):
                yield dict(L=[["a"] + b + tail for b in bs])


VAR = [V.TREE, V.BRUTE_FORCE, V.MAXIMAL, V.DYNAMIC_CLUSTERING]


def powl_labels(m):
    if hasattr(m, "children") and m.children:
        return set().union(*map(powl_labels, m.children))
    return set() if getattr(m, "label", None) is None else {m.label}


def r_powl(case, ctx):
    L = case["L"]
    ctx.state(str(L))
    log = mk_log(L)
    for v in VAR:
        runs = [("POWL %s" % v.name, lambda: pm4py.discover_powl(log, variant=v))]
        if v is V.DYNAMIC_CLUSTERING and case.get("thr"):
            runs.append(("POWL %s threshold 1.0" % v.name, lambda: pm4py.discover_powl(log, variant=v, order_graph_filtering_threshold=1.0)))
        if case.get("df") and all(L):
            runs.append(("POWL %s dataframe" % v.name, lambda: powl_algo.apply(mk_df(L), variant=v)))
        for what, f in runs:
            m = f()
            d = ref.powl_from_pm4py(m)
            judge(ref.Powl(d), L, powl_labels(m), what, ctx)
            ctx.trace()
            if case.get("net"):
                net, im, fm = powl_conv.apply(m)
                judge(ref.net_from_pm4py(net, im, fm), L, {t.label for t in net.transitions if t.label is not None}, what + " as net", ctx)
    ctx.outcome(str(d)[:1] if d is None or isinstance(d, str) else str(d[0]))


def g_powl(tier):
    T = tier == "thorough"
    n = 0
    for L in itertools.chain(gen.logs("abc", 5, 1, 0), gen.logs("abc", 4, 2, 0), gen.logs("abc", 4 if T else 3, 3, 0)):
        n += 1
        if len(L) == 3 and not T and n % 2 or len(L) == 3 and T and n % 3 or len(L) == 2 and not T and n % 2 and sum(map(len, L)) > 6:
            continue
        if any(L):
            yield dict(L=L, thr=n % 3 == 0, df=n % 10 == 0, net=n % 6 == 0)
    perm = [list(p) for k in (3, 4) for p in itertools.permutations("abcd", k)]
    for k in (2, 3) if not T else (2, 3, 4):
        for i, ws in enumerate(itertools.combinations(perm, k)):
            if gen.canon_words(ws) and (k == 2 or T or i % 2):
                yield dict(L=[list(w) for w in ws], thr=i % 3 == 0, net=i % 6 == 0)
    # optional activities, choices between blocks and loops around ordered blocks
    blocks = [["b", "c"], ["c", "b"], ["d"], ["b"], [], ["b", "d"], ["d", "b"]]
    for k in (2, 3):
        for bs in itertools.combinations(blocks, k):
            for pre, post in ((["a"], ["e"]), (["a"], []), ([], ["e"])):
                yield dict(L=[pre + b + post for b in bs], thr=True)
            yield dict(L=[["a"] + bs[0] + ["a"] + bs[1], ["a"] + bs[-1]], thr=True)


def families(tier):
    return [("ilp", g_ilp, r_ilp), ("powl", g_powl, r_powl)]
