"""C17 Inductive miner: fitness on every small log, block structure for every variant and threshold, rediscovery."""
import itertools
from collections import Counter
from mc import gen, ref
from mc.harness import Violation
import pm4py
from pm4py.objects.dfg.obj import DFG
from pm4py.algo.discovery.inductive import algorithm as im
from pm4py.util.compression.dtypes import UVCL
from pm4py.util.compression import util as comut
from checks.C09 import mk_log, mk_df
from checks.C12 import facts

ID, TITLE = "C17", "Inductive miner models replay their log and are sound"
BOUNDS = {"quick": "fitness: all sets of <=2 traces of length <=4 and of 3 traces of length <=3 over {a,b}, of <=3 traces of length <=3 over {a,b,c}, of <=2 duplicate-free traces over {a,b,c,d} and 3 up to renaming, empty trace included, with default and restricted options; "
                   "IMf: multiset logs with multiplicities 1..3 at thresholds 0, 0.2, 0.5, 1; IMd: the same logs and every DFG over {a,b,c}; rediscovery: all trees with <=5 distinct leaves and all directly-follows complete logs of <=2 words plus the complete and greedy ones",
          "thorough": "3 traces of length <=4 over {a,b}, 4 long duplicate-free traces over {a,b,c,d} and 2 over {a,b,c,d,e} up to renaming, 5 leaves with ternary loops, every assignment of multiplicities"}
ASSUMPTIONS = ["rediscovery is claimed for trees without duplicate or silent leaves whose loop bodies have disjoint start and end activities (the class of the published theorem) , for IMd also without loops inside redo parts (it deliberately treats every activity of a redo part as start and end)",
               "fitness of a model is claimed for mining without noise filter (IM, and IMf at threshold 0); the directly-follows variant IMd only promises a block-structured model"]
BUDGET = {"quick": 300, "thorough": 850}
OPTS = [{}, {"disable_fallthroughs": True}, {"disable_strict_sequence_cut": True}]


def well_formed(t, what, **kw):
    d = ref.tree_from_pm4py(t)

    def rec(x):
        if x is None or isinstance(x, str):
            return
        if len(x) < 3:
            raise Violation("%s: an operator has fewer than two children" % what, tree=str(t), **kw)
        for c in x[1:]:
            rec(c)
    rec(d)
    if not ref.tree_parents_ok(t):
        raise Violation("%s: parent links of the tree are inconsistent" % what, tree=str(t), **kw)
    return d


def fit(t, L, what, ctx, labels_exact=True, **kw):
    d = well_formed(t, what, log=L, **kw)
    A = ref.Tree(d)
    acts = {x for w in L for x in w}
    labs = set(ref.tree_labels(d))
    if labels_exact and labs != acts or not labs <= acts:
        raise Violation("%s: activities of the tree differ from those of the log" % what, log=L, tree=str(t), **kw)
    for w in L:
        ctx.step(len(w))
        if not ref.accepts(A, w):
            raise Violation("%s: a trace of the log is not accepted by the tree" % what, log=L, trace=w, tree=str(t), **kw)
    return d


def uvcl(L, mult=None):
    u = UVCL()
    for i, w in enumerate(L):
        u[tuple(w)] += (mult[i] if mult else 1)
    return u


def r_fit(L, ctx):
    ctx.state(L)
    for o in OPTS:
        ctx.trace()
        t = im.apply(uvcl(L), variant=im.Variants.IM, parameters=dict(o))
        d = fit(t, L, "inductive miner", ctx, options=str(o))
        ctx.outcome("root %s" % (d[0] if isinstance(d, list) else "leaf"))
        t2 = im.apply(uvcl(L), variant=im.Variants.IMf, parameters=dict(o, noise_threshold=0.0))
        fit(t2, L, "inductive miner infrequent without noise", ctx, options=str(o))


def r_repr(L, ctx):
    ctx.state(L)
    d0 = ref.Tree(ref.tree_from_pm4py(im.apply(uvcl(L))))
    objs = [("event log", mk_log(L))] + ([("dataframe", mk_df(L))] if all(L) else [])
    if all(L):
        df = mk_df(L)
        objs.append(("dataframe with reversed rows", df.iloc[::-1]))
    for n, o in objs:
        ctx.trace()
        t = pm4py.discover_process_tree_inductive(o)
        d = fit(t, L, "inductive miner (%s)" % n, ctx)
        if ref.lang_diff(ref.Tree(d), d0) is not None:
            raise Violation("the inductive miner gives another language for the %s than for the variants" % n, log=L, tree=str(t))
    net = pm4py.discover_petri_net_inductive(mk_log(L))
    A = ref.net_from_pm4py(*net)
    b = pm4py.discover_bpmn_inductive(mk_log(L))
    B = ref.Bpmn(ref.bpmn_from_pm4py(b))
    for w in L:
        if not ref.accepts(A, tuple(w)):
            raise Violation("Petri net of the inductive miner does not accept a trace of the log", log=L, trace=w)
        if not ref.accepts(B, tuple(w)):
            raise Violation("BPMN of the inductive miner does not accept a trace of the log", log=L, trace=w)
    ctx.outcome("%d cases" % len(L))


def r_noise(case, ctx):
    L, mult = case
    ctx.state(case)
    for o in OPTS[:2]:
        for nt in (0.0, 0.2, 0.5, 1.0):
            ctx.trace()
            t = im.apply(uvcl(L, mult), variant=im.Variants.IMf, parameters=dict(o, noise_threshold=nt))
            d = well_formed(t, "inductive miner infrequent", log=L, multiplicities=mult, noise=nt, options=str(o))
            if not set(ref.tree_labels(d)) <= {x for w in L for x in w}:
                raise Violation("inductive miner infrequent: the tree has activities outside the log", log=L, multiplicities=mult, noise=nt, tree=str(t))
            if nt == 0:
                fit(t, L, "inductive miner infrequent without noise", ctx, options=str(o))
            ctx.outcome("noise %s: %s" % (nt, "all fit" if all(ref.accepts(ref.Tree(d), w) for w in L) else "filtered"))
    for o in OPTS:
        t = im.apply(uvcl(L, mult), variant=im.Variants.IMd, parameters=dict(o))
        imd_ok(t, {x for w in L for x in w}, log=L, multiplicities=mult, options=str(o))


def imd_ok(t, acts, **kw):
    d = well_formed(t, "inductive miner on directly-follows graphs", **kw)
    if not set(ref.tree_labels(d)) <= acts:
        raise Violation("inductive miner on directly-follows graphs: the tree has other activities than the graph", tree=str(t), **kw)


def r_dfg(case, ctx):
    g, sa, ea = case
    ctx.state(str(case))
    d = DFG({(a, b): 1 for a, b in g}, {a: 1 for a in sa}, {a: 1 for a in ea})
    acts = {x for p in g for x in p} | set(sa) | set(ea)
    ctx.trace()
    t = pm4py.discover_process_tree_inductive(d)
    imd_ok(t, acts, dfg=str(case))
    ctx.outcome("tree")


def theorem_class(d):
    """no duplicates or taus; loop bodies with disjoint start and end activities and not accepting the empty word"""
    if isinstance(d, str):
        return True
    if d[0] == "*":
        f = fa(d[1])
        if f["start"] & f["end"]:
            return False
    return all(theorem_class(c) for c in d[1:])


def redo_loop(d, inside=False):
    """a loop inside the redo part of a loop"""
    if isinstance(d, str):
        return False
    return inside and d[0] == "*" or any(redo_loop(c, inside or d[0] == "*" and i > 0) for i, c in enumerate(d[1:]))


def fa(d):
    A = ref.Tree(d)
    W = words_to(d)
    return {"start": {w[0] for w in W if w}, "end": {w[-1] for w in W if w}, "df": {p for w in W for p in zip(w, w[1:])}}


def words_to(d, extra=0):
    """words of the tree up to a length at which its directly-follows relation is complete (each loop twice around)"""
    def mx(x):
        if isinstance(x, str):
            return 1
        if x[0] in ("->", "+"):
            return sum(mx(c) for c in x[1:])
        if x[0] == "X":
            return max(mx(c) for c in x[1:])
        return 2 * mx(x[1]) + max(mx(c) for c in x[2:])
    return sorted(ref.words(ref.Tree(d), mx(d) + extra))


def r_redisc(d, ctx):
    ctx.state(d)
    T = ref.Tree(d)
    W = words_to(d)
    F = [frozenset([("<s>", w[0]), ("<e>", w[-1])] + list(zip(w, w[1:]))) for w in W]
    full = frozenset().union(*F)
    logs = [("all words", W)]
    # greedy covers, shortest first and longest first
    for nm, order in (("shortest words", range(len(W))), ("longest words", range(len(W) - 1, -1, -1))):
        have, sel = set(), []
        for i in sorted(order, key=lambda i: len(W[i]) if nm[0] == "s" else -len(W[i])):
            if not F[i] <= have:
                have |= F[i]
                sel.append(W[i])
        logs.append((nm, sel))
    k = 2 if len(W) <= 60 else 1
    for n in range(1, k + 1):
        for c in itertools.combinations(range(len(W)), n):
            if frozenset().union(*[F[i] for i in c]) == full:
                logs.append(("complete log of %d words" % n, [W[i] for i in c]))
                if len(logs) > 60:
                    break
    for nm, L in logs:
        for vn in ("IM", "IMf", "IMd"):
            if vn == "IMd" and redo_loop(d):
                continue
            ctx.trace()
            t = im.apply(uvcl(L), variant=getattr(im.Variants, vn), parameters={"noise_threshold": 0.0} if vn == "IMf" else {})
            r = ref.lang_diff(ref.Tree(ref.tree_from_pm4py(t)), T, ctx=ctx)
            if r is not None:
                raise Violation("a directly-follows complete log is not rediscovered by %s" % vn, tree=str(d), log=[" ".join(w) for w in L], kind=nm, mined=str(t), word=list(r[0]), in_mined=r[1])
    ctx.outcome("rediscovered root %s" % (d[0] if isinstance(d, list) else "leaf"))


def sets(ts, k):
    return itertools.combinations(ts, k)


def ren(L, m):
    return [[m[x] for x in w] for w in L]


def g_fit(tier):
    seen = set()

    def emit(L):
        k = frozenset(map(tuple, L))
        if k not in seen:
            seen.add(k)
            yield [list(w) for w in L]
    ab4, ab3 = list(gen.traces("ab", 4)), list(gen.traces("ab", 3))
    for k in (1, 2):
        for L in sets(ab4, k):
            yield from emit(L)
    for L in sets(ab3 if tier == "quick" else ab4, 3):
        yield from emit(L)
    abc = list(gen.traces("abc", 3))
    for k in (1, 2):
        for L in sets(abc, k):
            yield from emit(L)
    for L in sets(abc, 3):
        yield from emit(L)
    nod = [w for w in gen.traces("abcd", 4) if len(set(w)) == len(w)]
    for k in (1, 2):
        for L in sets(nod, k):
            yield from emit(L)
    for L in sets(nod, 3):
        if gen.canon_words(L):
            yield from emit(L if hash_bit(L) else ren(L, {"a": "d", "b": "c", "c": "b", "d": "a"}))
    if tier != "quick":
        for L in sets(nod, 4):
            if gen.canon_words(L) and all(len(w) >= 3 for w in L):
                yield from emit(L)
        five = [w for w in gen.traces("abcde", 5) if len(set(w)) == len(w)]
        for L in sets(five, 2):
            if gen.canon_words(L):
                yield from emit(L)


def hash_bit(L):
    return sum(len(w) for w in L) % 2


def g_repr(tier):
    for k in (1, 2):
        for L in sets(list(gen.traces("ab", 3)), k):
            yield [list(w) for w in L]
    for L in gen.logs("abc", 3, 2, canon=True):
        yield [list(w) for w in L]
    if tier != "quick":
        for L in gen.logs("abc", 3, 3, canon=True):
            yield [list(w) for w in L]


def g_noise(tier):
    ms = [(1, 1), (1, 2), (1, 5), (3, 1), (5, 1)]
    for L in sets(list(gen.traces("ab", 3)), 2):
        for m in ms:
            yield [[list(w) for w in L], list(m)]
    for L in sets(list(gen.traces("abc", 3)), 2):
        if gen.canon_words(L):
            for m in ms[2:]:
                yield [[list(w) for w in L], list(m)]
    for L in sets(list(gen.traces("abc", 3)), 3):
        if gen.canon_words(L):
            for m in [(1, 2, 5)] if tier == "quick" else itertools.permutations((1, 2, 5)):
                yield [[list(w) for w in L], list(m)]
    nod = [w for w in gen.traces("abcd", 4) if len(set(w)) == len(w)]
    for L in sets(nod, 2):
        if gen.canon_words(L):
            yield [[list(w) for w in L], [1, 4]]


def g_dfg(tier):
    def pw(xs, mn=0):
        xs = list(xs)
        return [list(c) for n in range(mn, len(xs) + 1) for c in itertools.combinations(xs, n)]
    for al in ("a", "ab", "abc"):
        for g in pw(itertools.product(al, repeat=2)):
            for sa in pw(al, 1):
                for ea in pw(al, 1):
                    # every vertex must lie on a path from a start to an end activity (graphs of logs)
                    if connected(g, sa, ea):
                        yield [[list(p) for p in g], sa, ea]


def connected(g, sa, ea):
    V = {x for p in g for x in p} | set(sa) | set(ea)

    def reach(S, es):
        S = set(S)
        while True:
            n = {b for a, b in es if a in S} - S
            if not n:
                return S
            S |= n
    return reach(sa, g) >= V and reach(ea, [(b, a) for a, b in g]) >= V


def g_redisc(tier):
    for n in range(1, 6):
        for d in gen.trees("abcde", n, tau=False, maxar=n, loop3=n <= 4 or tier != "quick"):
            labs = ref.tree_labels(d)
            if len(set(labs)) == len(list(leaves(d))) and theorem_class(d):
                yield d


def leaves(d):
    if isinstance(d, list):
        for c in d[1:]:
            yield from leaves(c)
    else:
        yield d


def families(tier):
    return [("fitness", g_fit, r_fit), ("representations", g_repr, r_repr), ("noise", g_noise, r_noise), ("graphs", g_dfg, r_dfg), ("rediscovery", g_redisc, r_redisc)]
