"""C18 alpha and alpha-plus miners: the returned net against the published definition (maximal pairs found by trying every pair of activity sets)."""
import itertools
from collections import Counter
from mc import gen, ref
from mc.harness import Violation
import pm4py
from pm4py.algo.discovery.alpha import algorithm as alpha_miner
from pm4py.algo.discovery.alpha.variants import classic
from pm4py.algo.discovery.causal import algorithm as causal_algorithm
from checks.C09 import mk_log, mk_df

ID, TITLE = "C18", "Alpha miners produce the net the algorithm prescribes"
BOUNDS = {"quick": "classic: every directly-follows relation over <=3 activities with every start/end set, every relation over 4 activities up to renaming, every log of <=2 traces of length <=4 over {a,b,c} and every set of <=3 traces of length <=3; "
                   "relations with 3+2 and 2+3 activity sets over 5..6 activities (bipartite causalities with every conflict relation on one side); alpha-plus: the same logs plus all traces of length <=5 with repetition",
          "thorough": "logs of <=3 traces of length <=4 over {a,b,c}, <=4 traces of length <=3 over {a,b,c,d}; all relations over 4 activities with every start/end set"}
ASSUMPTIONS = ["an activity that follows itself directly takes part in no place (as in the original algorithm, where it is parallel to itself)",
               "alpha-plus (de Medeiros et al.): traces are extended with an artificial start and end; a length-one-loop activity with predecessors and successors that are not length-one loops themselves is attached to the place of the pair (predecessors minus successors, successors minus predecessors) when that pair has a place (every place whose pair includes it otherwise); the artificial transitions are silent and may be left out when the language is the same"]
BUDGET = {"quick": 250, "thorough": 800}
S_, E_ = "artificial_start", "artificial_end"


def maximal_pairs(acts, causal, rel):
    """all (A,B), nonempty, A x B causal, no two (also equal) members of A related, same for B; maximal"""
    acts = sorted(acts)
    sets = [frozenset(c) for n in range(1, len(acts) + 1) for c in itertools.combinations(acts, n)
            if not any((x, y) in rel for x in c for y in c)]
    ok = [(A, B) for A in sets for B in sets if all((x, y) in causal for x in A for y in B)]
    return {p for p in ok if not any(p != q and p[0] <= q[0] and p[1] <= q[1] for q in ok)}


def classic_ref(follows):
    acts = {x for p in follows for x in p}
    causal = {(x, y) for x, y in follows if (y, x) not in follows}
    rel = set(follows) | {(y, x) for x, y in follows}
    return maximal_pairs(acts, causal, rel)


def plus_ref(L):
    """-> (places as (frozenset pre, frozenset post) over labels incl. artificial ones, self loops {label: set of places}, labels)"""
    W = [[S_] + list(w) + [E_] for w in L]
    loop1 = {w[i] for w in W for i in range(len(w) - 1) if w[i] == w[i + 1]}
    A, B = {}, {}
    for w in W:
        for x, y in zip(w, w[1:]):
            if y in loop1 and x not in loop1:
                A.setdefault(y, set()).add(x)
            if x in loop1 and y not in loop1:
                B.setdefault(x, set()).add(y)
    F = [[x for x in w if x not in loop1] for w in W]
    fol = {(x, y) for w in F for x, y in zip(w, w[1:])}
    tri = {(w[i], w[i + 1]) for w in F for i in range(len(w) - 2) if w[i] == w[i + 2]}
    dia = {(x, y) for x, y in tri if (y, x) in tri}
    causal = {(x, y) for x, y in fol if (y, x) not in fol or (x, y) in dia}
    rel = fol | {(y, x) for x, y in fol}
    P = maximal_pairs({x for w in F for x in w}, causal, rel)
    selfl = {}
    for t in loop1 & set(A) & set(B):
        a, b = frozenset(A.get(t, set()) - B.get(t, set())), frozenset(B.get(t, set()) - A.get(t, set()))
        selfl[t] = {(a, b)} if (a, b) in P else {p for p in P if a <= p[0] and b <= p[1]}
    return P, selfl, {x for w in L for x in w}, loop1


def shape(net):
    """Counter of (pre names, post names) over transitions named by label (or tau name)"""
    nm = {t: (t.label if t.label is not None else t.name) for t in net.transitions}
    pl = {p: (frozenset(nm[a.source] for a in p.in_arcs), frozenset(nm[a.target] for a in p.out_arcs)) for p in net.places}
    for p in net.places:
        if any(a.weight != 1 for a in p.in_arcs | p.out_arcs) or len(p.in_arcs) != len({a.source for a in p.in_arcs}) or len(p.out_arcs) != len({a.target for a in p.out_arcs}):
            raise Violation("a place has a weighted or parallel arc", place=str(p))
    return pl


def judge_classic(res, follows, sa, ea, acts, ctx, how):
    net, im, fm = res
    bad = ref.check_structure(net)
    if bad:
        raise Violation(bad, how=how)
    labels = sorted(t.label for t in net.transitions if t.label is not None)
    if labels != sorted(acts) or len(net.transitions) != len(acts):
        raise Violation("the alpha net does not have exactly one transition per activity", how=how, got=labels, expected=sorted(acts))
    pl = shape(net)
    if len(im) != 1 or len(fm) != 1 or set(im.values()) != {1} or set(fm.values()) != {1}:
        raise Violation("the alpha net's markings are not single tokens", how=how, im=str(im), fm=str(fm))
    src, snk = next(iter(im)), next(iter(fm))
    if pl.get(src) != (frozenset(), frozenset(sa)):
        raise Violation("the source place is not connected to exactly the start activities", how=how, got=str(pl.get(src)), expected=sorted(sa))
    if pl.get(snk) != (frozenset(ea), frozenset()):
        raise Violation("the sink place is not connected to exactly the end activities", how=how, got=str(pl.get(snk)), expected=sorted(ea))
    got = Counter(v for p, v in pl.items() if p not in (src, snk))
    exp = Counter(classic_ref(follows))
    ctx.step(len(exp))
    if got != exp:
        raise Violation("the places of the alpha net are not exactly the maximal pairs of causally related, internally unrelated activity sets", how=how,
                        missing=[[sorted(x) for x in p] for p in exp - got], extra=[[sorted(x) for x in p] for p in got - exp])
    ctx.outcome(len(exp))


def r_rel(case, ctx):
    E = {(x, y): 1 + (i % 3) for i, (x, y) in enumerate(case["rel"])}
    acts = {x for p in E for x in p} | set(case["sa"]) | set(case["ea"])
    ctx.state(str(sorted(E)))
    res = classic.apply_dfg_sa_ea(dict(E), {x: 1 for x in case["sa"]}, {x: 1 for x in case["ea"]})
    judge_classic(res, set(E), set(case["sa"]), set(case["ea"]), acts, ctx, "apply_dfg_sa_ea")
    # entries of frequency zero are no relation when mined from a log; the dfg entry points infer start and end activities
    if E and case.get("inf"):
        src, tgt = {x for x, _ in E}, {y for _, y in E}
        sa, ea = src - tgt, tgt - src
        res = alpha_miner.apply_dfg(dict(E), variant=alpha_miner.Variants.ALPHA_VERSION_CLASSIC)
        judge_classic(res, set(E), sa, ea, src | tgt, ctx, "apply_dfg")
    ctx.trace()
    cr = causal_algorithm.apply(dict(E), variant=causal_algorithm.Variants.CAUSAL_ALPHA)
    exp = {(x, y) for x, y in E if (y, x) not in E}
    if {k for k, v in cr.items() if v > 0} != exp:
        raise Violation("the causal relation is not {(a,b) | a>b and not b>a}", got=str(cr))


def g_rel(tier):
    for n in (1, 2, 3):
        al = "abc"[:n]
        ps = list(itertools.product(al, repeat=2))
        for m in range(2 ** len(ps)):
            R = [p for i, p in enumerate(ps) if m >> i & 1]
            if n < 3:
                for s in range(2 ** n):
                    for e in range(2 ** n):
                        yield dict(rel=R, sa=[x for i, x in enumerate(al) if s >> i & 1], ea=[x for i, x in enumerate(al) if e >> i & 1], inf=s == 0)
            else:
                yield dict(rel=R, sa=[al[m % 3]], ea=list(al[m % 2:]), inf=True)
    al = "abcd"
    ps = list(itertools.product(al, repeat=2))
    for m in range(2 ** 16):
        # up to renaming: smallest mask among permutations is costly; use a cheap necessary canonical condition on out-degree then in-degree order
        deg = [(bin(m >> (4 * i) & 15).count("1"), sum(m >> (4 * j + i) & 1 for j in range(4)), m >> (5 * i) & 1) for i in range(4)]
        if deg != sorted(deg):
            continue
        if tier != "thorough" and m % 2:
            continue
        yield dict(rel=[p for i, p in enumerate(ps) if m >> i & 1], sa=["a"], ea=["d"], inf=False)


def g_bip(tier):
    """bipartite causality over a left and a right set, with every relation inside one side"""
    for l, r in ((2, 3), (3, 2), (3, 3), (2, 4), (4, 2)) if tier == "thorough" else ((2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2)):
        Ls, Rs = "abcde"[:l], "vwxyz"[:r]
        full = [(x, y) for x in Ls for y in Rs]
        cin = list(itertools.combinations(Rs, 2))
        for cm in range(2 ** len(full)):
            c = [p for i, p in enumerate(full) if cm >> i & 1]
            if {x for x, _ in c} != set(Ls) or {y for _, y in c} != set(Rs):
                continue
            big = 2 ** len(cin)
            if l * r > 6 and tier != "thorough":
                ks = {0, 1, big - 1, cm % big}
            elif l * r > 8:
                ks = {0, cm % big, (7 * cm + 3) % big}
            else:
                ks = range(big)
            for km in sorted(ks):
                par = [p for i, p in enumerate(cin) if km >> i & 1]
                yield dict(rel=c + par + [(y, x) for x, y in par], sa=list(Ls), ea=list(Rs))


def judge_plus(res, L, ctx, how):
    net, im, fm = res
    bad = ref.check_structure(net)
    if bad:
        raise Violation(bad, how=how)
    P, selfl, labels, loop1 = plus_ref(L)
    vis = sorted(t.label for t in net.transitions if t.label is not None)
    if vis != sorted(labels):
        raise Violation("the alpha-plus net does not have exactly one visible transition per activity", how=how, got=vis, expected=sorted(labels))
    # reference net
    names = {t: t for t in sorted(labels)}
    names[S_], names[E_] = None, None
    places, arcs = ["i", "o"], []
    for k, (A, B) in enumerate(sorted(P, key=lambda p: (sorted(p[0]), sorted(p[1])))):
        places.append("p%d" % k)
        arcs += [(x, "p%d" % k) for x in A] + [("p%d" % k, y) for y in B]
        for t, ps in selfl.items():
            if (A, B) in ps:
                arcs += [(t, "p%d" % k), ("p%d" % k, t)]
    # structural comparison away from the artificial transitions
    pl = shape(net)
    got = Counter(v for p, v in pl.items() if v[0] and v[1])
    exp = Counter((frozenset(A) | {t for t, ps in selfl.items() if (A, B) in ps}, frozenset(B) | {t for t, ps in selfl.items() if (A, B) in ps}) for A, B in P)
    # the artificial transitions may have been left out: compare the pairs without them
    strip = lambda C: Counter(k for k in ((A - {S_, E_}, B - {S_, E_}) for A, B in C.elements()) if k[0] and k[1])
    ginner, einner = strip(got), strip(exp)
    if ginner != einner:
        raise Violation("the places of the alpha-plus net are not the maximal pairs prescribed (length-one-loop activities attached to their place)", how=how,
                        missing=[[sorted(x) for x in p] for p in einner - ginner], extra=[[sorted(x) for x in p] for p in ginner - einner])
    tn = sorted(labels) + [S_, E_]
    tr = {t: dict(label=names[t], pre={}, post={}) for t in tn}
    tr[S_]["pre"]["i"] = 1
    tr[E_]["post"]["o"] = 1
    for x, y in arcs:
        if x in places:
            tr[y]["pre"][x] = 1
        else:
            tr[x]["post"][y] = 1
    refnet = ref.Net(list(tr.values()), {"i": 1}, {"o": 1})
    got_net = ref.net_from_pm4py(net, im, fm)
    try:
        d = ref.lang_diff(refnet, got_net, 400)
    except ref.Blowup:
        ctx.outcome("plus net unbounded: language not compared")
        return
    ctx.step(1)
    if d is not None:
        raise Violation("the alpha-plus net does not have the language of the net the algorithm prescribes", how=how, diff=str(d))
    ctx.outcome("plus %d+%d" % (len(P), len(selfl)))


def r_log(case, ctx):
    L = case["L"]
    ctx.state(str(L))
    log = mk_log(L)
    fol = {(w[i], w[i + 1]) for w in L for i in range(len(w) - 1)}
    sa, ea, acts = {w[0] for w in L if w}, {w[-1] for w in L if w}, {x for w in L for x in w}
    judge_classic(pm4py.discover_petri_net_alpha(log), fol, sa, ea, acts, ctx, "event log")
    ctx.trace()
    if all(L):
        judge_classic(pm4py.discover_petri_net_alpha(mk_df(L)), fol, sa, ea, acts, ctx, "dataframe")
        judge_classic(alpha_miner.apply(log, variant=alpha_miner.Variants.ALPHA_VERSION_CLASSIC), fol, sa, ea, acts, ctx, "algorithm")
        judge_plus(pm4py.discover_petri_net_alpha_plus(log), L, ctx, "event log")
        if case.get("df"):
            judge_plus(pm4py.discover_petri_net_alpha_plus(mk_df(L)), L, ctx, "dataframe")
        ctx.trace()


def g_log(tier):
    T = tier == "thorough"
    for w in gen.traces("abc", 6 if T else 5, 1):
        if gen.canon_words([w]):
            yield dict(L=[w], df=len(w) < 4)
    for w in itertools.combinations([w for w in gen.traces("abc", 4 if T else 3, 1)], 2):
        if gen.canon_words(w):
            yield dict(L=list(w), df=len(w[0]) < 3)
    for w in itertools.combinations([w for w in gen.traces("abc", 3, 1) if len(w) > 1], 3):
        if gen.canon_words(w) and (T or len(w[0]) < 3):
            yield dict(L=list(w), df=False)
    # acyclic four-activity logs
    perm = [list(p) for n in (3, 4) for p in itertools.permutations("abcd", n)]
    for k in (1, 2, 3) if T else (1, 2):
        for ws in itertools.combinations(perm, k):
            if gen.canon_words(ws):
                yield dict(L=[list(w) for w in ws], df=False)
    # one activity between others repeated: length-one loops in several contexts
    mids = [[], ["x"], ["x", "x"], ["x", "x", "x"]]
    ctxs = [("ab", "c"), ("a", "b"), ("", "b"), ("a", ""), ("ab", "cd"), ("ba", "c")]
    for n in (1, 2):
        for cs in itertools.combinations(ctxs, n):
            for ms in itertools.product(mids, repeat=n):
                for extra in (None, "ab", "abc", "ac"):
                    L = [list(c[0]) + m + list(c[1]) for c, m in zip(cs, ms)] + ([list(extra)] if extra else [])
                    yield dict(L=L, df=n == 1)


def families(tier):
    return [("relations", g_rel, r_rel), ("bipartite", g_bip, r_rel), ("logs", g_log, r_log)]
