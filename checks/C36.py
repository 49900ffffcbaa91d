"""C36 filtering of directly-follows graphs: every small graph x every threshold, against reachability and a greedy reference."""
import copy, itertools, math
from mc.harness import Violation
from pm4py.algo.filtering.dfg import dfg_filtering as F
from pm4py.objects.dfg.utils import dfg_utils as U

ID, TITLE = "C36", "Filtering a directly-follows graph keeps it connected and consistent"
BOUNDS = {"quick": "all directly-follows graphs over 2 and 3 activities (all edges, start and end sets) and all graphs over 4 activities without self-loops for 6 start/end sets, in which every activity lies on a start-end path; three frequency assignments (two with distinct frequencies, one with ties); every percentage step; every target activity",
          "thorough": "4 activities with self-loops on one activity, 9 start/end sets"}
ASSUMPTIONS = ["every activity of the given graph lies on a path from a start to an end activity", "which of two equally frequent elements goes first is free (only connectedness and consistency are compared then)"]
BUDGET = {"quick": 320, "thorough": 850}
NAMES = ["a", "b b", "c", "d"]


def clos(edges, src):
    seen, todo = set(src), list(src)
    while todo:
        x = todo.pop()
        for p, q in edges:
            if p == x and q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def useful(edges, S, E):
    return clos(edges, S) & clos([(q, p) for p, q in edges], E)


def gen(tier):
    for n in (2, 3):
        prs = list(itertools.product(range(n), repeat=2))
        subs = [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
        for mask in range(1, 2 ** len(prs)):
            edges = [p for i, p in enumerate(prs) if mask >> i & 1]
            for S in subs:
                for E in subs:
                    if n == 3 and tier == "quick" and (mask + sum(S) * 3 + sum(E) + len(S) * 5 + len(E)) % 4:
                        continue
                    if len(useful(edges, S, E)) == n:
                        yield [n, edges, list(S), list(E), mask % 3]
    prs = [p for p in itertools.product(range(4), repeat=2) if p[0] != p[1] or (tier == "thorough" and p[0] == 1)]
    sets = [((0,), (3,)), ((0,), (2, 3)), ((0, 1), (3,)), ((0, 1), (2, 3)), ((0,), (0,)), ((0, 2), (0, 3))] + ([((1, 3), (1,)), ((0, 1, 2), (1, 2, 3)), ((0, 1, 2, 3), (0, 1, 2, 3))] if tier == "thorough" else [])
    for mask in range(1, 2 ** len(prs)):
        edges = None
        for k, (S, E) in enumerate(sets):
            if tier == "quick" and (mask * 5 + k) % 7:
                continue
            edges = edges or [p for i, p in enumerate(prs) if mask >> i & 1]
            if len(useful(edges, S, E)) == 4:
                yield [4, edges, list(S), list(E), (mask + k) % 3]


def weights(n, edges, S, E, mode):
    """frequencies of edges, starts, ends and activities; mode 2 has ties"""
    m = len(edges) + len(S) + len(E)
    w = [1 + (i % 2) for i in range(m)] if mode == 2 else [1 + (i * 7 + 3) % 31 + (31 if i >= 31 else 0) for i in range(m)] if mode == 0 else [m - i + 4 * (i % 3 == 1) * 10 + 100 * (i % 5 == 2) for i in range(m)]
    N = NAMES[:n]
    dfg = {(N[p], N[q]): x for (p, q), x in zip(edges, w)}
    sa = {N[s]: x for s, x in zip(S, w[len(edges):])}
    ea = {N[e]: x for e, x in zip(E, w[len(edges) + len(S):])}
    ac = {a: (3 if mode == 2 else [5, 2, 9, 4][(i + len(edges)) % 4]) for i, a in enumerate(N)}
    return dfg, sa, ea, ac


def drop(res, unused):
    d, s, e, a = res
    keep = set(a) - unused
    return {k: v for k, v in d.items() if set(k) <= keep}, {k: v for k, v in s.items() if k in keep}, {k: v for k, v in e.items() if k in keep}, {k: v for k, v in a.items() if k in keep}


def reach(d, s, e):
    return clos(list(d), list(s)), clos([(q, p) for p, q in d], list(e))


def ref_activities(d, s, e, a, pct):
    if len(a) <= 1 or len(d) <= 1:
        return d, s, e, a
    order = sorted(a, key=lambda x: -a[x])
    k = math.ceil((len(a) - 1) * pct) + 1
    need = set(order[:k])
    cur = (d, s, e, a)
    for x in reversed(order[k:]):
        nxt = drop(cur, {x})
        f, b = reach(*nxt[:3])
        if nxt[0] and need <= f & b:
            cur = nxt
    f, b = reach(*cur[:3])
    return drop(cur, set(cur[3]) - (f & b))


def ref_edges(d, s, e, a, score, disc, need):
    """drops the edges of disc (in the order given) unless a needed activity would be cut off"""
    d, s, e = dict(d), dict(s), dict(e)
    for kind, x in disc:
        if len(d) <= 1:
            continue
        d2, s2, e2 = ({k: v for k, v in y.items() if not (kind == t and k == x)} for t, y in (("d", d), ("s", s), ("e", e)))
        f, b = reach(d2, s2, e2)
        if need <= f & b:
            d, s, e = d2, s2, e2
    f, b = reach(d, s, e)
    return drop((d, s, e, a), set(a) - (f & b))


def ref_paths(d, s, e, a, cut, score, keep_all):
    if len(a) <= 1 or len(d) <= 1:
        return d, s, e, a
    els = [("d", x) for x in d] + [("s", x) for x in s] + [("e", x) for x in e]
    els.sort(key=lambda k: -score(k))
    keep = [x for i, x in enumerate(els) if cut(i, score(x), len(els))]
    need = set(a) if keep_all else {y for t, x in keep for y in (x if t == "d" else [x])}
    return ref_edges(d, s, e, a, score, [x for x in reversed(els) if x not in keep], need)


def check(ctx, name, g, res, mandatory=(), ref=None, case=None, induced=False, ends=None, starts=None, orig=None, **det):
    ctx.step()
    d, s, e, a = g
    rd, rs, re_, ra = (dict(x) for x in res)
    det = dict(det, graph=[str(x) for x in g], result=[str(x) for x in (rd, rs, re_, ra)])
    if orig != g:
        raise Violation("%s changes the graph it is given" % name, **det)
    for what, r, o in (("edge", rd, d), ("start activity", rs, starts or s), ("end activity", re_, ends or e), ("activity", ra, a)):
        if any(k not in o or o[k] != v for k, v in r.items()):
            raise Violation("%s returns an %s that is not one of the graph with its frequency" % (name, what), **det)
    if not (set(itertools.chain(*rd)) | set(rs) | set(re_)) <= set(ra):
        raise Violation("%s leaves edges, start or end activities of removed activities" % name, **det)
    f, b = reach(rd, rs, re_)
    if set(ra) - (f & b):
        raise Violation("%s leaves an activity on no path from a start to an end activity" % name, activities=sorted(set(ra) - (f & b)), **det)
    if not set(mandatory) <= set(ra):
        raise Violation("%s removes an activity that has to stay" % name, activities=sorted(set(mandatory) - set(ra)), **det)
    if ref is not None and tuple(ref) != (rd, rs, re_, ra):
        raise Violation("%s does not remove the least frequent elements that can go" % name, want=[str(x) for x in ref], **det)


def run(case, ctx):
    n, edges, S, E, mode = case
    ctx.state(case)
    g = weights(*case)
    d, s, e, a = g
    fresh = lambda: copy.deepcopy(g)
    exact = mode != 2
    tot = sorted(a, key=lambda x: -a[x])
    for pct in sorted({k / (n - 1) for k in range(n)} | {0.2, 0.5 / (n - 1)}):
        x = fresh()
        res = F.filter_dfg_on_activities_percentage(*x, pct)
        k = math.ceil((n - 1) * pct) + 1
        check(ctx, "activity filter", g, res, mandatory=tot[:k] if exact else (), ref=ref_activities(*g, pct) if exact else None, orig=x, percentage=pct)
        if len(res[3]) < k or (pct == 1 and tuple(res) != g):
            raise Violation("activity filter keeps fewer activities than asked", graph=[str(y) for y in g], result=[str(y) for y in res], percentage=pct)
    val = lambda k: {"d": d, "s": s, "e": e}[k[0]][k[1]]
    m = len(d) + len(s) + len(e)
    dist = len({val(k) for k in [("d", x) for x in d] + [("s", x) for x in s] + [("e", x) for x in e]}) == m
    for pct in sorted({0, 1, 0.2, 0.5, 0.8, 1 / (m - 1), (m - 2) / (m - 1)}):
        for ka in (False, True):
            x = fresh()
            res = F.filter_dfg_on_paths_percentage(*x, pct, keep_all_activities=ka)
            check(ctx, "path filter", g, res, mandatory=a if ka else (), ref=ref_paths(*g, lambda i, v, t: i < math.ceil((t - 1) * pct) + 1, val, ka) if dist else None, orig=x, percentage=pct, keep_all=ka)
            if pct == 1 and tuple(res) != g:
                raise Violation("path filter at 100 percent changes the graph", graph=[str(y) for y in g], result=[str(y) for y in res])
    dep = {k: (d[k] - d.get(k[::-1], 0)) / (d[k] + d.get(k[::-1], 0) + 1) for k in d}
    sc = lambda k: dep[k[1]] if k[0] == "d" else 1.0
    for thr in (-1, 0, 0.3, 0.7, 0.85):
        low = [v for v in dep.values() if v < thr]
        for ka in (False, True):
            x = fresh()
            res = F.filter_dfg_keep_connected(*x, thr, keep_all_activities=ka)
            check(ctx, "dependency filter", g, res, mandatory=a if ka else (), ref=ref_paths(*g, lambda i, v, t: v >= thr, sc, ka) if len(set(low)) == len(low) else None, orig=x, threshold=thr, keep_all=ka)
            if any(k not in res[0] for k in d if dep[k] >= thr and len(d) > 1):
                raise Violation("dependency filter removes an edge above the threshold", graph=[str(y) for y in g], result=[str(y) for y in res], threshold=thr)
    for t in a:
        x = fresh()
        res = F.filter_dfg_to_activity(*x, t)
        d2 = {k: v for k, v in d.items() if k[0] != t}
        keep = useful(list(d2), list(s), [t])
        w = drop((d2, s, {t: a[t]}, a), set(a) - keep)
        check(ctx, "filter to an activity", g, res, mandatory=keep, ref=w, orig=x, ends={t: a[t]}, activity=t)
        x = fresh()
        res = F.filter_dfg_from_activity(*x, t)
        d2 = {k: v for k, v in d.items() if k[1] != t}
        keep = useful(list(d2), [t], list(e))
        check(ctx, "filter from an activity", g, res, mandatory=keep, ref=drop((d2, {t: a[t]}, e, a), set(a) - keep), orig=x, starts={t: a[t]}, activity=t)
        x = fresh()
        res = F.filter_dfg_contain_activity(*x, t)
        up, down = clos([k[::-1] for k in d], [t]), clos(list(d), [t])
        w = drop(g, set(a) - (up | down))
        w = (w[0], {k: v for k, v in s.items() if k in up}, {k: v for k, v in e.items() if k in down}, w[3])
        check(ctx, "filter containing an activity", g, res, mandatory=up | down, ref=w, orig=x, activity=t)
    ctx.outcome("%d activities mode %d" % (n, mode))


# ------------------------------------------------------------------ graph utilities
def ugen(tier):
    for n in (1, 2, 3):
        prs = list(itertools.product(range(n), repeat=2))
        for mask in range(2 ** len(prs)):
            yield [n, [p for i, p in enumerate(prs) if mask >> i & 1], mask % 3]
    prs = [p for p in itertools.product(range(4), repeat=2) if p[0] != p[1] or p[0] == 2]
    for mask in range(0, 2 ** len(prs), 1 if tier == "thorough" else 3):
        yield [4, [p for i, p in enumerate(prs) if mask >> i & 1], mask % 3]


def urun(case, ctx):
    n, edges, mode = case
    ctx.state(case)
    d, _, _, ac = weights(n, edges, [], [], mode)
    N = NAMES[:n]
    lst = list(d.items())
    out = {x: {q: v for (p, q), v in d.items() if p == x} for x in N}
    inn = {x: {p: v for (p, q), v in d.items() if q == x} for x in N}
    used = {x for k in d for x in k}

    def eq(name, got, want):
        ctx.step()
        if got != want:
            raise Violation("%s of a directly-follows graph" % name, graph=str(d), got=str(got), want=str(want))
    for x in (d, lst):
        eq("outgoing edges", U.get_outgoing_edges(x), {k: v for k, v in out.items() if v})
        eq("ingoing edges", U.get_ingoing_edges(x), {k: v for k, v in inn.items() if v})
        eq("inferred start activities", sorted(U.infer_start_activities(x)), [k for k in N if out[k] and not inn[k]])
        eq("inferred end activities", sorted(U.infer_end_activities(x)), [k for k in N if inn[k] and not out[k]])
        eq("activities", U.get_activities_from_dfg(x), sorted(used))
        eq("self-loops", sorted(U.get_activities_self_loop(x)), [k for k in N if k in out[k]])
        eq("largest count of an activity", [U.get_max_activity_count(x, k) for k in N], [max([*out[k].values(), *inn[k].values()], default=-1) for k in N])
        tot = {k: (sum(out[k].values()), sum(inn[k].values())) for k in N}
        eq("largest occurrence", U.max_occ_all_activ(x), max([v for t in tot.values() for v in t if v], default=-1))
        eq("largest occurrence among activities", U.max_occ_among_specif_activ(x, N[:2]), max([v for k in N[:2] for v in tot[k] if v], default=-1))
        eq("count of start activities", U.sum_start_activities_count(x), sum(sum(out[k].values()) for k in N if not inn[k]))
        eq("count of end activities", U.sum_end_activities_count(x), sum(sum(inn[k].values()) for k in N if not out[k]))
        eq("direction of activities", U.get_activities_direction(x, N), {k: (o - i) / (o + i + 1) for k, (o, i) in tot.items()})
        if d:
            M, idx = U.get_dfg_np_matrix(x)
            eq("matrix", {(idx[i], idx[j]): int(M[i, j]) for i in idx for j in idx if M[i, j]}, d)
        thr = (0.16, 0.5, 1.0)[mode]
        mx = {k: max([*out[k].values(), *inn[k].values()], default=-1) for k in N}
        want = {k: v for k, v in d.items() if v >= min(mx[k[0]], mx[k[1]]) * thr}
        eq("noise filter", dict(F.clean_dfg_based_on_noise_thresh(x, N, thr, parameters={})), want)
    eq("edges among activities", dict(U.filter_dfg_on_act(lst, N[:2])), {k: v for k, v in d.items() if set(k) <= set(N[:2])})
    eq("edges without their inverse", dict(U.negate(lst)), {k: v for k, v in d.items() if k[::-1] not in d})
    for k in N:
        eq("activities after", U.get_all_activities_connected_as_output_to_activity(lst, k), set(out[k]))
        eq("activities before", U.get_all_activities_connected_as_input_to_activity(lst, k), set(inn[k]))
    succ = {k: clos(list(d), list(out[k])) for k in N}
    pred = {k: clos([x[::-1] for x in d], list(inn[k])) for k in N}
    eq("successors", U.get_successors(d, set(N)), succ)
    eq("predecessors", U.get_predecessors(d, set(N)), pred)
    eq("successors", U.get_successors(d), {k: v for k, v in succ.items() if k in used})
    eq("transitive relations", U.get_transitive_relations(d, set(N)), (pred, succ))
    eq("alphabet", U.get_alphabet(d), used)
    und = list(d) + [k[::-1] for k in d]
    eq("connected components", sorted(sorted(c) for c in U.get_connected_components(U.get_ingoing_edges(d), U.get_outgoing_edges(d), N)), sorted(map(sorted, {frozenset(clos(und, [k])) for k in N})))
    ctx.outcome("utilities")


def families(tier):
    return [("filters", gen, run), ("utilities", ugen, urun)]
