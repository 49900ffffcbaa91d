"""C11 Fitness, precision, generalization, simplicity and EMD against exhaustive computation from their definitions."""
import itertools, math
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.algo.evaluation.precision import algorithm as prec
from pm4py.algo.evaluation.simplicity import algorithm as simp
from pm4py.algo.evaluation.generalization import algorithm as genz
from pm4py.algo.evaluation import algorithm as evaluation
from pm4py.algo.conformance.tokenreplay import algorithm as tbr
from checks.C08 import usable, canon_labels, mk_trace, optimum, std, BIG
from checks.C09 import mk_log, mk_df
from checks.C10 import is_exact, eventually, fitness as tfit

ID, TITLE = "C11", "Fitness, precision, generalization and simplicity match definitions"
BOUNDS = {"quick": "bounded nets up to 3 places x 3 transitions and nets of process trees with <=3 leaves, with logs of 1..3 traces of length <=3 (event log and dataframe); EMD between all pairs of stochastic languages "
                   "with <=4 words of probability k/4 over traces of length <=2", "thorough": "more nets and logs, EMD with denominators up to 5"}
ASSUMPTIONS = ["token-based ETC precision is compared on nets without invisible and duplicate transitions (elsewhere the replay is heuristic): there the replay itself is checked by C10",
               "a prefix that the net cannot replay does not count; among several ways to replay a prefix those with the fewest invisible transitions count (cheapest alignments)"]
BUDGET = {"quick": 300, "thorough": 800}


def min_tau_markings(N, w, ctx):
    """markings right after replaying w with the least number of invisible firings"""
    level = {(N.im, 0)}
    seen = set(level)
    while level:
        # zero-cost closure (visible moves)
        todo, cur = list(level), set(level)
        while todo:
            m, i = todo.pop()
            if i < len(w):
                for t in N.trans:
                    if t["label"] == w[i] and N.enabled(m, t):
                        s = (N.fire(m, t), i + 1)
                        ctx.step()
                        if s not in seen:
                            seen.add(s)
                            cur.add(s)
                            todo.append(s)
        fin = {m for m, i in cur if i == len(w)}
        if fin:
            return fin
        level = set()
        for m, i in cur:
            for t in N.trans:
                if t["label"] is None and N.enabled(m, t):
                    s = (N.fire(m, t), i)
                    if s not in seen:
                        seen.add(s)
                        level.add(s)
    return set()


def ref_precision(N, L, ctx, token=False):
    foll, cnt = {}, {}
    for w in L:
        for i in range(1, len(w)):
            p = tuple(w[:i])
            foll.setdefault(p, set()).add(w[i])
            cnt[p] = cnt.get(p, 0) + 1
    at = ee = 0
    for p in foll:
        ms = min_tau_markings(N, p, ctx)
        if not ms:
            continue
        act = set()
        for m in ms:
            act |= {N.trans[i]["label"] for i in eventually(N, m)}
        at += len(act) * cnt[p]
        ee += len(act - foll[p]) * cnt[p]
    en = {N.trans[i]["label"] for i in eventually(N, N.im)}
    st = {w[0] for w in L if w}
    at += len(L) * len(en)
    ee += len(L) * len(en - st)
    return 1 - ee / at if at else 1.0


def near(a, b, e=1e-9):
    return abs(a - b) <= e


def r_log(d, ctx):
    if "t" in d:
        net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(d["t"]))
    else:
        net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d)
    mc, sy = std(N), [0] * len(N.trans)
    worst = optimum(N, [], [], mc, sy) // BIG
    labs = {t["label"] for t in N.trans}
    for L in d["logs"]:
        ctx.trace()
        log, df = mk_log(L), mk_df(L)
        # alignment fitness
        cs = [optimum(N, w, [BIG] * len(w), mc, sy) // BIG for w in L]
        den = [len(w) + worst for w in L]
        fs = [1 - c / q if q else 1.0 for c, q in zip(cs, den)]
        fits = sum(1 for c in cs if c == 0)
        for nm, obj in (("log", log), ("df", df)):
            r = pm4py.fitness_alignments(obj, net, im, fm)
            if not near(r["average_trace_fitness"], sum(fs) / len(fs), 1e-6) or not near(r["averageFitness"], sum(fs) / len(fs), 1e-6):
                raise Violation("alignment-based average trace fitness is wrong", log=L, reported=r["average_trace_fitness"], expected=sum(fs) / len(fs), kind=nm)
            lf = 1 - sum(cs) / sum(den) if sum(den) else 1.0
            if not near(r["log_fitness"], lf, 1e-3) or (r["log_fitness"] == 1.0) != (lf == 1.0):
                if not (lf == 1.0 and near(r["log_fitness"], lf, 1e-3)):
                    raise Violation("alignment-based log fitness is wrong", log=L, reported=r["log_fitness"], expected=lf, kind=nm)
            if not near(r["percentage_of_fitting_traces"], 100.0 * fits / len(L)) or not near(r["percFitTraces"], 100.0 * fits / len(L)):
                raise Violation("percentage of fitting traces is wrong", log=L, reported=r["percentage_of_fitting_traces"], expected=100.0 * fits / len(L), kind=nm)
            if not all(-1e-9 <= r[k] <= 1 + 1e-9 for k in ("average_trace_fitness", "log_fitness")):
                raise Violation("fitness outside [0,1]", log=L, reported=r)
        # precision
        exp = ref_precision(N, L, ctx)
        for nm, obj in (("log", log), ("df", df)):
            got = pm4py.precision_alignments(obj, net, im, fm)
            if not near(got, exp):
                raise Violation("alignment-based precision is wrong", log=L, reported=got, expected=exp, kind=nm)
        tok = None
        for nm, obj in (("log", log), ("df", df)):
            tok = pm4py.precision_token_based_replay(obj, net, im, fm)
            if not -1e-9 <= tok <= 1 + 1e-9:
                raise Violation("token-based precision outside [0,1]", log=L, reported=tok)
            if is_exact(N) and all(x in labs for w in L for x in w):
                ctx.outcome("token precision exact")
                if not near(tok, exp):
                    raise Violation("token-based precision is wrong", log=L, reported=tok, expected=exp, kind=nm)
        # generalization
        res = tbr.apply(log, net, im, fm)
        occ = {t: 0 for t in net.transitions}
        for x in res:
            for t in x["activated_transitions"]:
                occ[t] += 1
        g = 1 - sum(1 / math.sqrt(k) if k else 1 for k in occ.values()) / len(occ)
        for nm, obj in (("log", log), ("df", df)):
            got = pm4py.generalization_tbr(obj, net, im, fm)
            if not near(got, g):
                raise Violation("generalization is wrong", log=L, reported=got, expected=g, kind=nm)
        # all at once
        arc = simplicity(N)
        ev = evaluation.apply(log, net, im, fm)
        lf = tfit(*[sum(x[k] for x in res) for k in ("missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens")])
        e2 = {"generalization": g, "simplicity": arc, "precision": tok, "metricsAverageWeight": (lf + tok + g + arc) / 4, "fscore": 2 * lf * tok / (lf + tok) if lf + tok else 0}
        for k in e2:
            if not near(ev[k], e2[k]):
                raise Violation("overall evaluation: %s is wrong" % k, log=L, reported=ev[k], expected=e2[k])
    ctx.outcome("precision %s" % ("1" if exp == 1 else "<1"))


def simplicity(N, k=2):
    deg = {("p", p): 0 for p in N.places}
    ds = []
    for t in N.trans:
        ds.append(len(t["pre"]) + len(t["post"]))
        for p in list(t["pre"]) + list(t["post"]):
            deg[("p", p)] += 1
    al = ds + list(deg.values())
    return 1 / (1 + max(sum(al) / len(al) - k, 0)) if al else 1.0


def r_simple(d, ctx):
    net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d)
    ctx.trace()
    got = pm4py.simplicity_petri_net(net, im, fm)
    if not near(got, simplicity(N)) or not 0 <= got <= 1:
        raise Violation("arc-degree simplicity is wrong", reported=got, expected=simplicity(N))
    for k in (1, 3):
        got = simp.apply(net, parameters={"k": k}, variant=simp.Variants.SIMPLICITY_ARC_DEGREE)
        if not near(got, simplicity(N, k)):
            raise Violation("arc-degree simplicity (k=%d) is wrong" % k, reported=got, expected=simplicity(N, k))
    card = sum(len({frozenset(t["post"]) for t in N.trans if p in t["pre"]}) for p in N.places)
    got = pm4py.simplicity_petri_net(net, im, fm, variant="extended_cardoso")
    if got != card:
        raise Violation("extended Cardoso metric is wrong", reported=got, expected=card)
    order, edges = N.graph(limit=200)
    ctx.step(len(edges))
    comp = sccs(order, edges)
    one, many = len({(a, b) for a, _, b in edges}), len(edges)
    got = pm4py.simplicity_petri_net(net, im, fm, variant="extended_cyclomatic")
    if got not in (one - len(order) + comp, many - len(order) + comp):      # parallel arcs of the reachability graph may or may not be merged
        raise Violation("extended cyclomatic metric is wrong", reported=got, expected=many - len(order) + comp)


def sccs(order, edges):
    succ = {}
    for a, _, b in edges:
        succ.setdefault(a, set()).add(b)
    reach = {}
    for s in order:
        seen, todo = {s}, [s]
        while todo:
            for q in succ.get(todo.pop(), ()):
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
        reach[s] = seen
    return len({frozenset(q for q in reach[s] if s in reach[q]) for s in order})


def lev(a, b):
    d = {}
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            d[i, j] = i + j if not i or not j else min(d[i - 1, j] + 1, d[i, j - 1] + 1, d[i - 1, j - 1] + (a[i - 1] != b[j - 1]))
    return d[len(a), len(b)]


def r_emd(d, ctx):
    ctx.state(d)
    ctx.trace()
    A = [tuple(x) for x in d["a"]]
    B = [tuple(x) for x in d["b"]]
    n = len(A)
    cost = [[lev(x, y) / max(len(x), len(y)) if x or y else 0.0 for y in B] for x in A]
    best = min(sum(cost[i][p[i]] for i in range(n)) for p in itertools.permutations(range(n))) / n
    ctx.step(math.factorial(n))
    la = {x: A.count(x) / n for x in A}
    lb = {x: B.count(x) / n for x in B}
    for f, e in ((pm4py.compute_emd(la, lb), best), (pm4py.compute_emd(lb, la), best)):
        if not near(f, e, 1e-6):
            raise Violation("earth mover's distance is wrong", reported=f, expected=e)
    ctx.outcome("emd 0" if best == 0 else "emd >0")


def g_emd(tier):
    ws = [list(x) for x in gen.traces("ab", 2)] + [["b", "a", "a"]]
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        ms = list(gen.multisets(range(len(ws)), n))
        k = 0
        for a in ms:
            for b in ms:
                if b < a:
                    continue
                k += 1
                if n >= 4 and tier == "quick" and k % 10:
                    continue
                if n == 5 and k % 20:
                    continue
                yield {"a": [ws[i] for i in a], "b": [ws[i] for i in b]}


def specs(th):
    s = [gen.nets(2, 2, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(3, 3, ["a", "b", None], maxpre=1, maxpost=1),
         gen.nets(3, 2, ["a", None], weights=(1, 2), maxpre=1, maxpost=2, im=[[0, 2]]), gen.nets(2, 2, ["a", "b", None], weights=(1, 2), maxpre=1, maxpost=1, im=[[0, 2]], fm=[[1, 1]]),
         gen.nets(2, 3, ["a", "b", None], maxpre=1, maxpost=1)]
    if th:
        s += [gen.nets(4, 3, ["a", "b", None], maxpre=1, maxpost=1)]
    return s


W = [["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a"], ["a", "a", "b"], ["a", "b", "a"], ["a", "c", "b"]]
LOGS = [[x] for x in W] + [[a, b] for a in W for b in W if a <= b] + [[["a", "b"], ["b", "a"], ["a"]], [["a", "b"], ["a", "b"], ["a", "a", "b"]], [["a", "b", "a"], ["b", "b"], ["a"], ["b", "a", "b"]]]


def g_log(tier):
    th = tier == "thorough"
    k = 0
    for s in specs(th):
        for d in s:
            if canon_labels(d) and usable(d):
                k += 1
                # split the logs over the nets so that each net meets many and each log meets many
                n = 15 if th else 5
                yield {"net": d, "logs": [LOGS[(k * 7 + j * 11) % len(LOGS)] for j in range(n)]}


def g_tree(tier):
    th = tier == "thorough"
    k = 0
    for n in (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*", "O")):
            if t is None:
                continue
            k += 1
            if th or n < 3 or k % 3 == 0:
                yield {"t": t, "logs": [LOGS[(k * 7 + j * 11) % len(LOGS)] for j in range(4)]}
    for t in gen.trees("abc", 4, ops=("->", "X", "+", "*"), tau=False):
        k += 1
        if th or k % 8 == 0:
            yield {"t": t, "logs": [[["a", "b", "c"]], [["a", "b"], ["c", "b", "a"]], [["a", "c"], ["b", "c", "a"], ["a", "b", "c"]]]}


def g_simple(tier):
    for s in specs(True) + [gen.nets(3, 3, ["a", None], maxpre=2, maxpost=2)]:
        k = 0
        for d in s:
            if not canon_labels(d):
                continue
            N = ref.net_ref(d)
            try:
                N.graph(limit=60, bound=3)
            except ref.Blowup:
                continue
            k += 1
            if tier == "thorough" or k % 3 == 0:
                yield {"net": d}


def r_names(d, ctx):
    """activity names, attribute keys and worker processes do not matter"""
    import pandas as pd
    ctx.state(d)
    base = {"n": 3, "trans": [["a", [[0, 1]], [[1, 1]]], ["b", [[1, 1]], [[2, 1]]], [None, [[1, 1]], [[0, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]}
    ren = d["names"]
    net, im, fm, ps, ts = ref.net_to_pm4py({**base, "trans": [[ren.get(t[0], t[0]), t[1], t[2]] for t in base["trans"]]})
    N = ref.net_from_pm4py(net, im, fm)
    L = [[ren.get(x, x) for x in w] for w in d["log"]]
    exp = ref_precision(N, L, ctx)
    df = mk_df(L).rename(columns={"concept:name": "act", "case:concept:name": "cid", "time:timestamp": "ts"})
    kw = dict(activity_key="act", case_id_key="cid", timestamp_key="ts")
    ctx.trace()
    if not near(pm4py.precision_alignments(df, net, im, fm, multi_processing=d["mp"], **kw), exp):
        raise Violation("alignment-based precision is wrong with other column or activity names", log=L)
    if d["mp"]:
        return
    net2, im2, fm2, ps, ts = ref.net_to_pm4py({**base, "trans": [[ren.get(t[0], t[0]), t[1], t[2]] for t in base["trans"][:2]]})
    N2 = ref.net_from_pm4py(net2, im2, fm2)
    if not near(pm4py.precision_token_based_replay(df, net2, im2, fm2, **kw), ref_precision(N2, L, ctx)):
        raise Violation("token-based precision is wrong with other column or activity names", log=L)
    f = pm4py.fitness_alignments(df, net, im, fm, **kw)["percentage_of_fitting_traces"]
    if not near(f, 100.0 * sum(ref.accepts(N, w) for w in L) / len(L)):
        raise Violation("fitness is wrong with other column or activity names", log=L)


def g_names(tier):
    for names in ({}, {"a": "x,y", "b": "z"}, {"a": "p q", "b": "é"}, {"a": ",", "b": "a,a"}, {"a": ">>x", "b": "'"}):
        for log in ([["a", "b"]], [["a", "a", "b"], ["a", "b"]], [["a", "b", "a"], ["b"]]):
            yield {"names": names, "log": log, "mp": False}
    yield {"names": {}, "log": [["a", "b"], ["a", "a", "b"]], "mp": True}
    yield {"names": {"a": "A1"}, "log": [["a", "b"], ["b"]], "mp": True}


def families(tier):
    return [("nets", g_log, r_log), ("process_trees", g_tree, r_log), ("simplicity", g_simple, r_simple), ("emd", g_emd, r_emd), ("names", g_names, r_names)]
