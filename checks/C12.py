"""C12 Footprints of logs, trees, nets and DFGs against the relations of the enumerated language; footprint conformance."""
import itertools
from collections import Counter, deque
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.algo.discovery.footprints import algorithm as fpd
from pm4py.algo.conformance.footprints import algorithm as fpc
from pm4py.algo.conformance.footprints.util import evaluation as fpe
from pm4py.objects.process_tree.utils import bottomup
from checks.C09 import mk_log, mk_df
from checks.C08 import usable, canon_labels

ID, TITLE = "C12", "Footprints are exact and footprint conformance follows from them"
BOUNDS = {"quick": "all process trees with <=3 leaves over {a,b,c,tau} with ->,X,+,O,loop (duplicate activities included), all 4-leaf trees over {a,b,tau} of depth-limited arity 2; all bounded nets <=3 places x 3 transitions and the nets of the trees; "
                   "all logs of <=3 traces of length <=3 (event log and dataframe); conformance of every such log against a family of models",
          "thorough": "4-leaf trees over 3 activities, nets with 4 places"}
ASSUMPTIONS = ["interleaving operators and loops with more than two children are outside the footprint discovery", "nets are bounded and their relations do not refer to a final marking (the discovery reports no end activities for nets)"]
BUDGET = {"quick": 300, "thorough": 800}


def facts(A, ctx=None):
    """relations of the reachable behaviour of A by exhaustive exploration of its states"""
    init = A.init()
    succ, todo = {}, [init]
    while todo:
        s = todo.pop()
        if s in succ:
            continue
        succ[s] = list(A.succ(s))
        if ctx is not None:
            ctx.step(len(succ[s]))
        for _, q in succ[s]:
            todo.append(q)

    def ee(s):
        seen, td, out, acc = {s}, [s], set(), False
        while td:
            x = td.pop()
            acc = acc or A.acc(x)
            for a, q in succ[x]:
                if a is not None:
                    out.add(a)
                elif q not in seen:
                    seen.add(q)
                    td.append(q)
        return out, acc
    memo = {}

    def E(s):
        if s not in memo:
            memo[s] = ee(s)
        return memo[s]
    df, ends, acts = set(), set(), set()
    for s in succ:
        for a, q in succ[s]:
            if a is not None:
                acts.add(a)
                nx, acc = E(q)
                df |= {(a, b) for b in nx}
                if acc:
                    ends.add(a)
    starts, skip = E(init)
    always = set()
    for x in acts:
        seen, td, bad = {init}, [init], False
        while td and not bad:
            s = td.pop()
            bad = A.acc(s)
            for a, q in succ[s]:
                if a != x and q not in seen:
                    seen.add(q)
                    td.append(q)
        if not bad:
            always.add(x)
    # shortest accepted word
    dist, dq, best = {init: 0}, deque([init]), None
    while dq:
        s = dq.popleft()
        if A.acc(s):
            best = dist[s]
            break
        for a, q in succ[s]:
            d = dist[s] + (a is not None)
            if q not in dist or d < dist[q]:
                dist[q] = d
                (dq.append if a is not None else dq.appendleft)(q)
    return {"df": df, "start": set(starts), "end": ends, "acts": acts, "skip": skip, "always": always, "min": best}


def split(df):
    par = {(a, b) for a, b in df if (b, a) in df}
    return df - par, par


def cmp_fp(fp, F, what, **kw):
    seq, par = split(F["df"])
    exp = {"sequence": seq, "parallel": par, "start_activities": F["start"], "activities": F["acts"], "end_activities": F["end"], "skippable": F["skip"], "activities_always_happening": F["always"], "min_trace_length": F["min"], "dfg": F.get("dfg")}
    for k, v in fp.items():
        if k in exp and exp[k] is not None:
            if k == "dfg":
                v = {x: y for x, y in v.items() if y}
            if (set(v) if isinstance(exp[k], set) else v) != exp[k]:
                raise Violation("footprints of %s: %s is wrong" % (what, k), reported=str(v), expected=str(exp[k]), **kw)


def need(fp, keys, what):
    for k in keys:
        if k not in fp:
            raise Violation("footprints of %s do not report %s" % (what, k))


BASE = ("sequence", "parallel", "activities", "start_activities")


def r_tree(d, ctx):
    t = ref.tree_to_pm4py(d)
    ctx.state(d)
    F = facts(ref.Tree(d), ctx)
    F["acts"] = set(ref.tree_labels(d)) - {None}
    fp = pm4py.discover_footprints(t)
    need(fp, BASE + ("end_activities", "skippable", "activities_always_happening", "min_trace_length"), "a tree")
    cmp_fp(fp, F, "a tree", tree=d)
    if bottomup.get_min_trace_length(t) != F["min"]:
        raise Violation("minimum trace length of a tree is wrong", tree=d)
    ctx.outcome("skippable" if F["skip"] else "not skippable")
    if any(op in str(d) for op in ("O",)):
        ctx.outcome("with OR")
    # the same from its net
    net, im, fm = pm4py.convert_to_petri_net(t)
    N = ref.net_from_pm4py(net, im, fm)
    FN = facts(N, ctx)
    FN["acts"] = {x["label"] for x in N.trans} - {None}
    fp = pm4py.discover_footprints(net, im, fm)
    need(fp, BASE, "a net")
    cmp_fp(fp, FN, "the net of a tree", tree=d)


def r_net(d, ctx):
    net, im, fm, ps, ts = ref.net_to_pm4py(d)
    N = ref.net_from_pm4py(net, im, fm)
    try:
        N.graph(500, 6)
    except ref.Blowup:
        return
    ctx.state(d)
    F = facts(N, ctx)
    F["acts"] = {x["label"] for x in N.trans} - {None}
    fp = pm4py.discover_footprints(net, im, fm)
    need(fp, BASE, "a net")
    cmp_fp(fp, F, "a net", net=d)
    ctx.outcome("net with %s pairs" % ("no" if not F["df"] else "parallel" if split(F["df"])[1] else "only sequential"))


def log_facts(L):
    dfg = Counter((w[i], w[i + 1]) for w in L for i in range(len(w) - 1))
    acts = {x for w in L for x in w}
    return {"df": set(dfg), "dfg": dict(dfg), "start": {w[0] for w in L if w}, "end": {w[-1] for w in L if w}, "acts": acts, "min": min(len(w) for w in L), "skip": None,
            "always": None}


def r_log(L, ctx):
    ctx.state(L)
    log = mk_log(L)
    F = log_facts(L)
    K = BASE + ("end_activities", "min_trace_length", "dfg")
    fp = fpd.apply(log, variant=fpd.Variants.ENTIRE_EVENT_LOG)
    need(fp, K, "a log")
    cmp_fp(fp, F, "a log", log=L)
    tt = pm4py.discover_footprints(log)
    if len(tt) != len(L):
        raise Violation("trace-by-trace footprints: wrong number of results", log=L)
    for w, f in zip(L, tt):
        need(f, K, "a trace")
        cmp_fp(f, log_facts([w]), "a trace", trace=w)
        if list(f["trace"]) != list(w):
            raise Violation("trace-by-trace footprints: wrong trace", trace=w)
    if all(L):
        fp = pm4py.discover_footprints(mk_df(L))
        need(fp, K, "a dataframe")
        cmp_fp(fp, F, "a dataframe", log=L)
    fp = fpd.apply(F["dfg"], variant=fpd.Variants.DFG)
    seq, par = split(F["df"])
    if (set(fp["sequence"]), set(fp["parallel"])) != (seq, par) or set(fp["activities"]) != {x for e in F["df"] for x in e}:
        raise Violation("footprints of a DFG are wrong", dfg=str(F["dfg"]))


MODELS = [["L", "a"], ["->", "a", "b"], ["X", "a", ["->", "a", "b"]], ["+", "a", "b"], ["*", "a", "b"], ["*", "a", None], ["O", "a", "b"], ["->", "a", ["X", "b", None], "c"], ["->", "a", ["+", "b", "c"]], ["*", ["->", "a", "b"], "c"],
          ["X", ["->", "a", "b"], ["->", "b", "a"]], ["->", ["X", "a", None], "b"], ["+", ["->", "a", "b"], "c"], ["O", ["->", "a", "b"], "c"], ["*", None, "a"], ["*", ["X", "a", "b"], ["->", "c", "a"]], ["X", "c", None]]


def model(i):
    d = MODELS[i]
    return d[1] if d[0] == "L" else d


def r_conf(d, ctx):
    i, Ls = d["m"], d["logs"]
    md = model(i)
    t = ref.tree_to_pm4py(md)
    A = ref.Tree(md)
    F = facts(A, ctx)
    ctx.state(d)
    net, im, fm = pm4py.convert_to_petri_net(t)
    fptree, fpnet = pm4py.discover_footprints(t), pm4py.discover_footprints(net, im, fm)
    for L in Ls:
        ctx.trace()
        log = mk_log(L)
        for kind, fpm in (("tree", fptree), ("net", fpnet)):
            mdf = set(fpm["sequence"]) | set(fpm["parallel"])
            objs = [("log", fpd.apply(log, variant=fpd.Variants.ENTIRE_EVENT_LOG)), ("traces", pm4py.discover_footprints(log))]
            if all(L):
                objs.append(("dataframe", pm4py.discover_footprints(mk_df(L))))
            for on, fpl in objs:
                parts = [(w, log_facts([w])) for w in L] if on == "traces" else [(None, log_facts(L))]
                res = pm4py.conformance_diagnostics_footprints(fpl, fpm)
                rl = res if on == "traces" else [res]
                if len(rl) != len(parts):
                    raise Violation("footprint conformance: wrong number of results", model=md, log=L)
                # log_model variant
                for strict in (False, True):
                    lm = fpc.apply(fpl, fpm, variant=fpc.Variants.LOG_MODEL, parameters={"strict": strict})
                    lm = lm if on == "traces" else [lm]
                    for (w, f), v in zip(parts, lm):
                        sq, pr = split(f["df"])
                        e = ((sq - set(fpm["sequence"])) | (pr - set(fpm["parallel"]))) if strict else f["df"] - mdf
                        if set(v) != e:
                            raise Violation("footprint conformance (log against model%s): wrong deviations" % (", strict" if strict else ""), model=md, log=L, reported=str(v), expected=str(e))
                for (w, f), r in zip(parts, rl):
                    exp = {"footprints": f["df"] - F["df"], "start_activities": f["start"] - F["start"]}
                    fit = True
                    if kind == "tree":
                        exp["end_activities"] = f["end"] - F["end"]
                        exp["min_length_fit"] = f["min"] >= F["min"]
                        fit = exp["min_length_fit"]
                        if w is not None:
                            exp["activities_always_happening"] = F["always"] - f["acts"]
                    for k, v in exp.items():
                        if (set(r[k]) if isinstance(v, set) else r[k]) != v:
                            raise Violation("footprint conformance (%s, %s): %s is wrong" % (on, kind, k), model=md, log=L, trace=w, reported=str(r[k]), expected=str(v))
                    fit = fit and not any(v for v in exp.values() if isinstance(v, set))
                    if bool(r["is_footprints_fit"]) != fit:
                        raise Violation("footprint conformance (%s, %s): is_footprints_fit is wrong" % (on, kind), model=md, log=L, trace=w, reported=r["is_footprints_fit"], expected=fit)
                    if w is not None and ref.accepts(A, w):
                        ctx.outcome("fitting trace")
                        if not r["is_footprints_fit"]:
                            raise Violation("footprint conformance: a trace of the model's language deviates", model=md, trace=w)
                    else:
                        ctx.outcome("deviating" if not fit else "no deviation")
                # measures
                fit = pm4py.fitness_footprints(fpl, fpm)
                LF = log_facts(L)
                if isinstance(fit, dict):
                    pf = 100.0 * sum(1 for r in rl if r["is_footprints_fit"]) / len(rl)
                    if abs(fit["perc_fit_traces"] - pf) > 1e-9:
                        raise Violation("footprint fitness: percentage of fitting traces is wrong", model=md, log=L, reported=fit["perc_fit_traces"], expected=pf)
                    val = fit["log_fitness"]
                else:
                    val = fit
                    sq, pr = split(LF["df"])
                    dev = sum(n for e, n in LF["dfg"].items() if e not in F["df"])
                    sd, ed = len(LF["start"] - F["start"]), (len(LF["end"] - F["end"]) if kind == "tree" else 0)
                    tot = sum(LF["dfg"].values())
                    den = len(sq) + len(pr) + len(LF["start"]) + len(LF["end"])
                    e = ((1 - (dev / tot if tot else 0)) * (len(sq) + len(pr)) + len(LF["start"]) + len(LF["end"]) - sd - ed) / den if den else 1.0
                    if abs(val - e) > 1e-9:
                        raise Violation("footprint fitness is not the published ratio", model=md, log=L, reported=val, expected=e, kind=kind)
                if not -1e-9 <= val <= 1 + 1e-9:
                    raise Violation("footprint fitness outside [0,1]", model=md, log=L, reported=val)
                clean = not (LF["df"] - F["df"]) and not (LF["start"] - F["start"]) and (kind == "net" or not (LF["end"] - F["end"]))
                if (abs(val - 1) < 1e-9) != clean:
                    raise Violation("footprint fitness is 1 although pairs or activities deviate" if not clean else "footprint fitness is below 1 without any deviation", model=md, log=L, reported=val, kind=kind, on=on)
                pre = pm4py.precision_footprints(fpl, fpm)
                e = len(LF["df"] & F["df"]) / len(F["df"]) if F["df"] else 1.0
                if abs(pre - e) > 1e-9:
                    raise Violation("footprint precision is not the published ratio", model=md, log=L, reported=pre, expected=e, kind=kind, on=on)


OPS = ("->", "X", "+", "O", "*")


def g_tree(tier):
    for n in (1, 2, 3):
        for d in gen.trees("abc", n, ops=OPS):
            yield d
    for k, d in enumerate(gen.trees("ab" if tier == "quick" else "abc", 4, ops=OPS, maxar=2)):
        if tier != "quick" or k % 6 == 0:
            yield d


def g_net(tier):
    for p, t in ((2, 1), (2, 2), (3, 2), (3, 3)) if tier == "quick" else ((2, 1), (2, 2), (3, 2), (3, 3), (4, 3)):
        labs = ("a", "b", None)
        k = 0
        for d in gen.nets(p, t, labs):
            if usable(d) and canon_labels(d):
                k += 1
                if t < 3 or k % (4 if tier == "quick" and p < 4 else 2 if p < 4 else 40) == 0:
                    yield d


def g_log(tier):
    for n in (1, 2):
        for L in gen.logs("abc", 3, n, minlen=0):
            yield L
    for L in gen.logs("ab", 3 if tier == "thorough" else 2, 3, minlen=0):
        yield L


def g_conf(tier):
    al = "abc"
    for i in range(len(MODELS)):
        todo = []
        ts = [w for w in gen.traces(al, 3, 0)] + [["d"], ["a", "d"]]
        todo += [[w] for w in ts]
        prs = list(itertools.combinations_with_replacement(range(len(ts)), 2))
        todo += [[ts[x], ts[y]] for k, (x, y) in enumerate(prs) if tier == "thorough" or k % 9 == i % 9]
        for j in range(0, len(todo), 10):
            yield {"m": i, "logs": todo[j:j + 10]}


def families(tier):
    return [("tree", g_tree, r_tree), ("net", g_net, r_net), ("log", g_log, r_log), ("conformance", g_conf, r_conf)]
