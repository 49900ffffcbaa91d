"""C10 Token-based replay accounts for every token: every replay is re-executed token by token."""
import itertools
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.objects.petri_net.utils import align_utils
from pm4py.algo.conformance.tokenreplay import algorithm as tbr
from pm4py.algo.conformance.tokenreplay.variants import token_replay as TR
from pm4py.algo.evaluation.replay_fitness import algorithm as rf
from checks.C08 import usable, canon_labels, mk_trace
from checks.C09 import mk_log, mk_df

ID, TITLE = "C10", "Token-based replay accounts for every token"
BOUNDS = {"quick": "all bounded nets up to 3 places x 3 transitions (and 2 transitions with arc multiplicities 1..2), up to symmetry; nets of all process trees <=3 leaves; all traces over {a,b} (+ unknown c) of length <=3; "
                   "replay options; log-level aggregation over all multisets of <=3 traces for event logs and dataframes",
          "thorough": "4 places, traces up to length 4, trees with 4 leaves"}
ASSUMPTIONS = ["'fits' refers to the trace restricted to the activities of the net unless the option that counts unknown activities is set, as the replay ignores unknown activities",
               "consider_remaining_in_fitness=False and the token flood cleaning change the counts on purpose; only the verdict is compared there"]
BUDGET = {"quick": 300, "thorough": 800}


def simulate(N, seq):
    """execute transitions by force; returns counts per place and the marking"""
    p, c, m = [], [], []
    mk = dict(N.im)
    P = {x: 0 for x in N.places}
    C, M = dict(P), dict(P)
    for x, k in N.im:
        P[x] += k
    forced = []
    for i in seq:
        t = N.trans[i]
        miss = 0
        for x, w in t["pre"].items():
            have = mk.get(x, 0)
            if have < w:
                M[x] += w - have
                miss += w - have
                have = w
            mk[x] = have - w
            C[x] += w
        for x, w in t["post"].items():
            mk[x] = mk.get(x, 0) + w
            P[x] += w
        forced.append(miss)
    fm = dict(N.fm)
    R = {x: 0 for x in N.places}
    for x in N.places:
        C[x] += fm.get(x, 0)
        d = mk.get(x, 0) - fm.get(x, 0)
        if d < 0:
            M[x] -= d
        else:
            R[x] += d
    return P, C, M, R, {x: k for x, k in mk.items() if k}, forced


def fitness(m, c, r, p):
    return 0.5 * (1 - m / c) + 0.5 * (1 - r / p) if c > 0 and p > 0 else 1.0


def eventually(N, m, limit=400):
    """visible transitions enabled in m, possibly after silent ones; None when too many states"""
    m = ref.fz(m) if isinstance(m, dict) else m
    seen, todo, out = {m}, [m], set()
    while todo:
        s = todo.pop()
        for i, t in enumerate(N.trans):
            if N.enabled(s, t):
                if t["label"] is not None:
                    out.add(i)
                else:
                    q = N.fire(s, t)
                    if q not in seen:
                        if len(seen) > limit:
                            return None
                        seen.add(q)
                        todo.append(q)
    return out


def check_result(N, w, r, what, ctx, exact, unknown=False, **kw):
    idx = {t: i for i, t in enumerate(N.trans_objs)}
    labs = {t["label"] for t in N.trans}
    proj = [x for x in w if x in labs and x is not None]
    seq = [idx[t] for t in r["activated_transitions"]]
    vis = [N.trans[i]["label"] for i in seq if N.trans[i]["label"] is not None]
    if vis != proj:
        raise Violation("%s: the activated transitions are not those of the trace" % what, trace=w, activated=vis, **kw)
    P, C, M, R, mk, forced = simulate(N, seq)
    for i, f in zip(seq, forced):
        if f and N.trans[i]["label"] is None:
            raise Violation("%s: an invisible transition was fired without being enabled" % what, trace=w, **kw)
    if {N.place_index[p]: k for p, k in r["reached_marking"].items() if k} != mk:
        raise Violation("%s: the reached marking is not the one the activated transitions lead to" % what, trace=w, reported=str(r["reached_marking"]), expected=str(mk), **kw)
    got = (r["produced_tokens"], r["consumed_tokens"], r["missing_tokens"], r["remaining_tokens"])
    exp = tuple(sum(x.values()) for x in (P, C, M, R))
    if got != exp:
        raise Violation("%s: token counts (produced, consumed, missing, remaining) do not follow from the activated transitions" % what, trace=w, reported=got, expected=exp, **kw)
    f = fitness(exp[2], exp[1], exp[3], exp[0])
    if abs(f - r["trace_fitness"]) > 1e-9:
        raise Violation("%s: fitness is not the published formula of the counts" % what, trace=w, reported=r["trace_fitness"], expected=f, **kw)
    prob = [i for i, q in zip(seq, forced) if q]
    if sorted(idx[t] for t in r["transitions_with_problems"]) != sorted(prob):
        raise Violation("%s: transitions with problems are not those fired with missing tokens" % what, trace=w, **kw)
    fits = ref.accepts(N, proj)
    if unknown and len(proj) < len(w):
        fits = False
    clean = exp[2] == 0 and exp[3] == 0 and not (unknown and len(proj) < len(w))
    if bool(r["trace_is_fit"]) != clean:
        raise Violation("%s: reported %s although there are %s missing and %s remaining tokens" % (what, "fitting" if r["trace_is_fit"] else "not fitting", exp[2], exp[3]), trace=w, **kw)
    if r["trace_is_fit"] and not fits:
        raise Violation("%s: a trace outside the language is reported as fitting" % what, trace=w, **kw)
    if exact and not r["trace_is_fit"] and fits:
        raise Violation("%s: a trace of the language is reported as not fitting" % what, trace=w, **kw)
    ev = eventually(N, mk)
    if ev is not None and {idx[t] for t in r["enabled_transitions_in_marking"]} != ev:
        raise Violation("%s: wrong transitions reported as (eventually) enabled in the reached marking" % what, trace=w, reported=str(r["enabled_transitions_in_marking"]), expected=str(sorted(ev)), marking=str(mk), **kw)
    ctx.outcome("fit" if r["trace_is_fit"] else "unfit" if not fits else "in the language, reported unfit")
    return P, C, M, R, seq, forced


def is_exact(N):
    ls = [t["label"] for t in N.trans]
    return None not in ls and len(set(ls)) == len(ls)


def r_traces(d, ctx):
    if "t" in d:
        net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(d["t"]))
    else:
        net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d["t"] if "t" in d else d["net"])
    ex = is_exact(N)
    res = tbr.apply(mk_log(d["traces"]), net, im, fm)
    if len(res) != len(d["traces"]):
        raise Violation("number of replay results differs from the number of cases", got=len(res))
    for w, r in zip(d["traces"], res):
        ctx.trace()
        ctx.step(len(r["activated_transitions"]) + 1)
        check_result(N, w, r, "token replay", ctx, ex)
    if d.get("options"):
        P = TR.Parameters
        for what, pars in (("stopping at the first problem", {P.STOP_IMMEDIATELY_UNFIT: True}), ("cleaning the token flood", {P.CLEANING_TOKEN_FLOOD: True}),
                           ("reduction mode", {P.IS_REDUCTION: True}), ("without variants", {P.DISABLE_VARIANTS: True}), ("names", {P.RETURN_NAMES: True})):
            if what.startswith("cleaning") and not ref.is_wf(N):
                continue
            res2 = tbr.apply(mk_log(d["traces"]), net, im, fm, parameters=pars)
            for w, r, r2 in zip(d["traces"], res, res2):
                ctx.trace()
                if bool(r["trace_is_fit"]) != bool(r2["trace_is_fit"]):
                    raise Violation("token replay (%s): the verdict changes" % what, trace=w, default=r["trace_is_fit"], option=r2["trace_is_fit"])
                if what == "without variants":
                    if any(r[k] != r2[k] for k in r):
                        raise Violation("token replay (%s): result changes" % what, trace=w)
                if what == "names":
                    if r2["activated_transitions"] != [t.name for t in r["activated_transitions"]] or r2["reached_marking"] != {p.name: k for p, k in r["reached_marking"].items()} or \
                            r2["missing_tokens"] != r["missing_tokens"]:
                        raise Violation("token replay (%s): result changes" % what, trace=w)
        for one in ({P.TRY_TO_REACH_FINAL_MARKING_THROUGH_HIDDEN: False}, {P.WALK_THROUGH_HIDDEN_TRANS: False}):
            for w, r in zip(d["traces"], tbr.apply(mk_log(d["traces"]), net, im, fm, parameters=one)):
                ctx.trace()
                check_result(N, w, r, "token replay (no invisible moves)", ctx, ex)
        for w, r in zip(d["traces"], tbr.apply(mk_log(d["traces"]), net, im, fm, parameters={P.CONSIDER_ACTIVITIES_NOT_IN_MODEL_IN_FITNESS: True})):
            check_result(N, w, r, "token replay (unknown activities count)", ctx, ex, unknown=True)


T2 = list(gen.traces("ab", 2))
T3 = list(gen.traces("ab", 3)) + [["c"], ["a", "c", "b"], ["c", "a"]]


def net_specs(th):
    specs = [gen.nets(2, 1, ["a", None], maxpre=1, maxpost=1), gen.nets(2, 2, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(2, 3, ["a", "b", None], maxpre=1, maxpost=1),
             gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(3, 3, ["a", "b", None], maxpre=1, maxpost=1),
             gen.nets(3, 2, ["a", None], weights=(1, 2), maxpre=1, maxpost=2, im=[[0, 2]]), gen.nets(2, 2, ["a", "b", None], weights=(1, 2, 3), maxpre=1, maxpost=1, im=[[0, 1]], fm=[[1, 2]]),
             gen.nets(2, 2, ["a", "b", None], weights=(1, 2), maxpre=1, maxpost=1, im=[[0, 2]], fm=[[1, 1]]),
             gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2, im=[[0, 1], [1, 1]], fm=[[2, 1]]), gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2, fm=[[1, 1], [2, 1]]),
             gen.nets(4, 2, ["a", "b", None], maxpre=2, maxpost=2)]
    if th:
        specs += [gen.nets(3, 3, ["a", "b", None], maxpre=2, maxpost=2), gen.nets(4, 3, ["a", "b", None], maxpre=1, maxpost=1), gen.nets(3, 2, ["a", "b", None], weights=(1, 2), maxpre=2, maxpost=2, im=[[0, 2]])]
    return specs


def live_enough(d):
    """bounded and coverable within a small bound; the final marking need not be reachable"""
    N = ref.net_ref(d)
    try:
        order, edges = N.graph(limit=60, bound=3)
    except ref.Blowup:
        return False
    return len(set(e[1] for e in edges)) == len(N.trans)


def g_nets(tier):
    th = tier == "thorough"
    k = 0
    for s in net_specs(th):
        for d in s:
            if canon_labels(d) and live_enough(d):
                k += 1
                yield {"net": d, "traces": T3 if not th else T3 + [list(x) for x in itertools.product("ab", repeat=4)], "options": th or k % 7 == 0}


def g_trees(tier):
    th = tier == "thorough"
    k = 0
    for n in (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*", "O")):
            k += 1
            yield {"t": t, "traces": T3, "options": th or k % 3 == 0}
    for t in gen.trees("abc", 4, ops=("->", "X", "+", "*"), tau=True):
        k += 1
        if th or k % 12 == 0:
            yield {"t": t, "traces": [list(x) for x in gen.traces("abc", 3)], "options": k % 5 == 0}


def r_logs(d, ctx):
    """per-place and per-transition diagnostics and log-level figures"""
    net, im, fm, ps, ts = ref.net_to_pm4py(d["net"])
    N = ref.net_from_pm4py(net, im, fm)
    ctx.state(d)
    L = d["log"]
    P = TR.Parameters
    labs = {t["label"] for t in N.trans}
    for kind in ("log", "df", "df without grouping off"):
        obj = mk_log(L) if kind == "log" else mk_df(L)
        pars = {P.ENABLE_PLTR_FITNESS: True}
        if kind.startswith("df w"):
            pars[P.DISABLE_VARIANTS] = False
            obj = mk_log(L)
        ctx.trace()
        res, pf, tf, unknown = tbr.apply(obj, net, im, fm, parameters=pars)
        tot = {x: [0, 0, 0, 0] for x in N.places}
        fired = {t: [0, 0] for t in N.trans_objs}
        if len(res) != len(L):
            raise Violation("number of replay results differs from the number of cases (%s)" % kind)
        for w, r in zip(L, res):
            Pp, C, M, R, seq, forced = check_result(N, w, r, "token replay with place diagnostics", ctx, is_exact(N), kind=kind)
            for x in N.places:
                for j, q in enumerate((Pp, C, M, R)):
                    tot[x][j] += q[x]
            for i, f in zip(seq, forced):
                fired[N.trans_objs[i]][1 if f else 0] += 1
        for pl, v in pf.items():
            if [v["p"], v["c"], v["m"], v["r"]] != tot[N.place_index[pl]]:
                raise Violation("per-place token counts (p, c, m, r) are not the sums over the traces", kind=kind, place=pl.name, reported=[v["p"], v["c"], v["m"], v["r"]], expected=tot[N.place_index[pl]])
        for w in L:
            for x in w:
                if x not in labs and x not in unknown:
                    raise Violation("an activity that is not in the model is not reported", activity=x)
        for x in unknown:
            if x in labs:
                raise Violation("an activity of the model is reported as unknown", activity=x)
        if kind == "log":
            for t, v in tf.items():
                got = [sum(len(x) for x in v["fit_traces"].values()), sum(len(x) for x in v["underfed_traces"].values())]
                if got != fired[t]:
                    raise Violation("per-transition diagnostics do not list each execution (fit, underfed)", transition=str(t), reported=got, expected=fired[t])
    obj = mk_log(L)
    res = tbr.apply(obj, net, im, fm)
    sm = lambda k: sum(r[k] for r in res)
    fit = sum(1 for r in res if r["trace_is_fit"])
    for f in (pm4py.fitness_token_based_replay(mk_df(L), net, im, fm), pm4py.fitness_token_based_replay(obj, net, im, fm), rf.apply(obj, net, im, fm, variant=rf.Variants.TOKEN_BASED)):
        ctx.trace()
        exp = {"perc_fit_traces": 100.0 * fit / len(L), "percentage_of_fitting_traces": 100.0 * fit / len(L), "average_trace_fitness": sm("trace_fitness") / len(L),
               "log_fitness": fitness(sm("missing_tokens"), sm("consumed_tokens"), sm("remaining_tokens"), sm("produced_tokens"))}
        for k in exp:
            if abs(f[k] - exp[k]) > 1e-9:
                raise Violation("log-level token replay figure %s is wrong" % k, reported=f[k], expected=exp[k])
    dd = pm4py.conformance_diagnostics_token_based_replay(mk_df(L), net, im, fm, return_diagnostics_dataframe=True)
    if list(dd["is_fit"]) != [r["trace_is_fit"] for r in res] or list(dd["missing"]) != [r["missing_tokens"] for r in res] or list(dd["produced"]) != [r["produced_tokens"] for r in res]:
        raise Violation("replay diagnostics dataframe differs from the replay")
    one = pm4py.conformance_diagnostics_token_based_replay(mk_df(L), net, im, fm)
    for r, q in zip(res, one):
        if r["missing_tokens"] != q["missing_tokens"] or r["trace_is_fit"] != q["trace_is_fit"] or r["remaining_tokens"] != q["remaining_tokens"]:
            raise Violation("replay of a dataframe differs from the replay of the event log")


LOGNETS = [
    {"n": 3, "trans": [["a", [[0, 1]], [[1, 1]]], ["b", [[1, 1]], [[2, 1]]], [None, [[1, 1]], [[0, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]},
    {"n": 2, "trans": [["a", [[0, 1]], [[1, 1]]], ["a", [[1, 1]], [[0, 1]]], ["b", [[0, 1]], [[1, 1]]]], "im": [[0, 1]], "fm": [[1, 1]]},
    {"n": 4, "trans": [["a", [[0, 1]], [[2, 1]]], ["b", [[1, 1]], [[3, 1]]], [None, [[1, 1]], [[3, 1]]]], "im": [[0, 1], [1, 1]], "fm": [[2, 1], [3, 1]]},
    {"n": 3, "trans": [["a", [[0, 1]], [[1, 2]]], ["b", [[1, 2]], [[2, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]},
    {"n": 3, "trans": [["a", [[0, 1]], [[1, 1]]], ["b", [[1, 2]], [[2, 2]]]], "im": [[0, 2]], "fm": [[2, 2]]},
    {"n": 2, "trans": [["a", [[0, 1]], [[0, 1]]], ["b", [[0, 1]], [[1, 1]]]], "im": [[0, 1]], "fm": [[1, 1]]}]


def g_logs(tier):
    ts = [["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a", "b"], ["a", "c"], ["b", "b"]]
    for n in LOGNETS:
        for k in (1, 2, 3):
            for c in itertools.product(ts, repeat=k):
                if k == 3 and tier == "quick" and len(set(map(str, c))) == 3:
                    continue
                yield {"net": n, "log": [list(x) for x in c]}


def families(tier):
    return [("nets", g_nets, r_traces), ("process_trees", g_trees, r_traces), ("logs", g_logs, r_logs)]
