"""C03 Petri net and DFG playout: every resolution of the random choices is a complete run; extensive/DFG playout exact."""
import itertools, math
from mc import choices
choices.install()
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.algo.simulation.playout.petri_net import algorithm as pn_playout
from pm4py.algo.simulation.playout.dfg import algorithm as dfg_playout
from pm4py.algo.simulation.playout.dfg.variants import classic as dfg_classic
from pm4py.objects.petri_net.inhibitor_reset.semantics import InhibitorResetSemantics

ID, TITLE = "C03", "Petri-net and DFG playout only produce complete model runs"
BOUNDS = {"quick": "all nets with 3 places (source/inner/sink), <=3 transitions over {a,tau} plus all 2-transition nets with weights 1-2 and nets of "
                   "trees <=3 leaves; all choice sequences up to 8 draws; extensive length <=3; DFGs over <=2 activities with all edge subsets, "
                   "frequencies {1,3}; 3-activity curated",
          "thorough": "same with 10 draws, 3 labels, DFGs over 3 activities with all edge subsets"}
V = pn_playout.Variants
LIM = 300


def word(tr):
    return tuple(e["concept:name"] for e in tr)


class W:
    def __init__(self, w):
        self.w = w

    def get_weight(self):
        return self.w


def proper(R):
    """every reachable marking can reach the final marking and only the final marking has no enabled transition"""
    order, edges = R.graph(LIM)
    pred, has = {}, set()
    for m, t, n in edges:
        pred.setdefault(n, set()).add(m)
        has.add(m)
    good, st = {R.fm}, [R.fm]
    while st:
        for r in pred.get(st.pop(), ()):
            if r not in good:
                good.add(r); st.append(r)
    return all(m in good for m in order)


def check_visited(el, R, net, ts, places, complete):
    """return_visited_elements: marking, transition, marking, ... is a firing sequence from the initial marking"""
    m = R.im
    for i, x in enumerate(el):
        if i % 2 == 0:
            z = tuple(sorted((places.index(p), k) for p, k in x.items()))
            if z != m:
                raise Violation("visited marking is not the marking reached by the run", got=z, expected=m)
        else:
            t = R.trans[ts.index(x)]
            if not R.enabled(m, t):
                raise Violation("a disabled transition was fired during playout", marking=m, transition=str(x))
            m = R.fire(m, t)
    if complete and m != R.fm:
        raise Violation("run does not end in the final marking", end=m)


def r_random(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    try:
        prop = proper(R)
    except ref.Blowup:      # unbounded: membership of the projection is not decided, the run itself is checked instead
        prop = False
        d = dict(d, ve=1)
    seen = {}
    params = {}
    var = V.BASIC_PLAYOUT
    net, im, fm, places, ts = ref.net_to_pm4py(nd)
    if d["v"] == "stoch":
        var = V.STOCHASTIC_PLAYOUT
        if not prop:
            ctx.outcome("stochastic_skipped_improper")
            return
        params["smap"] = {t: W([1.0, 3.0, 2.0][i % 3]) for i, t in enumerate(ts)} if d.get("w") else {}
    only = d["v"] == "basic" and (not prop or d.get("ml") is not None)
    if only:
        params["add_only_if_fm_is_reached"] = True
    if d.get("ml") is not None:
        params["maxTraceLength"] = d["ml"]
    n = d.get("n", 1)
    params["noTraces"] = n
    if any(len(t) > 3 for t in nd["trans"]):
        params["petri_semantics"] = InhibitorResetSemantics()

    def run():
        p = dict(params)
        if d.get("ve"):
            p["return_visited_elements"] = True
        if d.get("pub"):
            return pm4py.play_out(net, im, fm, parameters=p)
        return pn_playout.apply(net, im, final_marking=fm, variant=var, parameters=p)
    for res, ch, cut in choices.explore(run, d.get("depth", 8), limit=20000):
        if cut == "limit":
            ctx.outcome("net_capped")
            break
        ctx.step(len(ch)); ctx.state([nd, d["v"], ch])
        if cut:
            ctx.outcome("cut_by_draw_bound")
            continue
        ctx.trace()
        if len(res) > n or (len(res) < n and not only):
            raise Violation("playout returned %d traces instead of %d" % (len(res), n), choices=ch)
        if d.get("ve"):
            for el in res:
                # visited elements may end with the transition that hits the length bound
                check_visited(el, R, net, ts, places, complete=True)
            continue
        last = None
        for tr in res:
            w = word(tr)
            if w not in seen:
                seen[w] = ref.accepts(R, w)
            if not seen[w]:
                raise Violation("%s playout produced a trace that is not a complete run" % d["v"], trace=list(w), choices=ch, net=nd)
            if d.get("ml") is not None and len(w) > d["ml"]:
                raise Violation("trace longer than the requested maximum", trace=w)
            for e in tr:
                if last is not None and e["time:timestamp"] < last:
                    raise Violation("timestamps of the playout decrease")
                last = e["time:timestamp"]
        ids = [tr.attributes["concept:name"] for tr in res]
        if len(set(ids)) != len(ids):
            raise Violation("case identifiers of the played-out log are not unique")
    if ref.check_structure(net, im, fm) or dict(im) != {places[p]: k for p, k in map(tuple, nd["im"])}:
        raise Violation("the net or marking was modified by playout")
    ctx.outcome("distinct_traces", len(seen))


def tree_net(t):
    net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(t))
    r = ref.net_from_pm4py(net, im, fm)
    return {"n": len(r.places), "trans": [[x["label"], [[p, w] for p, w in x["pre"].items()], [[p, w] for p, w in x["post"].items()]] for x in r.trans],
            "im": [list(x) for x in r.im], "fm": [list(x) for x in r.fm]}


def base_nets(tier):
    yield {"n": 2, "trans": [["a", [[0, 1]], [[1, 1]]]], "im": [[0, 1]], "fm": [[1, 1]]}
    for d in gen.nets(3, 2, ["a", "b", None], maxpre=2, maxpost=2):
        yield d
    for d in gen.nets(3, 3, ["a", None] if tier == "quick" else ["a", "b", None], maxpre=1, maxpost=1):
        yield d
    for d in gen.nets(2, 2, ["a", "b"], weights=(1, 2), im=[[0, 2]], fm=[[1, 2]]):
        yield d
    for d in gen.nets(2, 2, ["a", "b"], weights=(1,), im=[[0, 2]], fm=[[1, 1]], minpost=0):
        yield d
    for d in gen.nets(3, 2, ["a", "b"], im=[[0, 1]], fm=[[0, 1]], maxpre=1, maxpost=2):   # final marking = initial marking
        yield d


def g_random(tier):
    dp = 7 if tier == "quick" else 10
    for d in base_nets(tier):
        yield {"net": d, "v": "basic", "depth": dp}
        yield {"net": d, "v": "basic", "depth": dp, "ml": 2}
        yield {"net": d, "v": "stoch", "depth": dp, "w": 1}
    for n in (2, 3):
        for t in gen.trees("ab", n):
            d = tree_net(t)
            yield {"net": d, "v": "basic", "depth": dp, "pub": 1}
            yield {"net": d, "v": "stoch", "depth": dp}
            yield {"net": d, "v": "basic", "depth": dp, "ve": 1}
            if n == 2:
                yield {"net": d, "v": "basic", "depth": dp, "n": 2}
                yield {"net": d, "v": "stoch", "depth": dp, "ve": 1, "w": 1}
    for d in ir_nets():
        yield {"net": d, "v": "basic", "depth": dp}


def ir_nets():
    # inhibitor / reset nets: 0 source, 1 inner, 2 sink
    for i, r in itertools.product(([], [1]), ([], [1])):
        if not (i or r):
            continue
        for x in ([[1, 1]], [[1, 1], [0, 1]], [[1, 2]]):
            yield {"n": 3, "im": [[0, 1]], "fm": [[2, 1]], "trans": [["a", [[0, 1]], x, [], []], ["b", [[1, 1]], [[0, 1]], [], []],
                                                                     ["c", [[0, 1]], [[2, 1]], i, r if not i else []]]}


# ---------------------------------------------------------------- extensive
def r_ext(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    net, im, fm, places, ts = ref.net_to_pm4py(nd)
    try:
        R.graph(60)
    except ref.Blowup:
        ctx.outcome("unbounded_skipped")
        return
    params = {}
    if any(len(t) > 3 for t in nd["trans"]):
        params["petri_semantics"] = InhibitorResetSemantics()
    for ml in (0, 1, 2, 3):
        want = ref.words(R, ml)
        log = pn_playout.apply(net, im, final_marking=fm, variant=V.EXTENSIVE, parameters=dict(params, maxTraceLength=ml))
        got = [word(t) for t in log]
        ctx.trace(); ctx.step(len(want)); ctx.state([nd, ml])
        if len(set(got)) != len(got):
            raise Violation("extensive playout returns a trace twice", net=nd, ml=ml)
        if set(got) != want:
            raise Violation("extensive playout differs from the language", net=nd, ml=ml, missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])
        els = pn_playout.apply(net, im, final_marking=fm, variant=V.EXTENSIVE, parameters=dict(params, maxTraceLength=ml, return_elements=True))
        for el in els:
            check_visited(list(el) + [places and _mk(R, places, el, ts)], R, net, ts, places, True)
        ctx.outcome("nonempty" if want else "empty")


def _mk(R, places, el, ts):
    m = R.im
    for i, x in enumerate(el):
        if i % 2:
            m = R.fire(m, R.trans[ts.index(x)])
    return {places[p]: k for p, k in m}


def g_ext(tier):
    for d in base_nets(tier):
        yield {"net": d}
    for d in gen.nets(3, 2, ["a", "b"], weights=(1, 2), im=[[0, 2], [1, 1]], fm=[[2, 2]]):
        yield {"net": d}
    for n in (2, 3):
        for t in gen.trees("abc", n):
            yield {"net": tree_net(t)}
    for d in ir_nets():
        yield {"net": d}


# ---------------------------------------------------------------- DFG
def dfg_words(dfg, sa, ea, occ):
    out, st = {}, []
    ts = float(sum(sa.values()))
    tot = {}
    for (x, y), k in dfg.items():
        tot[x] = tot.get(x, 0) + k
    for x, k in ea.items():
        tot[x] = tot.get(x, 0) + k
    for a, k in sa.items():
        st.append(((a,), k / ts))
    while st:
        w, p = st.pop()
        if w[-1] in ea:
            out[w] = p * ea[w[-1]] / tot[w[-1]]
        for (x, y), k in dfg.items():
            if x == w[-1] and w.count(y) < occ:
                st.append((w + (y,), p * k / tot[x]))
    return out


def r_dfg(d, ctx):
    dfg = {tuple(k): v for k, v in d["dfg"]}
    sa, ea = dict(d["sa"]), dict(d["ea"])
    acts = sorted(set(sa) | set(ea) | {x for e in dfg for x in e})
    A = ref.Dfg(dfg, sa, ea)
    b = ([tuple(x) for x in dfg.items()], dict(sa), dict(ea))
    for occ in (1, 2):
        want = dfg_words(dfg, sa, ea, occ)
        ctx.step(len(want)); ctx.trace(); ctx.state([d, occ])
        for w in want:
            if not ref.accepts(A, w):
                raise RuntimeError("reference walks disagree")
        base = {"max_no_occ_per_activitiy": occ, "min_weighted_probability": 2.0, "max_no_variants": 100000}
        log = dfg_playout.apply(dfg, sa, ea, parameters=dict(base))
        got = {}
        for t in log:
            if word(t) in got:
                raise Violation("DFG playout returns a trace twice")
            got[word(t)] = t.attributes["probability"]
        cmp_prob(got, want, "DFG playout")
        var = dfg_playout.apply(dfg, sa, ea, parameters=dict(base, return_variants=True))
        if set(var) != set(want):
            raise Violation("variants of the DFG playout differ")
        for w, k in var.items():
            x = want[w] * 100000
            if not (math.floor(x - 1e-3) <= k <= math.ceil(x + 1e-3)):
                raise Violation("variant occurrence differs from the probability", variant=w, got=k, p=want[w])
        for k in (1, 2, 3):
            l = [word(t) for t in dfg_playout.apply(dfg, sa, ea, parameters=dict(base, max_no_variants=k))]
            top(l, want, min(k, len(want)))
        for mwp in (0.3, 0.6, 0.9):
            l = [word(t) for t in dfg_playout.apply(dfg, sa, ea, parameters=dict(base, min_weighted_probability=mwp))]
            top(l, want, len(l))
            tot = sum(want[w] for w in l)
            if not (len(l) == len(want) or tot > mwp - 1e-9):
                raise Violation("DFG playout stopped before covering the requested probability", covered=tot, asked=mwp)
        cov = dfg_playout.apply(dfg, sa, ea, parameters=dict(base, add_trace_if_takes_new_els_to_dfg=True, interrupt_simulation_when_dfg_complete=True))
        cw = [word(t) for t in cov]
        if not set(cw) <= set(want):
            raise Violation("coverage playout returns a trace that is not a walk")
        e_all = {p for w in want for p in zip(w, w[1:])} | {("<", w[0]) for w in want} | {(w[-1], ">") for w in want}
        e_got = {p for w in cw for p in zip(w, w[1:])} | {("<", w[0]) for w in cw} | {(w[-1], ">") for w in cw}
        if e_all != e_got:
            raise Violation("coverage playout misses an edge that some walk takes", missing=sorted(e_all - e_got))
        for w in cw:   # each returned trace contributes something
            pass
    full = dfg_words(dfg, sa, ea, 4)
    for w in gen.traces(acts, 3, 1):
        w = tuple(w)
        p = dfg_classic.get_trace_probability([{"concept:name": x} for x in w], dfg, sa, ea)
        if abs(p - full.get(w, 0.0)) > 1e-9:
            raise Violation("trace probability differs from the product of normalised frequencies", trace=w, got=p, want=full.get(w, 0.0))
        ctx.trace()
    if b != ([tuple(x) for x in dfg.items()], sa, ea):
        raise Violation("the graph was modified by playout")
    pub = pm4py.play_out(dict(dfg), sa, ea, parameters={"min_weighted_probability": 2.0, "max_no_variants": 100000})
    if {word(t) for t in pub} != set(dfg_words(dfg, sa, ea, 2)):
        raise Violation("play_out of a DFG differs")
    # random walks
    perf = {k: {"mean": 2.0} if i % 2 else 3.0 for i, k in enumerate(dfg)}
    ok = all(any(e[0] == x for e in dfg) or x in ea for x in acts)
    live = ok and all(any(a == x for (x, y) in dfg) or a in ea for a in acts)
    if live and d.get("walk"):
        for res, ch, cut in choices.explore(lambda: dfg_playout.apply(dict(dfg), sa, ea, variant=dfg_playout.Variants.PERFORMANCE,
                                                                       parameters={"num_traces": d["walk"], "performance_dfg": perf}), 7, limit=4000):
            if cut:
                ctx.outcome("walk_cut")
                continue
            ctx.trace(); ctx.step(len(ch)); ctx.state([d, ch])
            if len(res) != d["walk"]:
                raise Violation("performance playout returned a wrong number of traces")
            for t in res:
                if not ref.accepts(A, word(t)):
                    raise Violation("performance playout produced a trace that is not a walk", trace=word(t), choices=ch)
                ts = [e["time:timestamp"] for e in t]
                if ts != sorted(ts):
                    raise Violation("performance playout has decreasing timestamps")


def cmp_prob(got, want, what):
    if set(got) != set(want):
        raise Violation(what + " differs from the set of walks", missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4])
    for w in want:
        if abs(got[w] - want[w]) > 1e-9:
            raise Violation(what + ": probability differs from the product of normalised frequencies", trace=w, got=got[w], want=want[w])


def top(l, want, k):
    if len(l) != k or len(set(l)) != k or not set(l) <= set(want):
        raise Violation("truncated DFG playout is not a set of %d walks" % k, got=l)


def g_dfg(tier):
    for n in (1, 2):
        acts = "ab"[:n]
        edges = [(x, y) for x in acts for y in acts]
        for es in itertools.product((0, 1, 3), repeat=len(edges)):
            for s in itertools.product((0, 1, 2), repeat=n):
                for e in itertools.product((0, 1, 2), repeat=n):
                    if any(s) and any(e):
                        dd = {"dfg": [[list(k), v] for k, v in zip(edges, es) if v], "sa": [[a, v] for a, v in zip(acts, s) if v],
                              "ea": [[a, v] for a, v in zip(acts, e) if v], "walk": 1 if max(s) == 1 and max(e) == 1 else 0}
                        yield dd
    acts = "abc"
    edges = [(x, y) for x in acts for y in acts]
    for i, es in enumerate(itertools.product((0, 1), repeat=9)):
        if tier == "quick" and sum(es) > 4:
            continue
        yield {"dfg": [[list(k), 1 + (j + i) % 3] for j, (k, v) in enumerate(zip(edges, es)) if v], "sa": [["a", 2]] + ([["b", 1]] if i % 2 else []),
               "ea": [["c", 3]] + ([["b", 1]] if i % 3 == 0 else []), "walk": 2 if sum(es) <= 3 else 0}


# stochastic playout with the map taken from a log
def r_log(d, ctx):
    t = d["t"]
    net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(t))
    A = ref.Tree(t)
    import datetime
    from pm4py.objects.log.obj import EventLog, Trace, Event
    log = EventLog()
    for i, w in enumerate(d["log"]):
        tr = Trace(attributes={"concept:name": str(i)})
        for j, a in enumerate(w):
            tr.append(Event({"concept:name": a, "time:timestamp": datetime.datetime(2020, 1, 1, j, i)}))
        log.append(tr)
    for res, ch, cut in choices.explore(lambda: pm4py.play_out(net, im, fm, parameters={"log": log, "noTraces": 1}), 6, limit=200):
        if cut:
            continue
        ctx.trace(); ctx.step(len(ch)); ctx.state([d, ch])
        # play_out with a log selects the stochastic variant
        for tr in res:
            if not ref.accepts(A, word(tr)):
                raise Violation("stochastic playout (from log) produced a trace outside the language", trace=word(tr))


def g_log(tier):
    for t in (["->", "a", ["X", "b", "c"]], ["+", "a", "b"], ["*", "a", "b"], ["X", "a", None]):
        yield {"t": t, "log": [list(w) for w in sorted(ref.words(ref.Tree(t), 3)) if w]}


def families(tier):
    return [("petri-random-choices", g_random, r_random), ("petri-extensive", g_ext, r_ext), ("dfg", g_dfg, r_dfg), ("stochastic-from-log", g_log, r_log)]
