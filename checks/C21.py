"""C21 prefix trees, transition systems, variants and stochastic languages against direct definitions on every small log and every row interleaving."""
import itertools, warnings
from collections import Counter, defaultdict
from mc import gen
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.discovery.transition_system import algorithm as ts_algo
from pm4py.statistics.variants.log import get as vlog
from pm4py.statistics.traces.generic.log import case_statistics as cslog
from pm4py.statistics.traces.generic.pandas import case_statistics as cspd
from checks.C09 import mk_log
from checks.C16 import merges

ID, TITLE = "C21", "Prefix trees and transition systems represent exactly the log"
BOUNDS = {"quick": "prefix trees: all logs of <=3 distinct traces (empty ones included) of length <=3 over {a,b} and <=2 traces of length <=3 over {a,b,c}; transition systems: all logs of <=2 traces of length <=4 over {a,b} x windows 1,2,3,5 x directions x views; variants: all multisets of <=3 traces of length <=2 over {a,b} and 2 traces of length <=3, every interleaving of the rows of the cases",
          "thorough": "prefix trees up to 4 traces; transition systems with 3 traces and {a,b,c}; variants with 4 cases"}
ASSUMPTIONS = ["rows of a case are in time order (the cases may be interleaved arbitrarily)", "a log without any event has no prescribed transition system"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")
T0 = pd.Timestamp("2020-01-01T00:00:00Z")


def frame(L, order=None, form=False, gap=60):
    """rows in the given interleaving; the k-th row overall happens at k*gap minutes"""
    order = order if order is not None else [i for i, w in enumerate(L) for _ in w]
    pos, rows = Counter(), []
    for k, i in enumerate(order):
        rows.append({"case:concept:name": "c%d" % i, "concept:name": L[i][pos[i]], "time:timestamp": T0 + pd.Timedelta(minutes=gap * k)})
        pos[i] += 1
    df = pd.DataFrame(rows)
    return pm4py.format_dataframe(df) if form else df


def trie_facts(t):
    nodes, fin = [], []

    def rec(n, pref):
        nodes.append(pref)
        if n.final:
            fin.append(pref)
        if n.depth != len(pref):
            raise Violation("the depth of a prefix tree node is not its distance from the root", got=n.depth, prefix=list(pref))
        for c in n.children:
            if c.parent is not n:
                raise Violation("the parent of a prefix tree node is wrong", prefix=list(pref))
            rec(c, pref + (c.label,))
    if t.parent is not None:
        raise Violation("the root of the prefix tree has a parent")
    rec(t, ())
    return nodes, fin


def r_trie(case, ctx):
    L = [tuple(w) for w in case["L"]]
    ctx.state(str(L))
    objs = [("event log", mk_log(L))]
    if all(L):
        objs += [("dataframe", frame(L)), ("dataframe reversed", frame(L[::-1]))]
        ms = merges(L)
        for k in range(0, len(ms), max(1, len(ms) // 4)):
            objs.append(("dataframe rows " + str(ms[k]), frame(L, ms[k])))
            objs.append(("formatted dataframe rows " + str(ms[k]), frame(L, ms[k], True)))
    exp = {w[:i] for w in L for i in range(len(w) + 1)}
    for what, o in objs:
        nodes, fin = trie_facts(pm4py.discover_prefix_tree(o))
        ctx.step(1)
        if sorted(nodes) != sorted(exp):
            raise Violation("the nodes of the prefix tree are not the prefixes of the log", input=what, got=str(sorted(nodes)), expected=str(sorted(exp)))
        if sorted(fin) != sorted(set(L)):
            raise Violation("the final nodes of the prefix tree are not the variants of the log", input=what, got=str(sorted(fin)), expected=str(sorted(set(L))))
    ctx.outcome("nodes=%d" % len(exp))
    ctx.trace()


def g_trie(tier):
    T = tier == "thorough"
    for n in (1, 2, 3) + ((4,) if T else ()):
        for L in itertools.combinations([list(w) for w in gen.traces("ab", 3, 0)], n):
            if n == 3 and not T and sum(map(len, L)) % 2:
                continue
            if any(L):
                for P in itertools.permutations(L) if n <= 2 else [L, L[::-1]]:
                    yield dict(L=list(P))
    for L in itertools.combinations([list(w) for w in gen.traces("abc", 3, 0)], 2):
        if any(L) and {"c"} & set(L[0] + L[1]) and (T or gen.canon_words(L)):
            yield dict(L=list(L))


def view(seq, v):
    return tuple(seq) if v == "sequence" else tuple(sorted(seq)) if v == "multiset" else tuple(sorted(set(seq)))


def r_ts(case, ctx):
    L, w, dr, v = [tuple(x) for x in case["L"]], case["w"], case["dir"], case["view"]
    ctx.state(str((L, w, dr, v)))
    states, edges, evs = set(), defaultdict(list), []
    for ci, x in enumerate(L):
        st = [view(x[i:i + w] if dr == "forward" else x[max(0, i - w):i], v) for i in range(len(x) + 1)]
        states |= set(st) if x else set()
        for i, a in enumerate(x):
            edges[(st[i], a, st[i + 1])].append((ci, i))
    lg = mk_log(L)
    runs = [("event log", lambda: pm4py.discover_transition_system(lg, direction=dr, window=w, view=v), False),
            ("event log with data", lambda: ts_algo.apply(lg, parameters={"direction": dr, "window": w, "view": v, "include_data": True}), True)]
    if all(L):
        runs.append(("dataframe", lambda: pm4py.discover_transition_system(frame(L), direction=dr, window=w, view=v), False))
        ms = merges(L)
        if ms:
            o = ms[len(ms) // 2]
            runs.append(("dataframe rows " + str(o), lambda: pm4py.discover_transition_system(frame(L, o), direction=dr, window=w, view=v), False))
    name = lambda n: tuple(n) if v == "sequence" else tuple(sorted(n.elements())) if v == "multiset" else tuple(sorted(n))
    for what, f, data in runs:
        ts = f()
        ctx.step(1)
        got = [name(s.name) for s in ts.states]
        if sorted(got) != sorted(states):
            raise Violation("the states are not the views of the prefixes", input=what, got=str(sorted(got)), expected=str(sorted(states)))
        ge = [(name(t.from_state.name), t.name, name(t.to_state.name)) for t in ts.transitions]
        if sorted(ge) != sorted(edges):
            raise Violation("the transitions are not the steps of the traces", input=what, got=str(sorted(ge)), expected=str(sorted(edges)))
        for s in ts.states:
            if set(s.outgoing) != {t for t in ts.transitions if t.from_state is s} or set(s.incoming) != {t for t in ts.transitions if t.to_state is s}:
                raise Violation("incoming/outgoing of a state do not match the transitions", input=what, state=str(s.name))
        if data:
            idx = {id(tr): i for i, tr in enumerate(lg)}
            ids = lambda l: sorted((idx[id(tr)], i) for tr, i in l)
            for t in ts.transitions:
                if ids(t.data["events"]) != sorted(edges[(name(t.from_state.name), t.name, name(t.to_state.name))]):
                    raise Violation("the events of a transition are wrong", input=what, transition=str(t.name))
            for s in ts.states:
                n = name(s.name)
                if ids(s.data["outgoing_events"]) != sorted(e for k, es in edges.items() if k[0] == n for e in es) or ids(s.data["ingoing_events"]) != sorted(e for k, es in edges.items() if k[2] == n for e in es):
                    raise Violation("the events of a state are wrong", input=what, state=str(s.name))
    ctx.outcome("%s %s states=%d" % (dr, v, len(states)))
    ctx.trace()


def g_ts(tier):
    T = tier == "thorough"
    W = lambda: itertools.product((1, 2, 3, 5), ("forward", "backward"), ("sequence", "multiset", "set"))
    for L in itertools.chain(gen.logs("ab", 5, 1, 1), gen.logs("ab", 4, 2, 0)):
        if any(L) and (T or len(L) == 1 or sum(map(len, L)) % 3 == 0 or sum(map(len, L)) <= 4):
            for w, d, v in W():
                yield dict(L=L, w=w, dir=d, view=v)
    for k, L in enumerate(itertools.chain(gen.logs("abc", 4, 1, 3), gen.logs("abc", 3, 2, 2))):
        if "c" in sum(map(list, L), []) and (T or k % 4 == 0):
            for w, d, v in W():
                yield dict(L=L, w=w, dir=d, view=v)
    if T:
        for L in gen.logs("abc", 3, 3, 1):
            if len(L) == 3:
                for w, d, v in ((1, "forward", "sequence"), (2, "backward", "set"), (2, "forward", "multiset")):
                    yield dict(L=L, w=w, dir=d, view=v)


def cnt(d):
    return {tuple(k): (v if isinstance(v, int) or hasattr(v, "dtype") else len(v)) for k, v in d.items()}


def r_var(case, ctx):
    L = [tuple(x) for x in case["L"]]
    ctx.state(str((L, case.get("order"))))
    E = dict(Counter(L))
    same = lambda got, exp, what: None if got == exp else (_ for _ in ()).throw(Violation(what, input=inp, got=str(got), expected=str(exp)))
    srt = sorted(((n, w) for w, n in E.items()), reverse=True)
    if case.get("order") is None:
        inp = "event log"
        lg = mk_log(L)
        for t, w in zip(lg, L):
            for k, e in enumerate(t):
                e["time:timestamp"] = T0 + pd.Timedelta(hours=k * (1 + int(t.attributes["concept:name"])))
        vs = pm4py.get_variants(lg)
        same(cnt(vs), E, "variants of the log are wrong")
        for w, trs in vs.items():
            same([id(t) for t in trs], [id(t) for t, x in zip(lg, L) if x == tuple(w)], "the traces of a variant are wrong")
        same(cnt(pm4py.get_variants_as_tuples(lg)), E, "variants of the log are wrong")
        same({tuple(k): round(v, 12) for k, v in pm4py.get_stochastic_language(lg).items()}, {w: round(n / len(L), 12) for w, n in E.items()}, "the stochastic language of the log is wrong")
        same([(n, tuple(w)) for w, n in vlog.get_variants_sorted_by_count(vs)], srt, "variants sorted by count are wrong")
        vd, du = vlog.get_variants_along_with_case_durations(lg)
        same(cnt(vd), E, "variants of the log are wrong")
        same({tuple(k): sorted(v.tolist()) for k, v in du.items()}, {w: sorted(3600.0 * (1 + i) * max(0, len(w) - 1) for i, x in enumerate(L) if x == w) for w in E}, "the case durations of the variants are wrong")
        for m in (None, 1, 2):
            st = cslog.get_variant_statistics(lg, parameters={"max_variants_to_return": m, "var_durations": du})
            same([(d["count"], tuple(d["variant"])) for d in st], srt[:m], "the variant statistics are wrong")
            same([round(d["caseDuration"], 6) for d in st], [round(float(sum(3600.0 * (1 + i) * max(0, len(w) - 1) for i, x in enumerate(L) if x == w) / n), 6) for n, w in srt[:m]], "the mean duration of the variants is wrong")
        if all(L):
            es = pm4py.convert_to_event_stream(lg)
            inp = "event stream"
            same({tuple(k): round(v, 12) for k, v in pm4py.get_stochastic_language(es).items()}, {w: round(n / len(L), 12) for w, n in E.items()}, "the stochastic language of the log is wrong")
            inp = "event log"
            same({tuple(w): sorted(set(g["case:concept:name"])) for w, g in pm4py.split_by_process_variant(lg)}, {w: sorted(str(i) for i, x in enumerate(L) if x == w) for w in E}, "the split by variant is wrong")
        ctx.trace()
        return
    order = case["order"]
    for form in (False, True):
        inp = "formatted dataframe" if form else "dataframe"
        mk = lambda: frame(L, order, form)
        same(cnt(pm4py.get_variants(mk())), E, "variants of the dataframe are wrong")
        same(cnt(pm4py.get_variants_as_tuples(mk())), E, "variants of the dataframe are wrong")
        same({tuple(k): round(v, 12) for k, v in pm4py.get_stochastic_language(mk()).items()}, {w: round(n / len(L), 12) for w, n in E.items()}, "the stochastic language of the dataframe is wrong")
        same({tuple(k): round(v, 12) for k, v in pm4py.get_stochastic_language(pm4py.convert_to_event_log(mk())).items()}, {w: round(n / len(L), 12) for w, n in E.items()}, "the stochastic language of the converted log is wrong")
        for m in (None, 1):
            same([(d["case:concept:name"], tuple(d["variant"])) for d in cspd.get_variant_statistics(mk(), parameters={"max_variants_to_return": m})], srt[:m], "the variant statistics are wrong")
        vdf, vl = cspd.get_variants_df_and_list(mk())
        same([(n, tuple(w)) for w, n in vl], srt, "the variant list is wrong")
        same({c: tuple(w) for c, w in vdf["variant"].items()}, {"c%d" % i: w for i, w in enumerate(L)}, "the variants of the cases are wrong")
        ts = defaultdict(list)
        for k, i in enumerate(order):
            ts[i].append(3600.0 * k)
        vcd = cspd.get_variants_df_with_case_duration(mk())
        same({c: (tuple(r["variant"]), float(r["caseDuration"])) for c, r in vcd.iterrows()}, {"c%d" % i: (w, ts[i][-1] - ts[i][0]) for i, w in enumerate(L)}, "the case durations of the variants are wrong")
        seen = []
        for w, g in pm4py.split_by_process_variant(mk()):
            seen.append(tuple(w))
            same(sorted(zip(g["case:concept:name"], g["@@index_in_trace"], g["concept:name"])), sorted(("c%d" % i, k, a) for i, x in enumerate(L) if x == tuple(w) for k, a in enumerate(x)), "the events of a variant are wrong")
        same(sorted(seen), sorted(E), "the split by variant is wrong")
        for agg in ("mean", "max"):
            pd_ = pm4py.get_variants_paths_duration(mk(), times_agg=agg)
            got = sorted((tuple(r["@@variant_column"]), int(r["@@index_in_trace"]), r["concept:name"], r["concept:name_2"], round(float(r["@@flow_time"]), 6), int(r["@@cumulative_occ_path_column"]), int(r["@@variant_count"])) for _, r in pd_.iterrows())
            exp = []
            for w, n in E.items():
                for k in range(len(w) - 1):
                    d = [ts[i][k + 1] - ts[i][k] for i, x in enumerate(L) if x == w]
                    exp.append((w, k, w[k], w[k + 1], round(max(d) if agg == "max" else sum(d) / len(d), 6), sum(1 for j in range(k) if w[j:j + 2] == w[k:k + 2]), n))
            same(got, sorted(exp), "the durations of the variant paths are wrong")
    ctx.outcome("variants=%d" % len(E))
    ctx.trace()


def g_var(tier):
    T = tier == "thorough"
    W2 = [list(w) for w in gen.traces("ab", 2, 1)]
    W3 = [list(w) for w in gen.traces("ab", 3, 1)]
    seen = set()
    for L in itertools.chain(*(itertools.combinations_with_replacement([list(w) for w in gen.traces("ab", 3, 0)], n) for n in (1, 2, 3))):
        if len(L) < 3 or T or sum(map(len, L)) <= 5:
            yield dict(L=list(L))
    def ords(L):
        for i, o in enumerate(merges(L)):
            yield list(o)
    for n, W, st in ((1, W3, 1), (2, W3, 1 if T else 3), (3, W2, 1 if T else 8)) + (((3, W3[:6], 3),) if T else ()):
        k = 0
        for L in itertools.combinations_with_replacement(W, n):
            for o in ords(L):
                k += 1
                if k % st == 0:
                    yield dict(L=list(L), order=o)
    # longer cases with repeated paths
    for w in ("aaaa", "ababab", "aabaa", "abbabb"):
        yield dict(L=[list(w), list(w)], order=[0] * len(w) + [1] * len(w))
        yield dict(L=[list(w), list(w)], order=[0, 1] * len(w))
        yield dict(L=[list(w), list(w[:-1])], order=[1] * (len(w) - 1) + [0] * len(w))


def families(tier):
    return [("trie", g_trie, r_trie), ("ts", g_ts, r_ts), ("variants", g_var, r_var)]
