"""C24 log filters against their predicates: every small log x every argument x both representations."""
import datetime as dtm, itertools, warnings
from collections import Counter, defaultdict
from mc import gen
from mc.harness import Violation
import pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.algo.filtering.log.attributes import attributes_filter as lattr
from pm4py.algo.filtering.pandas.attributes import attributes_filter as pattr
from pm4py.algo.filtering.log.timestamp import timestamp_filter as lts
from pm4py.algo.filtering.pandas.timestamp import timestamp_filter as pts
from pm4py.algo.filtering.log.variants import variants_filter as lvar
from pm4py.algo.filtering.pandas.starts_with import starts_with_filter
from pm4py.algo.filtering.pandas.ends_with import ends_with_filter
from pm4py.algo.filtering.pandas.activity_split import activity_split_filter
from pm4py.algo.filtering.pandas.consecutive_act_case_grouping import consecutive_act_case_grouping_filter
from pm4py.algo.filtering.pandas.timestamp_case_grouping import timestamp_case_grouping_filter
from checks.C23 import exact, canon, T0, CN, TS, CID

ID, TITLE = "C24", "Log filters keep exactly the matching cases or events"
BOUNDS = {"quick": "all ordered pairs of cases of length 1..3 over two activities (whose names share separators and pattern characters) x all arguments of 20 filters (subsets, relations, infixes of <=3 elements, bounds, shares) x retain/remove x event log, formatted and interleaved dataframe; all pairs of cases of <=2 events at 4 instants x all time frames and durations; all pairs of cases of <=2 events with present, missing and different attribute values",
          "thorough": "cases of length 4, three cases, three events at 4 instants"}
ASSUMPTIONS = ["the order in which the kept cases are listed is free; ties among equally frequent variants may be resolved either way in top-k", "event logs and dataframes may differ in keeping cases that have no event left (a dataframe cannot hold them)",
               "rows of a case are in time order; between and split filters take formatted dataframes; columns starting with @@ are bookkeeping", "time zones: instants are given in UTC"]
BUDGET = {"quick": 320, "thorough": 850}
warnings.simplefilter("ignore")


def mk(L):
    """L: [(case attrs, [(activity, hour, attrs)])] -> event log; every event carries a unique number"""
    log, n = EventLog(attributes={"la": 1}), 0
    for i, (ca, evs) in enumerate(L):
        t = Trace(attributes={CN: "c%d" % i, **ca})
        for a, h, at in evs:
            t.append(Event({CN: a, TS: T0 + dtm.timedelta(hours=h), "n": n, **at}))
            n += 1
        log.append(t)
    return log


def frames(log, inter=True):
    rows = [{**{"case:" + k: v for k, v in t.attributes.items()}, **dict(e)} for t in log for e in t]
    f = pm4py.format_dataframe(pd.DataFrame(rows))
    out = [("formatted", f)]
    if inter:
        # cases interleaved in time order, row labels descending
        r = pd.DataFrame(sorted(rows, key=lambda r: r[TS])[::1])
        r.index = range(100, 100 - len(r), -1)
        out.append(("interleaved", r))
    return out


class Obj:
    """a log in one representation together with what is known about it"""

    def __init__(self, L, inter=True):
        log = mk(L)
        self.reps = [("event log", log)] + frames(log, inter)
        self.before = [exact(x) for _, x in self.reps]
        self.cases = {"c%d" % i: [(e["n"], e[CN], e[TS], {k: v for k, v in dict(e).items()}) for e in t] for i, t in enumerate(log)}
        self.cattr = {"c%d" % i: dict(t.attributes) for i, t in enumerate(log)}
        self.ev = {e["n"]: dict(e) for t in log for e in t}
        self.where = {e["n"]: "c%d" % i for i, t in enumerate(log) for e in t}

    def unchanged(self):
        for (name, x), b in zip(self.reps, self.before):
            if exact(x) != b:
                raise Violation("a filter changes its input", representation=name, before=b, after=exact(x))


def result(o, x, name, renamed=False):
    """-> {case: [event numbers]} ; checks that what was kept is unchanged"""
    out = defaultdict(list)
    if isinstance(x, EventLog):
        if dict(x.attributes) != {"la": 1}:
            raise Violation("a filter loses the attributes of the log", filter=name)
        for t in x:
            c = t.attributes[CN]
            if c in out:
                raise Violation("a filter returns a case twice", filter=name)
            for e in t:
                out[c].append(e["n"])
                if dict(e) != o.ev[e["n"]]:
                    raise Violation("a filter changes an event", filter=name, got=dict(e), want=o.ev[e["n"]])
            if not renamed and dict(t.attributes) != o.cattr[c]:
                raise Violation("a filter changes the attributes of a case", filter=name, got=dict(t.attributes), want=o.cattr[c])
        return {c: v for c, v in out.items() if v}
    cols = [c for c in x.columns if not c.startswith("@@")]
    for r in zip(*[list(x[c]) for c in cols]):
        d = dict(zip(cols, r))
        n = d["n"]
        out[d[CID]].append(n)
        want = {**{"case:" + k: v for k, v in o.cattr[o.where[n]].items()}, **o.ev[n]}
        for k in set(d) | set(want):
            if k != CID and canon(d.get(k)) != canon(want.get(k)):
                raise Violation("a filter changes an event", filter=name, attribute=k, got=str(d.get(k)), want=str(want.get(k)))
    return dict(out)


def check(ctx, o, name, call, keep, only=None, formatted=False):
    """keep: {case: [numbers]} or a predicate on the result"""
    for rep, x in o.reps:
        if (only == "df" and rep == "event log") or (only == "el" and rep != "event log") or (formatted and rep == "interleaved"):
            continue
        ctx.step()
        got = result(o, call(x), name)
        if callable(keep):
            keep(got, rep)
        elif got != {c: v for c, v in keep.items() if v}:
            raise Violation("filter %s keeps other cases or events" % name.split("(")[0], call=name, representation=rep, got=got, want=keep, log={c: [[e[1], canon(e[2]), {k: str(v) for k, v in e[3].items() if k not in (CN, TS)}] for e in evs] for c, evs in o.cases.items()})


def cases_where(o, pred):
    return {c: [e[0] for e in evs] for c, evs in o.cases.items() if pred(c, evs)}


def matches(inf, w):
    if not inf:
        return not w
    if inf[0] == "...":
        return any(matches(inf[1:], w[i:]) for i in range(len(w) + 1))
    return bool(w) and w[0] == inf[0] and matches(inf[1:], w[1:])


def subsets(xs):
    return [list(s) for n in range(len(xs) + 1) for s in itertools.combinations(xs, n)]


NAMES = [("a", "a,a"), ("b.(", "b"), ("x", "")]


def ctl_gen(tier):
    words = ["".join(w) for w in gen.traces("01", 3 if tier == "quick" else 4, 1)]
    for k, (v, w) in enumerate(itertools.combinations_with_replacement(words, 2) if tier == "quick" else itertools.product(words, repeat=2)):
        if len(v) + len(w) <= (5 if tier == "quick" else 6):
            yield ["control", [v, w], list(NAMES[k % 2])]
    small = [w for w in words if len(w) <= (1 if tier == "quick" else 2)] + ["01", "00"]
    small = list(dict.fromkeys(small))
    for L in itertools.product(small, repeat=3):
        yield ["control", list(L), list(NAMES[0])]
    for L in itertools.product(["0", "1", "01"], repeat=4):
        yield ["shares", list(L), list(NAMES[2])[:1] + ["y"]]


def ctl_run(case, ctx):
    ctx.state(case)
    kind, L, (A, B) = case
    o = Obj([({}, [((A, B)[int(s)], i + 0.25 * j, {}) for i, s in enumerate(w)]) for j, w in enumerate(L)])
    acts = [A, B]
    word = {c: [e[1] for e in evs] for c, evs in o.cases.items()}
    n = len(L)
    cnt = Counter(tuple(w) for w in word.values())
    # ----- variants by frequency
    for k in range(0, 4):
        def topk(got, rep, k=k):
            S = {tuple(word[c]) for c in got}
            full = cases_where(o, lambda c, e: tuple(word[c]) in S)
            if got != full or len(S) != min(k, len(cnt)) or any(cnt[v] > cnt[s] for s in S for v in cnt if v not in S):
                raise Violation("filter top-k variants keeps other cases", k=k, got=got, words=word, representation=rep)
        check(ctx, o, "variants_top_k", lambda x: pm4py.filter_variants_top_k(x, k), topk)
    for p in (0, 0.25, 0.5, 0.75, 1.0, 0.34) if kind == "shares" or len(L) == 3 else (0, 0.5, 1.0, 0.3):
        check(ctx, o, "coverage(%s)" % p, lambda x: pm4py.filter_variants_by_coverage_percentage(x, p), cases_where(o, lambda c, e: cnt[tuple(word[c])] >= p * n))
        check(ctx, o, "maximum coverage(%s)" % p, lambda x: pm4py.filter_variants_by_maximum_coverage_percentage(x, p), cases_where(o, lambda c, e: cnt[tuple(word[c])] <= p * n))
        in_cases = Counter(a for w in word.values() for a in set(w))
        in_events = Counter(a for w in word.values() for a in w)
        tot = sum(len(w) for w in word.values())
        check(ctx, o, "relative occurrence cases(%s)" % p, lambda x: pm4py.filter_log_relative_occurrence_event_attribute(x, p, level="cases"), {c: [e[0] for e in evs if in_cases[e[1]] >= p * n] for c, evs in o.cases.items()})
        check(ctx, o, "relative occurrence events(%s)" % p, lambda x: pm4py.filter_log_relative_occurrence_event_attribute(x, p, level="events"), {c: [e[0] for e in evs if in_events[e[1]] >= p * tot] for c, evs in o.cases.items()})
        # percentage of cases: the most frequent variants until the share is reached, with all the variants as frequent as the last one
        tot_, thr = 0, None
        for v, k in sorted(cnt.items(), key=lambda x: -x[1]):
            tot_ += k
            if tot_ / n >= p:
                thr = k
                break
        check(ctx, o, "variants percentage(%s)" % p, lambda x: lvar.filter_log_variants_percentage(x, p), cases_where(o, lambda c, e: cnt[tuple(word[c])] >= thr), only="el")
    for k in range(0, 3):
        def maxact(got, rep, k=k):
            S = {o.ev[x][CN] for v in got.values() for x in v}
            if got != {c: [e[0] for e in evs if e[1] in S] for c, evs in o.cases.items() if any(e[1] in S for e in evs)} or len(S) != min(k, len(in_events)) or any(in_events[b] > in_events[s] for s in S for b in in_events if b not in S):
                raise Violation("filter on the most frequent activities keeps other events", k=k, got=got, words=word, representation=rep)
        check(ctx, o, "most frequent activities(%d)" % k, lambda x: lattr.filter_log_on_max_no_activities(x, k) if isinstance(x, EventLog) else pattr.filter_df_keeping_spno_activities(x, max_no_activities=k), maxact)
    if kind == "shares":
        o.unchanged()
        ctx.outcome("shares")
        return
    for S in subsets(acts):
        for r in (True, False):
            check(ctx, o, "start_activities(%s,%s)" % (S, r), lambda x: pm4py.filter_start_activities(x, S, retain=r), cases_where(o, lambda c, e: (word[c][0] in S) == r))
            check(ctx, o, "end_activities(%s,%s)" % (S, r), lambda x: pm4py.filter_end_activities(x, set(S), retain=r), cases_where(o, lambda c, e: (word[c][-1] in S) == r))
            check(ctx, o, "event values(%s,%s)" % (S, r), lambda x: pm4py.filter_event_attribute_values(x, CN, S, level="event", retain=r), {c: [e[0] for e in evs if (e[1] in S) == r] for c, evs in o.cases.items()})
            check(ctx, o, "case values(%s,%s)" % (S, r), lambda x: pm4py.filter_event_attribute_values(x, CN, S, level="case", retain=r), cases_where(o, lambda c, e: bool(set(word[c]) & set(S)) == r))
    for V in [[v] for v in cnt] + [list(cnt), [], [(A, A, A, A)], [tuple(L[0])]]:
        V = [tuple(v) for v in V]
        for r in (True, False):
            check(ctx, o, "variants(%s,%s)" % (V, r), lambda x: pm4py.filter_variants(x, V, retain=r), cases_where(o, lambda c, e: (tuple(word[c]) in V) == r))
    pairs = list(itertools.product(acts, repeat=2))
    for R in [[p] for p in pairs] + [[pairs[0], pairs[3]], [pairs[1], pairs[2]], []]:
        for r in (True, False):
            check(ctx, o, "directly-follows(%s,%s)" % (R, r), lambda x: pm4py.filter_directly_follows_relation(x, R, retain=r), cases_where(o, lambda c, e: any(p in R for p in zip(word[c], word[c][1:])) == r))
            check(ctx, o, "eventually-follows(%s,%s)" % (R, r), lambda x: pm4py.filter_eventually_follows_relation(x, R, retain=r), cases_where(o, lambda c, e: any(p in R for p in itertools.combinations(word[c], 2)) == r))
    for a in acts:
        for m in (1, 2, 3):
            check(ctx, o, "rework(%s,%d)" % (a, m), lambda x: pm4py.filter_activities_rework(x, a, m), cases_where(o, lambda c, e: word[c].count(a) >= m))
    for lo, hi in [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 2), (4, 9), (0, 9)]:
        check(ctx, o, "case_size(%d,%d)" % (lo, hi), lambda x: pm4py.filter_case_size(x, lo, hi), cases_where(o, lambda c, e: lo <= len(e) <= hi))
    for a in acts:
        for strict, fl in itertools.product((True, False), ("first", "last")):
            pre, suf = {}, {}
            for c, evs in o.cases.items():
                idx = [i for i, x in enumerate(word[c]) if x == a]
                if idx:
                    i = idx[0] if fl == "first" else idx[-1]
                    pre[c] = [e[0] for e in evs[:i if strict else i + 1]]
                    suf[c] = [e[0] for e in evs[i + 1 if strict else i:]]
            check(ctx, o, "prefixes(%s,%s,%s)" % (a, strict, fl), lambda x: pm4py.filter_prefixes(x, a, strict=strict, first_or_last=fl), pre)
            check(ctx, o, "suffixes(%s,%s,%s)" % (a, strict, fl), lambda x: pm4py.filter_suffixes(x, a, strict=strict, first_or_last=fl), suf)
            if fl == "first" and not strict:
                # a filter applied to the result of another one
                two = {c: v for c, v in ((c, [x for x in v if x in suf.get(c, [])]) for c, v in pre.items())}
                check(ctx, o, "suffixes of prefixes(%s)" % a, lambda x: pm4py.filter_suffixes(pm4py.filter_prefixes(x, a, strict=False), a, strict=False), two)
    infixes = [list(i) for m in (1, 2, 3) for i in itertools.product(acts + ["..."], repeat=m)]
    if len(L[0]) + len(L[1]) > 4:
        infixes = infixes[(len(L[0]) * 7 + int("".join(L), 2)) % 4::4]
    for I in [[i] for i in infixes] + [[], [[A], [B]], [["...", A], ["...", A, B, "..."]], [[A, "..."], [B, "..."]]]:
        for r in (True, False):
            check(ctx, o, "trace_segments(%s,%s)" % (I, r), lambda x: pm4py.filter_trace_segments(x, I, positive=r), cases_where(o, lambda c, e: any(matches(i, word[c]) for i in I) == r))
    for P in [[[x]] for x in acts] + [[list(p)] for p in pairs] + [[[A], [B]], []]:
        for r in (True, False):
            par = {"positive": r}
            check(ctx, o, "starts_with(%s,%s)" % (P, r), lambda x: starts_with_filter.apply(x, P, parameters=dict(par)), cases_where(o, lambda c, e: any(word[c][:len(p)] == p for p in P) == r), only="df")
            check(ctx, o, "ends_with(%s,%s)" % (P, r), lambda x: ends_with_filter.apply(x, P, parameters=dict(par)), cases_where(o, lambda c, e: any(word[c][-len(p):] == p for p in P) == r), only="df")
    # ----- sub-cases
    for a1, a2 in [(A, B), (B, A), (A, A), ([A, B], B), ([A, B], [A, B]), (A, [A, B]), ("zz", A), ({A}, {B})]:
        s1, s2 = ({a1} if isinstance(a1, str) else set(a1)), ({a2} if isinstance(a2, str) else set(a2))
        want = []
        for c, evs in o.cases.items():
            op = None
            for i, e in enumerate(evs):
                if op is not None and e[1] in s2:
                    want.append([c, [x[0] for x in evs[op:i + 1]]])
                    op = i if s1 == s2 else None
                elif op is None and e[1] in s1:
                    op = i
        if s1 == s2:
            # an event that ends a sub-case starts the next one: a dataframe row cannot belong to both
            segs_df = None
        for rep, x in o.reps:
            if rep == "interleaved" or (s1 == s2 and rep != "event log"):
                continue
            ctx.step()
            got = result(o, pm4py.filter_between(x, a1, a2), "between", renamed=True)
            g = sorted([o.where[v[0]], v] for v in got.values())
            if g != sorted(want):
                raise Violation("filter between keeps other sub-cases", args=str((a1, a2)), representation=rep, got=got, want=want, words=word)
            if any(not c.startswith(o.where[v[0]]) for c, v in got.items()):
                raise Violation("sub-cases do not name their case", got=list(got), representation=rep)
    for S in ([A], [A, B], ["zz"]):
        for mode in ("this", "next"):
            want = []
            for c, evs in o.cases.items():
                cur = []
                for e in evs:
                    if e[1] in S and mode == "this":
                        want.append(cur)
                        cur = [e[0]]
                    else:
                        cur = cur + [e[0]]
                        if e[1] in S:
                            want.append(cur)
                            cur = []
                want.append(cur)
            x = o.reps[1][1]
            got = result(o, activity_split_filter.apply(x, S[0] if len(S) == 1 else S, parameters={"cut_mode": mode}), "activity split", renamed=True)
            ctx.step()
            if sorted(got.values()) != sorted(w for w in want if w):
                raise Violation("splitting cases at an activity", activities=S, mode=mode, got=got, want=want, words=word)
    for ft in ("first", "last"):
        want = {}
        for c, evs in o.cases.items():
            g = [list(v) for _, v in itertools.groupby(evs, key=lambda e: e[1])]
            want[c] = [(v[0] if ft == "first" else v[-1])[0] for v in g]
        check(ctx, o, "consecutive grouping(%s)" % ft, lambda x: consecutive_act_case_grouping_filter.apply(x, parameters={"filter_type": ft}), want, only="df", formatted=True)
    o.unchanged()
    ctx.outcome("control")


def tim_gen(tier):
    ts = [list(t) for n in ((1, 2) if tier == "quick" else (1, 2, 3)) for t in itertools.combinations_with_replacement(range(4), n)]
    for t, u in itertools.combinations_with_replacement(ts, 2) if tier == "quick" else itertools.product(ts, repeat=2):
        yield ["time", [t, u]]
    if tier == "quick":
        for t in itertools.combinations_with_replacement(range(4), 3):
            yield ["time", [list(t), [1]]]


def at(h):
    return (T0 + dtm.timedelta(hours=h)).strftime("%Y-%m-%d %H:%M:%S")


def tim_run(case, ctx):
    ctx.state(case)
    L = case[1]
    o = Obj([({}, [("ab"[i % 2], h, {"k": "u"} if i != 1 else {}) for i, h in enumerate(ts)]) for ts in L])
    hours = {c: [(e[2] - T0).total_seconds() / 3600 for e in evs] for c, evs in o.cases.items()}
    grid = [(a / 2, b / 2) for a in range(-1, 8) for b in range(a, 8)] if sum(map(len, L)) < 4 else [(a, b) for a in range(0, 4) for b in range(a, 4)] + [(0.5, 1.5), (-1, 5)]
    for a, b in grid:
        fr = (at(a), at(b))
        inn = lambda h: a <= h <= b
        check(ctx, o, "events in time(%s,%s)" % (a, b), lambda x: pm4py.filter_time_range(x, *fr, mode="events"), {c: [e[0] for e, h in zip(evs, hours[c]) if inn(h)] for c, evs in o.cases.items()})
        check(ctx, o, "traces contained(%s,%s)" % (a, b), lambda x: pm4py.filter_time_range(x, *fr, mode="traces_contained"), cases_where(o, lambda c, e: all(inn(h) for h in hours[c])))
        check(ctx, o, "traces intersecting(%s,%s)" % (a, b), lambda x: pm4py.filter_time_range(x, *fr, mode="traces_intersecting"), cases_where(o, lambda c, e: hours[c][0] <= b and hours[c][-1] >= a))
        check(ctx, o, "attribute in time(%s,%s)" % (a, b), lambda x: (lts if isinstance(x, EventLog) else pts).filter_traces_attribute_in_timeframe(x, "k", "u", *fr), cases_where(o, lambda c, e: any(inn(h) and "k" in y[3] for y, h in zip(e, hours[c]))))
    for a, b in [(0, 0), (0, 3600), (3600, 3600), (1, 7200), (3600, 7200), (7200, 1e9), (10800, 10800), (5, 4)]:
        check(ctx, o, "case_performance(%s,%s)" % (a, b), lambda x: pm4py.filter_case_performance(x, a, b), cases_where(o, lambda c, e: a <= 3600 * (hours[c][-1] - hours[c][0]) <= b))
        for path in (("a", "b"), ("b", "a"), ("a", "a")):
            for r in (True, False):
                check(ctx, o, "path_performance(%s,%s,%s,%s)" % (path, a, b, r), lambda x: pm4py.filter_paths_performance(x, path, a, b, keep=r),
                      cases_where(o, lambda c, e: any((e[i][1], e[i + 1][1]) == path and a <= 3600 * (hours[c][i + 1] - hours[c][i]) <= b for i in range(len(e) - 1)) == r))
    for ft in ("first", "last", "concat"):
        want, names = {}, []
        for c, evs in o.cases.items():
            g = [list(v) for _, v in itertools.groupby(evs, key=lambda e: e[2])]
            want[c] = [(v[-1] if ft == "last" else v[0])[0] for v in g]
            names += [[c, " & ".join(sorted(e[1] for e in v))] for v in g]
        if ft == "concat":
            for x in (r[1] for r in o.reps[1:]):
                f = timestamp_case_grouping_filter.apply(x, parameters={"filter_type": ft})
                got = sorted([c, a] for c, a in zip(f[CID], f[CN]))
                if got != sorted(names):
                    raise Violation("grouping simultaneous events", got=got, want=names)
        else:
            check(ctx, o, "timestamp grouping(%s)" % ft, lambda x: timestamp_case_grouping_filter.apply(x, parameters={"filter_type": ft}), want, only="df")
    o.unchanged()
    ctx.outcome("time")


def att_gen(tier):
    vals = [None, "u", "v"]
    for shape in [(1, 1), (2, 1), (1, 2)] + ([(2, 2)] if tier != "quick" else []):
        for vs in itertools.product(vals, repeat=sum(shape)):
            if any(vs):
                for cs in itertools.product([None, "p", "q"], repeat=2):
                    yield ["attr", list(shape), list(vs), list(cs)]
    for shape in [(1, 1), (2, 1), (2, 2)]:
        for vs in itertools.product([None, 0, 1.5, 3], repeat=sum(shape)):
            if any(v is not None for v in vs):
                yield ["num", list(shape), list(vs)]


def att_run(case, ctx):
    ctx.state(case)
    kind, shape, vs = case[:3]
    it = iter(vs)
    cs = case[3] if kind == "attr" else [None, None]
    L = []
    for j, m in enumerate(shape):
        evs = []
        for i in range(m):
            v = next(it)
            evs.append(("ab"[(i + j) % 2], i + 0.5 * j, {} if v is None else {"k": v}))
        L.append(({"ck": cs[j]} if cs[j] else {}, evs))
    o = Obj(L)
    k = lambda e: e[3].get("k")
    if kind == "num":
        for lo, hi in itertools.combinations_with_replacement([-1, 0, 1, 1.5, 4] if len(o.ev) < 4 else [0, 1.5], 2):
            inn = lambda e: k(e) is not None and lo <= k(e) <= hi
            for r in (True, False):
                par = {lattr.Parameters.ATTRIBUTE_KEY: "k", lattr.Parameters.POSITIVE: r}
                pp = {pattr.Parameters.ATTRIBUTE_KEY: "k", pattr.Parameters.POSITIVE: r}
                P = lambda x: (lattr, par) if isinstance(x, EventLog) else (pattr, pp)
                check(ctx, o, "numeric cases(%s,%s,%s)" % (lo, hi, r), lambda x: P(x)[0].apply_numeric(x, lo, hi, parameters=dict(P(x)[1])), cases_where(o, lambda c, e: any(inn(y) for y in e) == r))
                check(ctx, o, "numeric events(%s,%s,%s)" % (lo, hi, r), lambda x: P(x)[0].apply_numeric_events(x, lo, hi, parameters=dict(P(x)[1])), {c: [e[0] for e in evs if (inn(e) if r else k(e) is not None and not inn(e))] for c, evs in o.cases.items()})
                for m in (lattr, pattr):
                    sp = {m.Parameters.ATTRIBUTE_KEY: "k", m.Parameters.POSITIVE: r, m.Parameters.STREAM_FILTER_KEY1: CN, m.Parameters.STREAM_FILTER_VALUE1: "a"}
                    check(ctx, o, "numeric cases of an activity(%s,%s,%s)" % (lo, hi, r), lambda x: m.apply_numeric(x, lo, hi, parameters=dict(sp)), cases_where(o, lambda c, e: any(inn(y) and y[1] == "a" for y in e) == r), only="el" if m is lattr else "df")
        o.unchanged()
        ctx.outcome("numeric")
        return
    for S in subsets(["u", "v"]):
        for r in (True, False):
            check(ctx, o, "event attribute values(%s,%s)" % (S, r), lambda x: pm4py.filter_event_attribute_values(x, "k", S, level="event", retain=r), {c: [e[0] for e in evs if (k(e) in S) == r] for c, evs in o.cases.items()})
            check(ctx, o, "case attribute values(%s,%s)" % (S, r), lambda x: pm4py.filter_event_attribute_values(x, "k", S, level="case", retain=r), cases_where(o, lambda c, e: any(k(y) in S for y in e) == r))
    if any(cs):
        for S in subsets(["p", "q"]):
            for r in (True, False):
                check(ctx, o, "trace attribute values(%s,%s)" % (S, r), lambda x: pm4py.filter_trace_attribute_values(x, "ck" if isinstance(x, EventLog) else "case:ck", S, retain=r), cases_where(o, lambda c, e: (o.cattr[c].get("ck") in S) == r))
    n, tot = len(o.cases), len(o.ev)
    for p in (0, 0.5, 1.0, 0.3):
        oc = Counter(v for evs in o.cases.values() for v in {k(e) for e in evs} - {None})
        oe = Counter(k(e) for evs in o.cases.values() for e in evs if k(e))
        check(ctx, o, "relative occurrence of values in cases(%s)" % p, lambda x: pm4py.filter_log_relative_occurrence_event_attribute(x, p, attribute_key="k", level="cases"), {c: [e[0] for e in evs if k(e) and oc[k(e)] >= p * n] for c, evs in o.cases.items()})
        check(ctx, o, "relative occurrence of values in events(%s)" % p, lambda x: pm4py.filter_log_relative_occurrence_event_attribute(x, p, attribute_key="k", level="events"), {c: [e[0] for e in evs if k(e) and oe[k(e)] >= p * tot] for c, evs in o.cases.items()})
    o.unchanged()
    ctx.outcome("attributes")


def families(tier):
    return [("control flow", ctl_gen, ctl_run), ("time", tim_gen, tim_run), ("attributes", att_gen, att_run)]
