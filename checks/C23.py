"""C23 conversions between event log, event stream and dataframe: every chain over every small log and interleaving; formatting, sorting, interval/lifecycle, wrappers."""
import copy, datetime as dtm, itertools, math, warnings
from collections import defaultdict
from mc import gen
from mc.harness import Violation
import numpy as np, pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
from pm4py.objects.conversion.log import converter
from pm4py.objects.log.util import sorting, interval_lifecycle, move_attrs_to_trace, pandas_log_wrapper
from pm4py.streaming.conversion import from_pandas
from checks.C16 import merges

ID, TITLE = "C23", "Log representations convert without loss"
BOUNDS = {"quick": "all chains of <=3 conversions between event log, stream and dataframe x 4 option sets over logs of <=2 traces of <=2 events with every pattern of present and missing attributes, 14 value types and 8 attribute names; every row interleaving of all multisets of <=3 traces of length <=2 (<=5 rows); formatting of all tables of <=4 rows over 2 cases and 2 time stamps with missing cells and every exchange of column roles; interval logs of <=3 overlapping activities and all lifecycle sequences of <=4 events; all indices and slices of the dataframe wrapper",
          "thorough": "chains of 4 conversions, 3 traces of length 3 interleaved, lifecycle sequences of 5 events, tables of 5 rows"}
ASSUMPTIONS = ["case identifiers are distinct, case attributes constant within a case and cases are not empty (streams and dataframes cannot tell otherwise)", "a missing value in a dataframe (NaN, NaT, None, NA) is an absent attribute; whole numbers may become floats in columns with missing values",
               "intervals of the same activity and instance are not nested in one another (the pairing is first in, first out)"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")
UTC = dtm.timezone.utc
T0 = dtm.datetime(2020, 1, 1, tzinfo=UTC)
CN, TS, CID = "concept:name", "time:timestamp", "case:concept:name"


def canon(v):
    if v is None or v is pd.NA or v is pd.NaT or (isinstance(v, (float, np.floating)) and math.isnan(v)):
        return None
    if isinstance(v, (bool, np.bool_)):
        return "bool:%s" % bool(v)
    if isinstance(v, (int, np.integer)):
        return "num:%d" % int(v)
    if isinstance(v, (float, np.floating)):
        return "num:%d" % int(v) if float(v).is_integer() else "num:%r" % float(v)
    if isinstance(v, np.datetime64):
        v = pd.Timestamp(v)
    if isinstance(v, dtm.datetime):
        return "date:" + (v if v.tzinfo else v.replace(tzinfo=UTC)).astimezone(UTC).strftime("%Y-%m-%dT%H:%M:%S.%f")
    if isinstance(v, dict):
        return "dict:%s" % sorted((k, canon(x)) for k, x in v.items())
    if isinstance(v, (list, tuple, set)):
        return "%s:%s" % (type(v).__name__, [canon(x) for x in v])
    return "str:%s" % v


def cat(d):
    return sorted([k, canon(v)] for k, v in d.items() if canon(v) is not None)


def split(d):
    """case and event attributes of a row"""
    return cat({k[5:]: v for k, v in d.items() if k.startswith("case:")}), cat({k: v for k, v in d.items() if not k.startswith("case:")})


def rows_of(x):
    if isinstance(x, pd.DataFrame):
        return [dict(zip(x.columns, r)) for r in zip(*[list(x[c]) for c in x.columns])] if len(x.columns) else []
    return [dict(e) for e in x]


def facts(x, key="case:concept:name"):
    """ordered cases: [case id, case attributes, events]"""
    if isinstance(x, EventLog):
        return [[canon(t.attributes.get(CN)), cat(t.attributes), [cat(e) for e in t]] for t in x]
    out = {}
    for r in rows_of(x):
        c, e = split(r)
        ent = out.setdefault(canon(r[key]), [canon(r[key]), c, []])
        ent[2].append(e)
        if ent[1] != c:
            ent[1] = ["not constant"] + [ent[1], c]
    return list(out.values())


def exact(x):
    """everything observable of an object, to detect that it was changed"""
    if isinstance(x, pd.DataFrame):
        return ["df", list(x.columns), [str(t) for t in x.dtypes], [[repr(v) for v in r] for r in x.itertuples(index=True, name=None)], str(dict(x.attrs))]
    top = [type(x).__name__, repr(x.attributes), repr(x.extensions), repr(x.omni_present), repr(x.classifiers), repr(x.properties)]
    if isinstance(x, EventLog):
        return top + [[repr(dict(t.attributes)), [repr(dict(e)) for e in t]] for t in x]
    return top + [repr(dict(e)) for e in x]


VALS = {"s": "x", "e": "", "i": 1, "z": 0, "f": 1.5, "f1": 1.0, "T": True, "F": False, "d": T0 + dtm.timedelta(days=1, microseconds=5), "n": -7, "L": ["p", "q"], "u": "é日", "num": "1", "none": "None"}
NAMES = ["k", "case", "case:k", "a:case:k", "k:case:", "org:resource", "concept:instance", "k k"]
OPTS = [{}, {"stream_postprocessing": True}, {"compress": True}, {"stream_postprocessing": True, "compress": True}]


def build(spec):
    """spec: [[case attrs {name: value id}, [event attrs ...]], ...]"""
    log, k = EventLog(attributes={"la": "v"}, extensions={"Concept": {"prefix": "concept", "uri": "u"}}, omni_present={"trace": {CN: "d"}}, classifiers={"cl": [CN]}), 0
    for i, (ca, evs) in enumerate(spec):
        t = Trace(attributes={CN: "c%d" % i, **{n: VALS[v] for n, v in ca.items()}})
        for e in evs:
            t.append(Event({CN: "ab"[k % 2], TS: T0 + dtm.timedelta(minutes=k), **{n: copy.copy(VALS[v]) for n, v in e.items()}}))
            k += 1
        log.append(t)
    return log


def expand(log, order=None):
    rows = [[{**{"case:" + a: v for a, v in t.attributes.items()}, **dict(e)} for e in t] for t in log]
    order = order if order is not None else [i for i, t in enumerate(log) for _ in t]
    it = [iter(r) for r in rows]
    return [next(it[i]) for i in order]


def as_kind(log, kind, order=None):
    if kind == "el":
        return log
    rows = expand(log, order)
    return EventStream([Event(r) for r in rows]) if kind == "es" else pd.DataFrame(rows)


CONV = {"el": pm4py.convert_to_event_log, "es": pm4py.convert_to_event_stream, "df": pm4py.convert_to_dataframe}
KIND = {"el": EventLog, "es": EventStream, "df": pd.DataFrame}


def chain(ctx, log, start, kinds, opt, order, want):
    x = as_kind(log, start, order)
    seen = [start]
    for kd in kinds:
        before = exact(x)
        y = CONV[kd](x, **opt)
        ctx.step()
        if exact(x) != before:
            raise Violation("the conversion to %s changes its source %s" % (kd, seen[-1]), opt=opt, before=before, after=exact(x))
        if type(y) is not KIND[kd]:
            raise Violation("the conversion to %s yields another type" % kd, source=seen[-1], got=type(y).__name__)
        seen.append(kd)
        got = facts(y)
        if got != want:
            # the only permitted freedom is the order of the cases
            if sorted(got, key=str) == sorted(want, key=str):
                if order is None:
                    raise Violation("the conversion changes the order of the cases", chain=seen, opt=opt, got=[g[0] for g in got], want=[w[0] for w in want])
            else:
                raise Violation("the conversion loses or changes cases, events or attributes", chain=seen, opt=opt, got=got, want=want)
        if isinstance(y, (EventStream, EventLog)) and (opt.get("stream_postprocessing") and seen[-2] == "df"):
            evs = [e for t in y for e in t] if isinstance(y, EventLog) else list(y)
            if any(canon(v) is None for e in evs for v in dict(e).values()):
                raise Violation("post-processing keeps missing values", chain=seen, got=exact(y))
        if seen[0] == "el" and "df" not in seen and cat(y.attributes) != cat(log.attributes):
            raise Violation("the conversion loses the attributes of the log", chain=seen)
        if seen[0] == "el" and "df" not in seen and (y.extensions, y.omni_present, y.classifiers) != (log.extensions, log.omni_present, log.classifiers):
            raise Violation("the conversion loses extensions, globals or classifiers", chain=seen)
        x = y


def kindseqs(n):
    return [list(s) for m in range(1, n + 1) for s in itertools.product(("el", "es", "df"), repeat=m) if all(s[i] != s[i + 1] for i in range(m - 1))]


def chain_gen(tier):
    n = 3 if tier == "quick" else 4
    # presence patterns of an event attribute and a case attribute
    for shape in [(1,), (2,), (1, 1), (2, 1), (2, 2)]:
        for pres in itertools.product((0, 1), repeat=sum(shape)):
            for cp in itertools.product((0, 1), repeat=len(shape)):
                vals = ["i", "s", "T", "d"]
                it = iter(pres)
                spec = [[{"ck": "i"} if cp[j] else {}, [({"k": v} if next(it) else {}) for _ in range(m)]] for j, m in enumerate(shape) for v in ["i"]]
                for v in vals:
                    sp = [[{c: v for c in ca}, [{a: v for a in e} for e in evs]] for ca, evs in spec]
                    yield ["chain", sp, n if sum(shape) <= 2 else 2]
    # value types mixed in one column
    for v, w in itertools.product(VALS, repeat=2):
        yield ["chain", [[{"ck": v} if v != "L" else {}, [{"k": v}, {"k": w}]], [{"ck": w} if w != "L" else {}, [{"k": w}]]], 2]
    for a, b in itertools.permutations(NAMES, 2):
        safe = lambda x: not x.startswith("case:")
        ev = {x: y for x, y in ((a, "s"), (b, "i")) if safe(x)}
        yield ["chain", [[{a: "s", b: "u"}, [ev, {}]], [{b: "i"}, [ev]]], n]


def chain_run(case, ctx):
    _, spec, n = case
    ctx.state(spec)
    log = build(spec)
    want = facts(log)
    hasl = any(v == "L" for ca, evs in spec for e in evs for v in e.values())
    for start in ("el", "es", "df"):
        for ks in kindseqs(n):
            if ks[0] == start:
                continue
            for opt in OPTS:
                chain(ctx, build(spec), start, ks, opt, None, want)
    ctx.outcome("lists" if hasl else "plain")


def inter_gen(tier):
    words = list(gen.traces("ab", 2 if tier == "quick" else 3, 1))
    for n in (1, 2, 3):
        for L in itertools.combinations_with_replacement(words, n):
            if sum(len(w) for w in L) <= (5 if tier == "quick" else 6):
                yield ["inter", [list(w) for w in L]]


def inter_run(case, ctx):
    L = case[1]
    ctx.state(L)
    for no, order in enumerate(merges(L)):
        log = build([[{"ck": "i"} if i % 2 else {}, [{"k": "s"} if j % 2 else {"m": "i"} for j in range(len(w))]] for i, w in enumerate(L)])
        for i, w in enumerate(L):
            for j, a in enumerate(w):
                log[i][j][CN] = a
        want = facts(log)
        for start in ("es", "df"):
            for ks in (["el"], ["el", "df"], ["es" if start == "df" else "df", "el"]):
                chain(ctx, log, start, ks, {}, order, want)
        # another grouping key
        rows = [{"cid": r[CID], CN: r[CN], TS: r[TS], "x": r.get("k")} for r in expand(log, order)]
        for src in (pd.DataFrame(rows), EventStream([Event(r) for r in rows])):
            el = pm4py.convert_to_event_log(src, case_id_key="cid")
            ctx.step()
            got = sorted([t.attributes[CN], [e[CN] for e in t], [canon(e[TS]) for e in t], [e.get("cid") for e in t]] for t in el)
            exp = sorted([t.attributes[CN], [e[CN] for e in t], [canon(e[TS]) for e in t], [t.attributes[CN]] * len(t)] for t in log)
            if got != exp:
                raise Violation("grouping by another case identifier", got=got, want=exp)
        # formatted and unformatted frames: iterables, projections
        df = pd.DataFrame(expand(log, order))
        ref = sorted([t.attributes[CN], [e[CN] for e in t], [canon(e[TS]) for e in t]] for t in log)
        for d in (df, pm4py.format_dataframe(df.copy())):
            b = exact(d)
            got = [[t.attributes[CN], [e[CN] for e in t], [canon(e[TS]) for e in t]] for t in from_pandas.apply(d)]
            if sorted(got) != ref:
                raise Violation("traces iterated from a dataframe", got=got, want=ref)
            pr = pm4py.project_on_event_attribute(d, CN)
            if sorted(pr) != sorted(r[1] for r in ref):
                raise Violation("projection of a dataframe on an attribute", got=pr, want=[r[1] for r in ref])
            pc = pm4py.project_on_event_attribute(d, CN, case_id_key=CN)
            if sorted(pc) != sorted([a] * c for a, c in pd.Series([r[CN] for r in expand(log, order)]).value_counts().items()):
                raise Violation("projection with another case identifier", got=pc)
            if exact(d) != b:
                raise Violation("iterating a dataframe changes it", before=b, after=exact(d))
        el = sorted(pm4py.project_on_event_attribute(log, CN))
        if el != sorted(r[1] for r in ref):
            raise Violation("projection of an event log on an attribute", got=el)
        if no < 2 or len(L) < 3:
            wrapper(ctx, df, log)
    ctx.outcome("ok")


def ev_facts(e):
    return cat({k: v for k, v in dict(e).items() if k != "index"})


def wrapper(ctx, df, log):
    w = pandas_log_wrapper.PandasLogWrapper(df)
    ref = sorted(([canon(t.attributes[CN]), cat(t.attributes), [sorted(cat(e) + [["case:" + k, v] for k, v in cat(t.attributes)]) for e in t]] for t in log), key=lambda x: x[0])
    one = lambda t: [canon(t.attributes[CN]), cat(t.attributes), [sorted(ev_facts(e)) for e in t]]
    ctx.step()
    if [one(t) for t in w] != ref or len(w) != len(ref):
        raise Violation("iterating the dataframe wrapper", got=[one(t) for t in w], want=ref)
    n = len(ref)
    for i in range(-n, n):
        if one(w[i]) != ref[i]:
            raise Violation("indexing the dataframe wrapper", index=i, got=one(w[i]), want=ref[i])
    rng = [None] + list(range(-n - 1, n + 2))
    for a, b in itertools.product(rng, repeat=2):
        if [one(t) for t in w[a:b]] != ref[a:b]:
            raise Violation("slicing the dataframe wrapper", slice=[a, b], got=[one(t)[0] for t in w[a:b]], want=[r[0] for r in ref[a:b]])
    t, rt = w[0], ref[0][2]
    rng = [None] + list(range(-len(rt) - 1, len(rt) + 2))
    if len(t) != len(rt) or [sorted(ev_facts(t[i])) for i in range(-len(rt), len(rt))] != rt + rt:
        raise Violation("indexing a trace of the dataframe wrapper", got=[ev_facts(e) for e in t], want=rt)
    for a, b in itertools.product(rng, repeat=2):
        if [sorted(ev_facts(e)) for e in t[a:b]] != rt[a:b]:
            raise Violation("slicing a trace of the dataframe wrapper", slice=[a, b], got=[ev_facts(e) for e in t[a:b]], want=rt[a:b])


def fmt_gen(tier):
    n = 3 if tier == "quick" else 4
    cells = list(itertools.product("xy", (1, 2)))
    for m in range(1, n + 1):
        for tab in itertools.product(cells, repeat=m):
            yield ["format", [list(c) for c in tab]]
    for tab in itertools.product([("x", 1), ("y", 1), ("x", 2)], repeat=2):
        for miss in itertools.product(range(4), repeat=2):
            if any(miss):
                yield ["missing", [list(c) for c in tab], list(miss)]
    for cols in itertools.permutations(["case:concept:name", "concept:name", "zz"], 2):
        for tcol in itertools.permutations(["time:timestamp", "start_timestamp", "tt"], 2):
            yield ["roles", list(cols), list(tcol)]


def fmt_run(case, ctx):
    ctx.state(case)
    kind = case[0]
    if kind in ("format", "missing"):
        rows = [{CID: c, CN: "a%d" % i, TS: T0 + dtm.timedelta(hours=t), "v": i} for i, (c, t) in enumerate(case[1])]
        if kind == "missing":
            for r, m in zip(rows, case[2]):
                if m:
                    r[[CID, CN, TS][m - 1]] = None
        keep = [r for r in rows if all(canon(r[k]) is not None for k in (CID, CN, TS))]
        if not keep:
            ctx.outcome("nothing left")
            return
        want = sorted(keep, key=lambda r: (r[CID], r[TS]))
        ids = sorted({r[CID] for r in keep})
        exp = [[r[CID], r[CN], canon(r[TS]), r["v"], i, ids.index(r[CID])] for i, r in enumerate(want)]
        raw = pd.DataFrame(rows)
        txt = raw.copy()
        txt[TS] = [None if canon(r[TS]) is None else r[TS].isoformat() for r in rows]
        off = raw.copy()
        off[TS] = [None if canon(r[TS]) is None else r[TS].astimezone(dtm.timezone(dtm.timedelta(hours=5))).isoformat() for r in rows]
        ren = raw.rename(columns={CID: "Case", CN: "Act", TS: "When"})
        for name, d, kw in [("typed", raw, {}), ("text", txt, {}), ("offset", off, {}), ("renamed", ren, dict(case_id="Case", activity_key="Act", timestamp_key="When"))]:
            for again in (False, True):
                f = pm4py.format_dataframe(d.copy(), **kw)
                if again:
                    f = pm4py.format_dataframe(f)
                ctx.step()
                got = [[r[CID], r[CN], canon(r[TS]), r["v"], r["@@index"], r["@@case_index"]] for r in rows_of(f)]
                if got != exp:
                    raise Violation("formatting a dataframe", variant=name, again=again, got=got, want=exp)
        if kind == "format":
            by = defaultdict(list)
            for r in rows:
                by[r[CID]].append(r)
            st = EventStream([Event(r) for r in rows])
            for rev in (False, True):
                b = exact(st)
                got = [e["v"] for e in sorting.sort_timestamp(st, reverse_sort=rev)]
                if got != [r["v"] for r in sorted(rows, key=lambda r: r[TS], reverse=rev)] or exact(st) != b:
                    raise Violation("sorting a stream by time", got=got, reverse=rev)
                el = EventLog([Trace([Event(r) for r in rs], attributes={CN: c}) for c, rs in by.items()])
                b = exact(el)
                got = [[t.attributes[CN], [e["v"] for e in t]] for t in sorting.sort_timestamp(el, reverse_sort=rev)]
                exp = [[c, sorted(rs, key=lambda r: r[TS], reverse=rev)] for c, rs in by.items()]
                exp = [[c, [r["v"] for r in rs]] for c, rs in sorted(exp, key=lambda x: x[1][0][TS], reverse=rev)]
                if got != exp or exact(el) != b:
                    raise Violation("sorting an event log by time", got=got, want=exp, reverse=rev)
            got = [[t.attributes[CN], [e["v"] for e in t]] for t in sorting.sort_lambda(el, lambda t: -len(t))]
            if got != [[c, [r["v"] for r in rs]] for c, rs in sorted(by.items(), key=lambda x: -len(x[1]))]:
                raise Violation("sorting by a function", got=got)
            for i, t in enumerate(el):
                if el.index(t) != i or el.count(t) != 1 or t not in el or [t.index(e) for e in t] != list(range(len(t))):
                    raise Violation("positions in a log", trace=i)
        ctx.outcome("formatted")
        return
    # roles: any column may play any role
    (ck, ak), (tk, sk) = case[1], case[2]
    base = {"case:concept:name": ["p", "q", "p"], "concept:name": ["l", "m", "l"], "zz": ["s", "s", "t"],
            "time:timestamp": [T0 + dtm.timedelta(hours=h) for h in (3, 2, 1)], "start_timestamp": [T0 + dtm.timedelta(hours=h) for h in (5, 4, 6)], "tt": [T0 + dtm.timedelta(hours=h) for h in (7, 9, 8)]}
    rows = [dict(zip(base, vals)) for vals in zip(*base.values())]
    exp = [[r[ck], r[ak], canon(r[tk]), canon(r[sk])] for r in sorted(rows, key=lambda r: (r[ck], r[tk]))]
    kw = dict(case_id=ck, activity_key=ak, timestamp_key=tk, start_timestamp_key=sk)
    for name, f in [("format", lambda: pm4py.format_dataframe(pd.DataFrame(base), **kw)), ("rebase", lambda: pm4py.rebase(pd.DataFrame(base), **kw)),
                    ("rebase stream", lambda: pm4py.rebase(EventStream([Event(r) for r in rows]), **kw)),
                    ("rebase log", lambda: pm4py.rebase(pm4py.convert_to_event_log(pd.DataFrame(base)), **kw))]:
        ctx.step()
        got = f()
        if isinstance(got, EventLog):
            got = [{CID: t.attributes[CN], **dict(e)} for t in got for e in t]
        got = [[r[CID], r[CN], canon(r[TS]), canon(r["start_timestamp"])] for r in rows_of(got)]
        if got != exp:
            raise Violation("columns take their roles", what=name, got=got, want=exp)
    ctx.outcome("roles")


def lif_gen(tier):
    iv = [(s, e) for s in range(3) for e in range(s, 3)]
    for n in (1, 2, 3):
        for evs in itertools.combinations_with_replacement([(a, s, e) for a in "ab" for s, e in iv], n):
            same = defaultdict(list)
            for a, s, e in evs:
                same[a].append((s, e))
            if all(not (x[0] < y[0] and y[1] < x[1]) for L in same.values() for x in L for y in L):
                yield ["intervals", [list(e) for e in sorted(evs, key=lambda x: x[1])]]
    sym = [(a, t, i) for a in "ab" for t in ("start", "complete") for i in ("", "1")] + [("a", "Complete", ""), ("a", "", ""), ("a", "schedule", "")]
    for n in range(1, 4 if tier == "quick" else 5):
        for s in itertools.product(sym, repeat=n):
            if s[0][1]:
                yield ["lifecycle", [list(x) for x in s]]
    for s in itertools.product([("a", "start", ""), ("a", "complete", ""), ("b", "complete", "1"), ("a", "start", "1"), ("a", "complete", "1")], repeat=4):
        yield ["lifecycle", [list(x) for x in s]]


def lif_run(case, ctx):
    ctx.state(case)
    at = lambda h: T0 + dtm.timedelta(hours=h)
    if case[0] == "intervals":
        log = EventLog([Trace([Event({CN: a, "start_timestamp": at(s), TS: at(e), "x": i}) for i, (a, s, e) in enumerate(case[1])], attributes={CN: "c", "ca": 3})], attributes={"l": 1})
        b = exact(log)
        lc = pm4py.objects.log.util.interval_lifecycle.to_lifecycle(log)
        ctx.step()
        flat = [[e[CN], e["lifecycle:transition"], canon(e[TS]), e["x"]] for e in lc[0]]
        exp = [x for a_ in [[[a, "start", canon(at(s)), i], [a, "complete", canon(at(e)), i]] for i, (a, s, e) in enumerate(case[1])] for x in a_]
        if sorted(flat) != sorted(exp) or [f[2] for f in flat] != sorted(f[2] for f in flat):
            raise Violation("intervals become start and complete events in time order", got=flat, want=exp)
        if dict(lc[0].attributes) != {CN: "c", "ca": 3}:
            raise Violation("the lifecycle log loses the case attributes", got=dict(lc[0].attributes))
        if exact(log) != b:
            raise Violation("the lifecycle transformation changes its source", before=b, after=exact(log))
        back = interval_lifecycle.to_interval(lc)
        got = [[e[CN], canon(e["start_timestamp"]), canon(e[TS]), e["@@duration"]] for e in back[0]]
        exp = [[a, canon(at(s)), canon(at(e)), 3600.0 * (e - s)] for a, s, e in case[1]]
        if sorted(got) != sorted(exp) or [g[1] for g in got] != sorted(g[1] for g in got):
            raise Violation("intervals come back from the lifecycle log", got=got, want=exp)
        ctx.outcome("round-trip")
        return
    evs = case[1]
    log = EventLog([Trace([Event({CN: a, TS: at(k), "n": k, **({"lifecycle:transition": t} if t else {}), **({"concept:instance": i} if i else {})}) for k, (a, t, i) in enumerate(evs)], attributes={CN: "c", "ca": 3})])
    b = exact(log)
    iv = interval_lifecycle.to_interval(log)
    ctx.step()
    open_, exp = defaultdict(list), []
    for k, (a, t, i) in enumerate(evs):
        t = t.lower() or "complete"
        if t == "start":
            open_[a, i].append(k)
        elif t == "complete":
            s = open_[a, i].pop(0) if open_[a, i] else None
            exp.append([a, k if s is None else s, k, k, s])
    exp = [[a, canon(at(s)), canon(at(e)), n, so] for a, s, e, n, so in sorted(exp, key=lambda x: x[1])]
    got = [[e[CN], canon(e["start_timestamp"]), canon(e[TS]), e["n"], e.get("@@startevent_n")] for e in iv[0]] if len(iv) else None
    if got != exp or dict(iv[0].attributes) != {CN: "c", "ca": 3} or any(e.get("concept:instance") != (evs[e["n"]][2] or None) for e in iv[0]):
        raise Violation("lifecycle events are paired first in, first out", got=got, want=exp)
    if exact(log) != b:
        raise Violation("the interval transformation changes its source", before=b, after=exact(log))
    ctx.outcome("paired")


def mov_gen(tier):
    yield ["move", []]
    pat = [None, "u", "v"]
    for shape in [(1,), (2,), (1, 1), (2, 1), (2, 2), (0, 1), (1, 0), (1, 1, 1)]:
        for vs in itertools.product(pat, repeat=sum(shape)):
            for own in ((), (0,), (1,)):
                yield ["move", [list(shape), list(vs), [o for o in own if o < len(shape)]]]


def mov_run(case, ctx):
    ctx.state(case)
    if not case[1]:
        r = move_attrs_to_trace.apply(EventLog())
        if len(r):
            raise Violation("an empty log gets cases")
        ctx.outcome("empty")
        return
    shape, vs, own = case[1]
    it = iter(vs)
    log = EventLog()
    for i, m in enumerate(shape):
        t = Trace(attributes={CN: "c%d" % i, **({"k": "own"} if i in own else {})})
        for j in range(m):
            v = next(it)
            t.append(Event({CN: "a", TS: T0, "org:resource": "r", **({"k": v} if v else {})}))
        log.append(t)
    vals = [[e.get("k") for e in t] for t in log]
    move = all(len(v) and len(set(v)) == 1 and v[0] is not None for v in vals) and not own
    b = exact(log)
    r = move_attrs_to_trace.apply(log, parameters={"enable_deepcopy": True})
    ctx.step()
    if exact(log) != b:
        raise Violation("moving attributes changes its source")
    got = [[t.attributes.get("k"), [e.get("k") for e in t], t.attributes[CN], all(e[CN] == "a" and e["org:resource"] == "r" for e in t)] for t in r]
    exp = [[v[0], [None] * len(v), "c%d" % i, True] if move else ["own" if i in own else None, v, "c%d" % i, True] for i, v in enumerate(vals)]
    if got != exp:
        raise Violation("exactly the attributes constant in every case are moved to the cases", got=got, want=exp)
    ctx.outcome("moved" if move else "kept")


def families(tier):
    return [("chains", chain_gen, chain_run), ("interleavings", inter_gen, inter_run), ("format", fmt_gen, fmt_run), ("lifecycle", lif_gen, lif_run), ("move", mov_gen, mov_run)]
