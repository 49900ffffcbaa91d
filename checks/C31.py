"""C31 streaming algorithms: every interleaving of the cases of every small log, compared with the batch definition after every event."""
import contextlib, io, itertools, logging, os, sys, warnings, datetime as dtm
from mc.harness import Violation
from mc import ref, gen
import pandas as pd
import pm4py
from pm4py.objects.log.obj import Event, EventLog, Trace
from pm4py.streaming.algo.discovery.dfg import algorithm as sdfg
from pm4py.streaming.algo.conformance.footprints import algorithm as sfp
from pm4py.streaming.algo.conformance.tbr import algorithm as stbr
from pm4py.streaming.algo.conformance.temporal import algorithm as stemp
from pm4py.streaming.util.dictio import generator as dictio
from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
from checks.C08 import usable

ID, TITLE = "C31", "Streaming algorithms agree with their batch counterparts"
BOUNDS = {"quick": "all interleavings of all logs of two cases with traces of <=3 events (three cases of <=2) over two activities, a malformed event at every position; footprints of all logs of two traces and of all trees <=3 leaves; token replay on all nets up to 3 places x 3 transitions and all trees <=3 leaves with all traces of length <=2 and a third (nets with 3 places) or all of those of length 3, with an unknown activity; all time profiles of three events; all small XES, CSV, dataframe and object-centric sources",
          "thorough": "three cases of <=3 events, traces of length 4, four leaves"}
ASSUMPTIONS = ["streaming token replay looks for silent moves along shortest paths: on nets with silent transitions or duplicate labels only its positive verdicts are binding (a case without missing tokens is replayable), on the others the exact token counts",
               "a case whose events all carry unknown activities deviates"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
CID, ACT, TS, ST = "case:concept:name", "concept:name", "time:timestamp", "start_timestamp"
UTC = dtm.timezone.utc
T0 = dtm.datetime(2020, 1, 1, tzinfo=UTC)
DICTS = [dictio.Variants.THREAD_SAFE, dictio.Variants.CLASSIC]


def merges(lens):
    """all interleavings of sequences with the given lengths, as lists of sequence indices"""
    if not any(lens):
        yield []
        return
    for i, n in enumerate(lens):
        if n:
            for r in merges(lens[:i] + (n - 1,) + lens[i + 1:]):
                yield [i] + r


def ev(case, act, t=0):
    return Event({CID: "c%d" % case, ACT: act, TS: T0 + dtm.timedelta(hours=t)})


BAD = [lambda: Event({ACT: "a", TS: T0}), lambda: Event({CID: "c0", TS: T0}), lambda: Event({})]


def quiet(f):
    """algorithms print the traceback of errors and go on: an error shows as output on stderr"""
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        r = f()
    return r, err.getvalue()


def send(ctx, algo, e, what, **kw):
    ctx.step()
    _, err = quiet(lambda: algo.receive(e))
    if "Traceback" in err:
        ctx.note("%s: an event raises an error" % what, event=str(dict(e)), error=err.strip().splitlines()[-1][:200], **kw)


def fetch(ctx, algo, what, **kw):
    r, err = quiet(algo.get)
    if "Traceback" in err:
        ctx.note("%s: asking for the result raises an error" % what, error=err.strip().splitlines()[-1][:200], **kw)
    return r


def loggen(tier):
    W = ["".join(w) for w in gen.traces("ab", 3, 1)]
    for x in W:
        for y in W:
            if x <= y and x[0] == "a" or (x > y and x[0] == "a" and y[0] == "b"):
                yield [[x, y]]
    W2 = [w for w in W if len(w) <= (2 if tier == "quick" else 3)]
    for c in itertools.combinations_with_replacement(W2, 3):
        if c[0][0] == "a":
            yield [list(c)]
    for s in ("abc", "abca", "aabcc"):
        yield [[s, s[::-1]]]


# ------------------------------------------------------------------ directly-follows graph
def dfg_run(case, ctx):
    L, = case
    for n, m in enumerate(merges(tuple(len(w) for w in L))):
        algo = sdfg.apply(parameters={"dict_variant": DICTS[n % 2]})
        done = [""] * len(L)
        bad = n % (len(m) + 1)
        for i, c in enumerate(m):
            if i == bad:
                send(ctx, algo, BAD[n % 3](), "directly-follows graph", traces=L, order=m)
            a = L[c][len(done[c])]
            send(ctx, algo, ev(c, a, i), "directly-follows graph", traces=L, order=m)
            done[c] += a
            if n > 3 and i < len(m) - 1 and i % 2:
                continue                                    # asking in between every time in the first orders, every second time later
            g = fetch(ctx, algo, "directly-follows graph")
            df, ac, sa, ea = {}, {}, {}, {}
            for w in done:
                for x, y in zip(w, w[1:]):
                    df[x, y] = df.get((x, y), 0) + 1
                for x in w:
                    ac[x] = ac.get(x, 0) + 1
                if w:
                    sa[w[0]] = sa.get(w[0], 0) + 1
                    ea[w[-1]] = ea.get(w[-1], 0) + 1
            if g is None or [dict(x) for x in g] != [df, ac, sa, ea]:
                raise Violation("directly-follows graph differs from that of the events received", traces=L, order=m, received=done, got=str(g), want=str([df, ac, sa, ea]))
        ctx.trace()
    log = EventLog([Trace([Event({ACT: a, TS: T0 + dtm.timedelta(hours=j)}) for j, a in enumerate(w)]) for w in L])
    b = pm4py.discover_dfg(log)
    if [dict(x) for x in b] != [df, sa, ea]:
        raise Violation("directly-follows graph: batch discovery differs", traces=L, got=str(b), want=str([df, sa, ea]))
    ctx.outcome("directly-follows graph")


# ------------------------------------------------------------------ footprints
def fp_gen(tier):
    for i, m in enumerate([["ab", "ba"], ["ab"], ["a"], ["ab", "b"], ["aab"], ["abab"], ["ab", "aab", "a"], ["ba", "b"]]):
        yield ["log", m]
    for leaves in (1, 2, 3):
        for t in gen.trees("ab", leaves):
            if leaves < 3 or tier != "quick" or t[0] in ("->", "*"):
                if ref.tree_labels(t):
                    yield ["tree", t]


def fp_run(case, ctx):
    kind, m = case
    if kind == "log":
        fp = pm4py.discover_footprints(EventLog([Trace([Event({ACT: a, TS: T0 + dtm.timedelta(hours=j)}) for j, a in enumerate(w)]) for w in m]))
    else:
        fp = pm4py.discover_footprints(ref.tree_to_pm4py(m))
    if not isinstance(fp, dict):
        fp = dict(fp[0])
    rel = set(fp["sequence"]) | set(fp["parallel"])
    ctx.state(str(case))

    def devs(w):
        d, prev = 0, None
        for a in w:
            if a not in fp["activities"]:
                d += 1
                continue
            if prev is None:
                d += a not in fp["start_activities"]
            else:
                d += (prev, a) not in rel
            prev = a
        return d, prev
    words = ["".join(w) for w in gen.traces("abz", 3, 1)]
    pairs = [(w, words[(i * 7 + len(str(m))) % len(words)]) for i, w in enumerate(words)]
    for n, L in enumerate(pairs):
        for k, order in enumerate(merges(tuple(len(w) for w in L))):
            if k % 7 != n % 7 and ctx.tier == "quick":
                continue                                                # every seventh interleaving of every pair
            algo = sfp.apply(fp, parameters={"dict_variant": DICTS[n % 2]})
            done = [""] * 2
            for i, c in enumerate(order):
                if i == n % 4:
                    send(ctx, algo, BAD[n % 3](), "footprints", model=case, traces=L, order=order)
                a = L[c][len(done[c])]
                send(ctx, algo, ev(c, a, i), "footprints", model=case, traces=L, order=order)
                done[c] += a
                d = fetch(ctx, algo, "footprints", model=case)
                got = {} if d is None or not len(d) else {r["case"]: bool(r["is_fit"]) for r in d.to_dict("records")}
                want = {"c%d" % j: devs(w)[0] == 0 for j, w in enumerate(done) if w}
                if got != want:
                    raise Violation("footprints: verdicts differ from those of the events received", model=case, traces=L, order=order, received=done, got=got, want=want)
            for c, w in enumerate(L):
                ctx.step()
                d, last = devs(w)
                want = d == 0 and last in fp["end_activities"]
                got = algo.terminate("c%d" % c)
                if got is None or bool(got) != want:
                    raise Violation("footprints: verdict at the end of a case", model=case, trace=w, received=L, order=order, got=got, want=want)
            d = fetch(ctx, algo, "footprints")
            if d is not None and len(d):
                raise Violation("footprints: terminated cases are kept", model=case, traces=L)
            ctx.trace()
    ctx.outcome("footprints")


# ------------------------------------------------------------------ token replay
def tbr_gen(tier):
    for p, t in ((2, 1), (2, 2), (3, 2), (3, 3)):
        for d in gen.nets(p, t, ["a", "b", "c"][:t], minpre=1, minpost=1, maxpre=2 if t < 3 else 1, maxpost=2 if t < 3 else 1):
            labs = [x[0] for x in d["trans"]]
            if usable(d) and (tier != "quick" or t < 3 or labs == ["a", "b", "c"]):
                yield ["net", d]
    for d in gen.nets(2, 2, ["a", "b"], weights=(1, 2), im=[[0, 2]]):
        if any(w > 1 for t in d["trans"] for w in [x[1] for x in t[1] + t[2]]):
            N = ref.net_ref(d)
            yield ["net", d]
    for p, t in ((3, 2), (3, 3)):
        for d in gen.nets(p, t, ["a", None], maxpre=1, maxpost=2 if t < 3 else 1):
            if usable(d):
                yield ["net", d]
    for leaves in (2, 3):
        for t in gen.trees("abc", leaves):
            if ref.tree_labels(t):
                yield ["tree", t]


def tbr_run(case, ctx):
    kind, m = case
    net, im, fm = pm4py.convert_to_petri_net(ref.tree_to_pm4py(m)) if kind == "tree" else ref.net_to_pm4py(m)[:3]
    N = ref.net_from_pm4py(net, im, fm)
    labs = [t["label"] for t in N.trans]
    exact = None not in labs and len(set(labs)) == len(labs)
    ctx.state(str(case))
    by = {t["label"]: t for t in N.trans}
    fmd, imd = dict(N.fm), dict(N.im)
    T = ["".join(w) for w in gen.traces(sorted({x for x in labs if x}) + ["z"], 3, 1)]
    h = sum(map(ord, str(m))) % 3
    for n, w in enumerate(T):
        if ctx.tier == "quick" and kind == "net" and m["n"] == 3 and len(w) == 3 and n % 3 != h:
            continue                                        # a third of the longest traces per large net
        other = T[(n * 5 + 1) % len(T)]
        order = [0] * len(w)
        if n % 3 == 0:
            order = [j for p in itertools.zip_longest([0] * len(w), [1] * len(other)) for j in p if j is not None]
        algo = stbr.apply(net, im, fm, parameters={"dict_variant": DICTS[n % 2]})
        L, done = [w, other], ["", ""]
        st = [[dict(imd), 0], [dict(imd), 0]]
        for i, c in enumerate(order):
            if i == n % 4:
                send(ctx, algo, BAD[n % 3](), "token replay", model=case, traces=L, order=order)
            a = L[c][len(done[c])]
            send(ctx, algo, ev(c, a, i), "token replay", model=case, traces=L, order=order)
            done[c] += a
            if exact and a in by:
                mk, t = st[c][0], by[a]
                for x, k in t["pre"].items():
                    if mk.get(x, 0) < k:
                        st[c][1] += k - mk.get(x, 0)
                        mk[x] = k
                    mk[x] -= k
                for x, k in t["post"].items():
                    mk[x] = mk.get(x, 0) + k
            if i < len(order) - 1 and i != n % 3:
                continue
            d = fetch(ctx, algo, "token replay", model=case)
            got = {} if d is None or not len(d) else {r["case"]: (bool(r["is_fit"]), int(r["missing"])) for r in d.to_dict("records")}
            known = {"c%d" % j: [x for x in done[j] if x in labs] for j in (0, 1)}
            if set(got) != {k for k, v in known.items() if v}:
                raise Violation("token replay: wrong cases", model=case, received=done, got=str(got))
            for k, (fit, miss) in got.items():
                j = int(k[1:])
                if fit != (miss == 0):
                    raise Violation("token replay: verdict and missing tokens disagree", model=case, received=done, got=str(got))
                if exact and miss != st[j][1]:
                    raise Violation("token replay: missing tokens", model=case, received=done, got=str(got), want=st[j][1])
                if fit:
                    S = ref.closure(N, {N.init()})
                    for x in known[k]:
                        S = ref.after(N, S, x)
                    if not S:
                        raise Violation("token replay: a case outside the behaviour of the net is reported as fitting", model=case, received=done, got=str(got))
                ctx.outcome("replay %s %s" % ("exact" if exact else "silent", fit))
        for j in (0, 1):
            k = [x for x in done[j] if x in labs]
            if not k:
                continue
            ctx.step()
            try:
                r, err = quiet(lambda: algo.terminate("c%d" % j))
            except Exception as e:
                ctx.note("token replay: the end of a case raises %s" % type(e).__name__, model=case, trace=k, error=str(e)[:200])
                continue
            acc = ref.accepts(N, k)
            if r["is_fit"] and not acc:
                raise Violation("token replay: a trace outside the language is reported as fitting at its end", model=case, trace=k, got=str(r))
            if r["is_fit"] != (r["missing"] == 0 and r["remaining"] == 0):
                raise Violation("token replay: verdict and tokens at the end of a case disagree", model=case, trace=k, got=str(r))
            if exact:
                mk = st[j][0]
                miss = st[j][1] + sum(max(0, v - mk.get(x, 0)) for x, v in fmd.items())
                rem = sum(max(0, v - fmd.get(x, 0)) for x, v in mk.items())
                if (r["missing"], r["remaining"]) != (miss, rem):
                    raise Violation("token replay: missing and remaining tokens at the end of a case", model=case, trace=k, got=str(r), want=[miss, rem])
                if bool(r["is_fit"]) != acc:
                    raise Violation("token replay: verdict at the end of a case", model=case, trace=k, got=str(r), want=acc)
            ctx.outcome("end %s %s %s" % ("exact" if exact else "silent", "in" if acc else "out", r["is_fit"]))
        ctx.trace()


# ------------------------------------------------------------------ temporal profile
def tp_gen(tier):
    for n in (2, 3):
        for starts in itertools.product((0, 1, 3), repeat=n):
            for durs in itertools.product((0, 2), repeat=n):
                for acts in (["a", "b", "a"], ["a", "a", "b"]):
                    yield [list(starts), list(durs), acts[:n]]


def tp_run(case, ctx):
    S, D, A = case
    for mean, std, zeta in ((1.0, 0.5, 1), (0.0, 0.0, 6), (2.0, 1.0, 2)):
        prof = {p: (mean * 3600, std * 3600) for p in (("a", "b"), ("b", "a"), ("a", "a"))}
        for order in (list(range(len(S))), list(range(len(S)))[::-1]):
            algo = stemp.apply(prof, parameters={"zeta": zeta, stemp.classic.Parameters.START_TIMESTAMP_KEY: ST, "dict_variant": DICTS[zeta % 2]})
            want, got_ev = {}, []
            for k, i in enumerate(order):
                for c in (0, 1):
                    if c == 1 and k % 2:
                        continue
                    s, e = T0 + dtm.timedelta(hours=S[i]), T0 + dtm.timedelta(hours=S[i] + D[i])
                    send(ctx, algo, Event({CID: "c%d" % c, ACT: A[i], ST: s, TS: e}), "temporal profile", case=case)
                    for (c2, a2, s2, e2) in got_ev:
                        if c2 == c and s >= e2 and (a2, A[i]) in prof:
                            d = (s - e2).total_seconds()
                            mu, sg = prof[a2, A[i]]
                            if d < mu - zeta * sg or d > mu + zeta * sg:
                                want.setdefault("c%d" % c, []).append(["c%d" % c, a2, A[i], d, abs(d - mu) / sg if sg else sys.maxsize])
                    got_ev.append((c, A[i], s, e))
                if k == 0:
                    send(ctx, algo, Event({CID: "c0", ACT: "a", TS: T0}), "temporal profile", case=case)
                    send(ctx, algo, Event({CID: "c0", ST: T0, TS: T0}), "temporal profile", case=case)
                g = fetch(ctx, algo, "temporal profile")
                g2 = {c: [list(x) for x in v] for c, v in (g or {}).items() if v}
                if g2 != want:
                    raise Violation("temporal profile: deviations differ from those of the events received", case=case, profile=[mean, std, zeta], order=order, got=g2, want=want)
            if order == sorted(order) and S == sorted(S):
                log = EventLog([Trace([Event({ACT: A[i], ST: T0 + dtm.timedelta(hours=S[i]), TS: T0 + dtm.timedelta(hours=S[i] + D[i])}) for i in order], attributes={"concept:name": "c0"})])
                from pm4py.algo.conformance.temporal_profile import algorithm as batch
                b = batch.apply(log, prof, parameters={"zeta": zeta, stemp.classic.Parameters.START_TIMESTAMP_KEY.value: ST})
                if sorted([x[0], x[1], x[2], float(x[3])] for x in b[0]) != sorted([x[1], x[2], x[3], float(x[4])] for x in g2.get("c0", [])):
                    raise Violation("temporal profile: the batch check of the complete case differs", case=case, profile=[mean, std, zeta], batch=str(b), streaming=g2)
            ctx.trace()
    ctx.outcome("temporal profile")


# ------------------------------------------------------------------ sources
def src_gen(tier):
    for n in (1, 2, 3):
        for L in itertools.product(["", "a", "ab", "aba"], repeat=n):
            for k in range(2):
                yield [list(L), k]


def src_run(case, ctx):
    from pm4py.streaming.importer.xes import importer as xes
    from pm4py.streaming.importer.csv import importer as csvi
    from pm4py.streaming.conversion import from_pandas
    L, k = case
    log = EventLog()
    for c, w in enumerate(L):
        t = Trace(attributes={"concept:name": "c%d" % c, "kind": "k%d" % (c % 2)} if k else {"concept:name": "c%d" % c})
        for j, a in enumerate(w):
            e = Event({ACT: a, TS: T0 + dtm.timedelta(hours=j + c), "cost": j, "f": 0.5 * j, "flag": bool(j % 2)})
            if k and j == 1:
                e["note"] = "x<&>\"'é"
            t.append(e)
        log.append(t)
    evs = [{**dict(e), **{"case:" + x: y for x, y in t.attributes.items()}} for t in log for e in t]
    path = os.path.join(os.getcwd(), "s.xes")
    pm4py.write_xes(log, path)
    norm = lambda e: {x: (y.astimezone(UTC) if isinstance(y, dtm.datetime) else y) for x, y in dict(e).items()}

    def expect(what, got, want):
        ctx.step()
        if got != want:
            raise Violation(what, case=case, got=str(got)[:600], want=str(want)[:600])
    r = xes.apply(path, variant=xes.Variants.XES_EVENT_STREAM)
    for rnd in (0, 1):
        expect("XES event stream", [norm(e) for e in r], evs)
        r.reset()
    sink = []
    r.to_event_stream(sink)
    expect("XES event stream into a stream", [norm(e) for e in sink], evs)
    for acc in ("a", "b"):
        r = xes.apply(path, variant=xes.Variants.XES_EVENT_STREAM, parameters={"acceptance_condition": lambda e: e[ACT] == acc})
        expect("XES event stream with a condition", [norm(e) for e in r], [e for e in evs if e[ACT] == acc])
    tr = lambda ts: [[dict(t.attributes), [norm(e) for e in t]] for t in ts]
    r = xes.apply(path, variant=xes.Variants.XES_TRACE_STREAM)
    for rnd in (0, 1):
        expect("XES trace stream", tr(list(r)), tr(log))
        r.reset()
    sink = []
    r.to_trace_stream(sink)
    expect("XES trace stream into a stream", tr(sink), tr(log))
    r = xes.apply(path, variant=xes.Variants.XES_TRACE_STREAM, parameters={"acceptance_condition": lambda t: len(t) > 1})
    expect("XES trace stream with a condition", tr(list(r)), [x for x in tr(log) if len(x[1]) > 1])
    if evs:
        df = pd.DataFrame(evs)
        p2 = os.path.join(os.getcwd(), "s.csv")
        df.to_csv(p2, index=False)
        want = [{c: ("" if c not in e else str(e[c])) for c in df.columns} for e in evs]
        r = csvi.apply(p2)
        for rnd in (0, 1):
            expect("CSV event stream", [dict(e) for e in r], want)
            r.reset()
        sink = []
        r.to_event_stream(sink)
        expect("CSV event stream into a stream", [dict(e) for e in sink], want)
        r = csvi.apply(p2, parameters={"acceptance_condition": lambda e: e["q"] == "b", "transformation_function": lambda e: {"q": e[ACT], "c": e[CID]}})
        expect("CSV event stream with a condition and a transformation", list(r), [{"q": e[ACT], "c": e[CID]} for e in evs if e[ACT] == "b"])
        want = sorted([[t.attributes["concept:name"], [(e[ACT], e[TS]) for e in t]] for t in log if len(t)])
        for form in (0, 1):
            d2 = df.iloc[::-1] if form == 0 else pm4py.format_dataframe(df, case_id=CID, activity_key=ACT, timestamp_key=TS)
            if form == 0:
                order = [x for x in want]
            r = from_pandas.apply(d2)
            simp = lambda ts: [[t.attributes["concept:name"], [(e[ACT], pd.Timestamp(e[TS]).tz_localize("UTC") if pd.Timestamp(e[TS]).tzinfo is None else pd.Timestamp(e[TS])) for e in t]] for t in ts]
            for rnd in (0, 1):
                expect("dataframe as a trace stream", simp(list(r)), want)
                r.reset()
            sink = []
            r.to_trace_stream(sink)
            expect("dataframe into a trace stream", simp(sink), want)
        es = pm4py.convert_to_event_stream(df)
        live = LiveToStaticStream()
        for e in es:
            live.receive(e)
        expect("live to static stream", [dict(e) for e in live.get()], [dict(e) for e in es])
    ctx.trace()
    ctx.outcome("sources")


def dist_gen(tier):
    subs = [list(s) for n in (0, 1, 2) for s in itertools.combinations(range(2), n)]
    for n in (1, 2, 3):
        for X in itertools.product(subs, repeat=n):
            for Y in itertools.product([[], [2], [2, 3]], repeat=n):
                yield [list(X), list(Y)]


def dist_run(case, ctx):
    from pm4py.streaming.conversion import ocel_flatts_distributor as ofd
    X, Y = case
    d = (getattr(ofd, "apply", None) or ofd.OcelFlattsDistributor)()
    S = {"X": [[], []], "Y": [[]]}
    for t, ls in S.items():
        for l in ls:
            d.register(t, l)
    want = {"X": [], "Y": []}
    for i, (x, y) in enumerate(zip(X, Y)):
        ctx.step()
        e = {"ocel:eid": "e%d" % i, "ocel:activity": "ab"[i % 2], "ocel:timestamp": T0 + dtm.timedelta(hours=i), "cost": i, "ocel:type:X": ["o%d" % j for j in x], "ocel:type:Y": ["o%d" % j for j in y], "ocel:type:Z": ["o9"]}
        before = str(e)
        d.append(e)
        if str(e) != before:
            raise Violation("distributing an event changes it", event=before, after=str(e))
        for t, os_ in (("X", x), ("Y", y)):
            want[t] += [{"ocel:eid": "e%d" % i, ACT: "ab"[i % 2], TS: T0 + dtm.timedelta(hours=i), "cost": i, CID: "o%d" % j} for j in os_]
        for t in S:
            for l in S[t]:
                if [dict(q) for q in l] != want[t]:
                    raise Violation("object-centric events reach the streams of their object types", case=case, type=t, got=str(l), want=str(want[t]))
    ctx.trace()
    ctx.outcome("distributor")


def families(tier):
    return [("dfg", loggen, dfg_run), ("footprints", fp_gen, fp_run), ("replay", tbr_gen, tbr_run), ("temporal", tp_gen, tp_run), ("sources", src_gen, src_run), ("distributor", dist_gen, dist_run)]
