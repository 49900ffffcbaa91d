"""C32 live streams: every schedule of producers, observers and the delivery machinery, within a number of preemptions."""
from mc import sched
sched.install()
import contextlib, io, itertools, logging, os, threading, warnings, datetime as dtm
from mc.harness import Violation
from mc import gen
import pm4py
from pm4py.objects.log.obj import Event, Trace
from pm4py.streaming.stream import live_event_stream as les, live_trace_stream as lts
from pm4py.streaming.algo.interface import StreamingAlgorithm
from pm4py.streaming.algo.discovery.dfg import algorithm as sdfg
from pm4py.streaming.algo.conformance.footprints import algorithm as sfp
from pm4py.streaming.algo.conformance.tbr import algorithm as stbr
from pm4py.streaming.algo.conformance.temporal import algorithm as stemp
from pm4py.streaming.conversion import ocel_flatts_distributor
from pm4py.streaming.util.dictio import generator as dictio
from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
from checks.C31 import merges

ID, TITLE = "C32", "Live streams deliver everything once and in order, whatever the schedule"
BOUNDS = {"quick": "1-2 producers, <=3 events, 1-2 observers, 1-2 delivery workers: all schedules with <=2 deviations from first-come order (preemptions or other choices of who goes on) at synchronisation operations, <=1 preemption and <=2 deviations at every source line; observers that come, go, raise or append to another stream; four streaming algorithms attached to a live stream and read meanwhile; two threads of <=2 operations on the thread-safe dictionary, <=1 preemption at every line",
          "thorough": "<=2 preemptions and <=4 deviations at synchronisation operations, <=2 preemptions at source lines, every bytecode of the dictionary, more events"}
ASSUMPTIONS = ["a stream is started before it is stopped, by one thread, and used once; threads switch at synchronisation operations, source lines or bytecodes of pm4py/streaming; conditions, semaphores and executors follow the documented behaviour of the Python library (waiters woken in order)"]
BUDGET = {"quick": 300, "thorough": 850}
CASE_LIMIT = 400
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
CID, ACT, TS = "case:concept:name", "concept:name", "time:timestamp"
T0 = dtm.datetime(2020, 1, 1, tzinfo=dtm.timezone.utc)
HERE = os.path.join(os.path.dirname(pm4py.__file__), "streaming") + os.sep
STREAMS = {"event": les.LiveEventStream, "trace": lts.LiveTraceStream}


class Rec(StreamingAlgorithm):
    def __init__(self, bad=()):
        StreamingAlgorithm.__init__(self)
        self.got, self.bad = [], bad

    def __hash__(self):
        return 7                          # sets of observers are traversed in order of registration

    def _process(self, e):
        self.got.append(e)
        if e in self.bad:
            raise ValueError("observer fails")

    def _current_result(self):
        return list(self.got)


def sweep(ctx, body, judge, bound, what, case, free=2, **kw):
    """judge(value) -> message or None, on every schedule"""
    n = 0
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        for r in sched.explore(body, bound, free, **kw):
            n += 1
            ctx.step(r.steps)
            plan = [c for _, c, _ in r.schedule]
            if r.stuck:
                ctx.note("%s: the threads get stuck" % what, key="%s stuck" % what, why=r.stuck, schedule=plan, case=case)
                break
            if r.errors:
                ctx.note("%s: a thread dies of an error" % what, key="%s dies" % what, error=["%s: %r" % x for x in r.errors], schedule=plan, case=case)
                break
            m = judge(r.value)
            if m:
                ctx.note("%s: %s" % (what, m), key="%s %s" % (what, m), result=str(r.value)[:500], schedule=plan, case=case)
                break
            ctx.state((what, str(case), str(plan)))
    ctx.trace()
    ctx.outcome("programs explored")
    if os.environ.get("MC_DEBUG"):
        print(n, what, case, flush=True)


def points(ctx, gran):
    """(bound, free, granularity arguments)"""
    more = ctx.tier == "thorough"
    if gran == "sync":
        return dict(bound=2, free=2 if more else 0)
    if gran == "line":
        return dict(bound=2 if more else 1, free=1, files=(HERE,))
    return dict(bound=2 if more else 1, free=0, files=(HERE,), opcodes=True)


# -- delivery -------------------------------------------------------------------------------------------------------
def g_deliver(tier):
    for gran in ("sync", "line"):
        for cls in STREAMS:
            for pool in (1, 2, None):
                for obs in (1, 2):
                    for before, after in ((0, 1), (0, 2), (1, 1), (2, 0), (0, 3), (0, 0)):
                        if (cls, pool) in (("trace", None), ("event", None)) and before + after > 2:
                            continue
                        if obs == 2 and (before + after > 2 or pool is None):
                            continue
                        yield {"stream": cls, "workers": pool, "observers": obs, "before": before, "producers": [after], "gran": gran}
            for prods in ([1, 1], [2, 1]):
                yield {"stream": cls, "workers": 1 if gran == "line" else 2, "observers": 1, "before": 0, "producers": prods, "gran": gran}


def r_deliver(c, ctx):
    def body():
        st = STREAMS[c["stream"]]({"thread_pool_size": c["workers"]} if c["workers"] else None)
        obs = [Rec() for _ in range(c["observers"])]
        for o in obs:
            st.register(o)
        for i in range(c["before"]):
            st.append(("x", i))
        st.start()

        def produce(k, n):
            for i in range(n):
                st.append((k, i))
        if len(c["producers"]) == 1:
            produce(0, c["producers"][0])
        else:
            ts = [threading.Thread(target=produce, args=(k, n)) for k, n in enumerate(c["producers"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        st.stop()
        seen = [list(o.got) for o in obs]            # at the time stop() returns
        st.append(("late", 0))
        return seen, obs, st.state.name

    want = sorted(map(str, [("x", i) for i in range(c["before"])] + [(k, i) for k, n in enumerate(c["producers"]) for i in range(n)]))

    def judge(v):
        seen, obs, state = v
        if state != "FINISHED":
            return "a stopped stream is not finished"
        for s, o in zip(seen, obs):
            if sorted(map(str, s)) != want:
                return "an observer has not received every event exactly once when stop() returns"
            if o.got != s:
                return "events are delivered after stop()"
            for k in ["x"] + list(range(len(c["producers"]))):
                mine = [i for p, i in s if p == k]
                if mine != sorted(mine):
                    return "an observer receives the events of a producer out of order"
            if [p for p, _ in s][:c["before"]] != ["x"] * c["before"]:
                return "an observer receives the events out of order"
        if len({str(s) for s in seen}) > 1:
            return "two observers receive different orders"
        return None
    sweep(ctx, body, judge, what="%s stream" % c["stream"], case=c, **points(ctx, c["gran"]))


# -- observers that come, go, fail ----------------------------------------------------------------------------------
def drive(coro):
    try:
        coro.send(None)
    except StopIteration:
        return
    raise RuntimeError("deregister() waits")


def g_come(tier):
    for gran in ("sync", "line"):
        for cls in STREAMS:
            for kind in ("register", "deregister", "both", "fail", "twice", "other"):
                for pool in (1, 2):
                    yield {"stream": cls, "kind": kind, "workers": pool, "events": 2, "gran": gran}


def r_come(c, ctx):
    n, kind = c["events"], c["kind"]

    def body():
        st = STREAMS[c["stream"]]({"thread_pool_size": c["workers"]})
        a = Rec(bad=(0,) if kind == "fail" else ())
        b = Rec()
        st.register(a)
        if kind == "twice":
            st.register(a)
        if kind in ("deregister", "both", "fail"):
            st.register(b)
        st.start()

        def other():
            if kind == "register":
                st.register(b)
            elif kind == "deregister":
                drive(st.deregister(b))
            elif kind == "both":
                drive(st.deregister(b))
                st.register(b)
            elif kind == "other":
                drive(st.deregister(a))
        marks = []

        def produce():
            for i in range(n):
                st.append(i)
                marks.append(i)
        if kind in ("fail", "twice"):
            produce()
        else:
            t = threading.Thread(target=other)
            t.start()
            produce()
            t.join()
        st.append(n)                       # after the change of observers
        st.stop()
        return list(a.got), list(b.got)

    full = list(range(n + 1))

    def judge(v):
        a, b = v
        if kind == "other":
            return None if a == full[:len(a)] and len(a) <= n else "a deregistered observer receives later events, or not a beginning of the stream"
        if a != full:
            return "an observer does not receive every event once and in order while others come, go or fail"
        if kind == "register" and b != full[len(full) - len(b):] or kind in ("register", "both", "fail") and n not in b:
            return "an observer misses events after it was registered"
        if kind == "deregister" and (b != full[:len(b)] or n in b):
            return "a deregistered observer receives later events, or not a beginning of the stream"
        if b != sorted(set(b)):
            return "an observer receives events twice or out of order"
        if kind == "fail" and b != full:
            return "an observer suffers from the failure of another"
        return None
    sweep(ctx, body, judge, what="observers", case=c, **points(ctx, c["gran"]))


# -- stop while producers go on -------------------------------------------------------------------------------------
def g_stop(tier):
    for gran in ("sync", "line"):
        for cls in STREAMS:
            for pool in (1, 2):
                for n in (1, 2):
                    yield {"stream": cls, "workers": pool, "events": n, "gran": gran}


def r_stop(c, ctx):
    def body():
        st = STREAMS[c["stream"]]({"thread_pool_size": c["workers"]})
        o = Rec()
        st.register(o)
        done = []
        st.append(-1)
        st.start()

        def produce():
            for i in range(c["events"]):
                st.append(i)
                done.append(i)
        t = threading.Thread(target=produce)
        t.start()
        before = len(done)
        st.stop()
        seen = list(o.got)
        t.join()
        return before, seen, list(o.got)

    def judge(v):
        before, seen, end = v
        if seen != end:
            return "events are delivered after stop()"
        if seen != list(range(-1, len(seen) - 1)):
            return "the delivered events are not a beginning of the stream"
        return None if len(seen) >= before + 1 else "events appended before stop() are not delivered"
    p = points(ctx, c["gran"])
    p["free"] = max(1, p["free"])
    sweep(ctx, body, judge, what="stop", case=c, **p)


# -- chained streams ------------------------------------------------------------------------------------------------
class Fwd(StreamingAlgorithm):
    def __init__(self, to):
        StreamingAlgorithm.__init__(self)
        self.to = to

    def _process(self, e):
        self.to.append(e)

    def _current_result(self):
        return None


def g_chain(tier):
    for gran in ("sync", "line"):
        for kind in ("forward", "distribute", "static", "two-threads"):
            if gran == "line" and kind != "forward" and tier == "quick":
                continue
            yield {"kind": kind, "gran": gran}


def r_chain(c, ctx):
    kind = c["kind"]
    events = [{"ocel:activity": "a", "ocel:timestamp": T0, "ocel:eid": "e1", "ocel:type:o": ["o1", "o2"], "ocel:type:i": ["i1"]},
              {"ocel:activity": "b", "ocel:timestamp": T0, "ocel:eid": "e2", "ocel:type:o": ["o1"]}]

    def body():
        if kind == "forward":
            s1, s2 = les.LiveEventStream({"thread_pool_size": 1}), les.LiveEventStream({"thread_pool_size": 1})
            o = Rec()
            s1.register(Fwd(s2)), s2.register(o)
            s1.start(), s2.start()
            for i in range(2):
                s1.append(i)
            s1.stop(), s2.stop()
            return list(o.got)
        if kind == "static":
            s1 = les.LiveEventStream({"thread_pool_size": 2})
            o = LiveToStaticStream()
            s1.register(o)
            s1.start()
            for i in range(3):
                s1.append(i)
            s1.stop()
            return list(o.get())
        d = ocel_flatts_distributor.OcelFlattsDistributor()
        so, si = les.LiveEventStream({"thread_pool_size": 1}), les.LiveEventStream({"thread_pool_size": 1})
        a, b = Rec(), Rec()
        so.register(a), si.register(b)
        d.register("o", so), d.register("i", si)
        so.start(), si.start()
        if kind == "distribute":
            for e in events:
                d.append(e)
        else:
            ts = [threading.Thread(target=d.append, args=(e,)) for e in events]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        so.stop(), si.stop()
        return [[(e[CID], e[ACT], e["ocel:eid"]) for e in x.got] for x in (a, b)]

    def judge(v):
        if kind in ("forward", "static"):
            return None if v == list(range(2 if kind == "forward" else 3)) else "events are lost, doubled or out of order"
        o, i = v
        if i != [("i1", "a", "e1")]:
            return "the stream of an object type does not carry one event per object"
        if kind == "two-threads":
            o = sorted(o, key=lambda x: x[2])
        if sorted(o[:2]) != [("o1", "a", "e1"), ("o2", "a", "e1")] or o[2:] != [("o1", "b", "e2")]:
            return "the stream of an object type does not carry one event per object in order"
        return None
    sweep(ctx, body, judge, what="chain %s" % kind, case=c, **points(ctx, c["gran"]))


# -- algorithms on a live stream ------------------------------------------------------------------------------------
def ev(case, act, t):
    return Event({CID: case, ACT: act, TS: T0 + dtm.timedelta(hours=t)})


def make(kind):
    if kind == "dfg":
        return sdfg.apply()
    if kind == "footprints":
        fps = {"sequence": {("a", "b")}, "parallel": set(), "activities": {"a", "b"}, "start_activities": {"a"}, "end_activities": {"b"}, "min_trace_length": 2, "activities_always_happening": {"a", "b"}, "dfg": {("a", "b"): 1}}
        return sfp.apply(fps)
    if kind == "tbr":
        from pm4py.objects.petri_net.obj import PetriNet, Marking
        from pm4py.objects.petri_net.utils import petri_utils as pu
        net = PetriNet("n")
        ps = [PetriNet.Place("p%d" % i) for i in range(3)]
        ts = [PetriNet.Transition("t%d" % i, l) for i, l in enumerate("ab")]
        for p in ps:
            net.places.add(p)
        for i, t in enumerate(ts):
            net.transitions.add(t)
            pu.add_arc_from_to(ps[i], t, net), pu.add_arc_from_to(t, ps[i + 1], net)
        return stbr.apply(net, Marking({ps[0]: 1}), Marking({ps[2]: 1}))
    return stemp.apply({("a", "b"): (3600.0, 0.0)})


def norm(kind, v):
    if v is None:
        return None
    if kind == "dfg":
        return str([sorted(x.items(), key=str) for x in v])
    if kind == "temporal":
        return str([{str(k): str(v[k]) for k in sorted(v, key=str)}] if isinstance(v, dict) else v)
    return v.to_csv()


def g_algo(tier):
    for kind in ("dfg", "footprints", "tbr", "temporal"):
        for word in ("ab", "ba", "aab"[:2 if tier == "quick" else 3]):
            for gran in ("sync", "line"):
                for reader in (False, True):
                    yield {"algo": kind, "word": word, "gran": gran, "reader": reader}
        for pair in (("ab", "a"), ("a", "b")):
            yield {"algo": kind, "pair": pair, "gran": "line" if tier == "quick" else "line", "reader": False}


def r_algo(c, ctx):
    kind = c["algo"]
    if "pair" in c:                       # two threads call the algorithm directly, each with its own case
        seqs = [[ev("c%d" % i, a, t) for t, a in enumerate(w)] for i, w in enumerate(c["pair"])]
        allowed = set()
        for m in merges(tuple(len(s) for s in seqs)):
            o, its = make(kind), [iter(s) for s in seqs]
            for k in m:
                o.receive(next(its[k]))
            allowed.add(norm(kind, o.get()))

        def body():
            o = make(kind)

            def work(s):
                for e in s:
                    o.receive(e)
            ts = [threading.Thread(target=work, args=(s,)) for s in seqs]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            return norm(kind, o.get())

        def judge(v):
            return None if v in allowed else "the result of two threads is that of no order of the events"
        sweep(ctx, body, judge, what="%s called by two threads" % kind, case=c, **points(ctx, c["gran"]))
        return
    es = [ev("c", a, t) for t, a in enumerate(c["word"])]
    prefixes = []
    o = make(kind)
    prefixes.append(norm(kind, o.get()))
    for e in es:
        o.receive(e)
        prefixes.append(norm(kind, o.get()))

    def body():
        o = make(kind)
        st = les.LiveEventStream({"thread_pool_size": 2})
        st.register(o)
        st.start()
        seen = []
        if c["reader"]:
            def read():
                seen.append(norm(kind, o.get()))
                seen.append(norm(kind, o.get()))
            t = threading.Thread(target=read)
            t.start()
        for e in es:
            st.append(e)
        st.stop()
        if c["reader"]:
            t.join()
        return seen, norm(kind, o.get())

    def judge(v):
        seen, last = v
        if last != prefixes[-1]:
            return "the final result differs from that of the events in order"
        i = 0
        for s in seen:
            while i < len(prefixes) and prefixes[i] != s:
                i += 1
            if i == len(prefixes):
                return "a result read meanwhile is that of no beginning of the stream"
        return None
    sweep(ctx, body, judge, what="%s on a live stream" % kind, case=c, **points(ctx, c["gran"]))


# -- the dictionary -------------------------------------------------------------------------------------------------
OPS = ["set k 1", "set m 2", "set a 3", "get a", "in k", "iter", "keys", "values", "itervalues", "items", "len", "del a"]


def do(d, op):
    f, *r = op.split()
    if f == "set":
        d[r[0]] = int(r[1])
    elif f == "get":
        return d.get(r[0])
    elif f == "in":
        return r[0] in d
    elif f == "iter":
        return sorted(x for x in d)
    elif f == "del":
        d.pop(r[0], None)
    elif f == "len":
        return len(d)
    elif f == "items":
        return sorted(d.items())
    else:
        return sorted(getattr(d, f)())


def g_dict(tier):
    writers = [o for o in OPS if o[:3] in ("set", "del")]
    for a in OPS:
        for b in OPS:
            yield {"threads": [[a], [b]]}
    for a in writers:
        for a2 in writers:
            for b in OPS:
                yield {"threads": [[a, a2], [b]]}


def r_dict(c, ctx):
    def run_seq(order):
        d = dictio.apply(variant=dictio.Variants.CLASSIC)
        d["a"] = 0
        its, res = [iter(t) for t in c["threads"]], [[] for _ in c["threads"]]
        for k in order:
            op = next(its[k])
            if op == "itervalues":
                op = "values"
            res[k].append(do(d, op))
        return str((res, sorted(d.items())))
    allowed = {run_seq(m) for m in merges(tuple(len(t) for t in c["threads"]))}

    def body():
        d = dictio.apply(variant=dictio.Variants.THREAD_SAFE)
        d["a"] = 0
        res = [[] for _ in c["threads"]]

        def work(k):
            for op in c["threads"][k]:
                res[k].append(do(d, op))
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(c["threads"]))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return str((res, sorted(d.items())))

    def judge(v):
        return None if v in allowed else "the operations of two threads have the effect of no order of them"
    sweep(ctx, body, judge, what="thread-safe dictionary", case=c, bound=2 if ctx.tier == "thorough" else 1, free=1, files=(HERE, __file__), opcodes=False)
    if ctx.tier == "thorough":
        sweep(ctx, body, judge, what="thread-safe dictionary", case=c, **points(ctx, "opcode"))


def families(tier):
    return [("dict", g_dict, r_dict), ("come", g_come, r_come), ("stop", g_stop, r_stop), ("chain", g_chain, r_chain), ("algo", g_algo, r_algo), ("deliver", g_deliver, r_deliver)]
