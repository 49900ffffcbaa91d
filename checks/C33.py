"""C33 Monte Carlo simulation: every schedule of the case threads (within a number of preemptions) and every random choice."""
from mc import sched, choices
sched.install()
choices.install()
import contextlib, datetime as dtm, io, itertools, logging, os, statistics, warnings
from mc.harness import Violation
from mc import ref, gen
import pm4py
from pm4py.algo.simulation.montecarlo import algorithm as mc
from pm4py.algo.simulation.montecarlo.variants import petri_semaph_fifo as fifo
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.objects.conversion.process_tree import converter as tree_conv
from pm4py.objects.random_variables.random_variable import RandomVariable

ID, TITLE = "C33", "Monte Carlo simulation is schedule-independent in its guarantees"
BOUNDS = {"quick": "all sound safe nets of <=3 places x 3 transitions (presets disjoint from postsets) and of process trees <=3 leaves, 2 simulated cases, 1-2 resources per place, overlapping and separate arrivals: all random choices with all schedules of <=1 deviation at synchronisation operations; chains, choices and parallel blocks with 3 cases, <=2 deviations, and <=1 preemption at every source line",
          "thorough": "one deviation more"}
ASSUMPTIONS = ["transition durations are constants given with the stochastic map; real time passes much slower than the time-out for a case, except that time-outs expire when no case can go on (cases that block each other are left out of the result)",
               "with a resource for every case at every place, or on nets without parallelism and cycles, all cases complete"]
BUDGET = {"quick": 300, "thorough": 850}
CASE_LIMIT = 400
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
HERE = fifo.__file__
ACT, TS = "concept:name", "time:timestamp"
START = 1000000


def net_of(c):
    if "tree" in c:
        net, im, fm = tree_conv.apply(ref.tree_to_pm4py(c["tree"]))
    else:
        net, im, fm, _, _ = ref.net_to_pm4py(c["net"])
    return net, im, fm


def rv(v):
    r = RandomVariable()
    r.read_from_string("DETERMINISTIC", str(v))
    return r


def facts(N):
    """(cyclic, parallel, distinct visible labels)"""
    order, arcs = N.graph(500)
    edges = {}
    for m, _, k in arcs:
        edges.setdefault(m, set()).add(k)
    par = any(sum(w for _, w in m) > 1 for m in order)
    # a cycle in the graph of markings
    state = {}

    def cyc(m):
        state[m] = 1
        for k in edges.get(m, ()):
            if state.get(k) == 1 or k not in state and cyc(k):
                return True
        state[m] = 2
        return False
    labs = [t["label"] for t in N.trans]
    return cyc(N.im), par, None not in labs and len(set(labs)) == len(labs)


def r_sim(c, ctx):
    net, im, fm = net_of(c)
    N = ref.net_from_pm4py(net, im, fm)
    cyclic, par, plain = facts(N)
    dur = {t: c["dur"][i % len(c["dur"])] for i, t in enumerate(N.trans_objs)}
    smap = {t: rv(d) for t, d in dur.items()}
    cap, n, arr = c["cap"], c["cases"], c["arrival"]
    K = fifo.Parameters
    A = N
    by_label = {t["label"]: t for t in N.trans}
    must = cap >= n or not par and not cyclic

    def body():
        log = EventLog([Trace([Event({ACT: "a", TS: dtm.datetime(2020, 1, 1, tzinfo=dtm.timezone.utc)})])])
        out, res = mc.apply(log, net, im, fm, parameters={K.PARAM_NUM_SIMULATIONS: n, K.PARAM_CASE_ARRIVAL_RATIO: arr, K.PARAM_PROVIDED_SMAP: smap, K.PARAM_ENABLE_DIAGNOSTICS: c.get("diag", False), K.PARAM_DIAGN_INTERVAL: 1.0,
                            K.PARAM_DEFAULT_NUM_RESOURCES_PER_PLACE: cap, K.PARAM_MAX_THREAD_EXECUTION_TIME: 60.0})
        sems = {p.name: p.semaphore._value for p in net.places}
        return [[(e[ACT], e[TS].timestamp()) for e in t] for t in out], res, sems

    accepted = {}

    def ok(word):
        if word not in accepted:
            accepted[word] = ref.accepts(A, list(word))
        return accepted[word]

    def judge(v):
        log, res, sems = v
        if set(sems.values()) != {cap}:
            return "resources are not given back exactly at the end", sems
        if len(log) > n:
            return "more cases than simulated", None
        if must and len(log) != n:
            return "a case is not completed although it can", len(log)
        intervals = {}
        for t in log:
            if not ok(tuple(a for a, _ in t)):
                return "a simulated case is not a complete run of the net", t
            ts = [x for _, x in t]
            if any(x > y for x, y in zip(ts, ts[1:])):
                return "timestamps of a case decrease", t
            if ts and ts[0] < START:
                return "a case starts before the simulation", t
        ex = sorted(t[-1][1] - t[0][1] if t else 0 for t in log)
        if sorted(res["cases_ex_time"]) != ex:
            return "the case durations are not those of the simulated log", (res["cases_ex_time"], ex)
        if ex and res["median_cases_ex_time"] != statistics.median(ex):
            return "the median case duration is not that of the simulated log", (res["median_cases_ex_time"], ex)
        every = [x for t in log for _, x in t]
        if every and res["total_cases_time"] != max(every) - min(every):
            return "the total time is not that of the simulated log", (res["total_cases_time"], log)
        if res["input_case_arrival_ratio"] != arr:
            return "the case arrival ratio is not the given one", None
        trees = {p.name: sorted((i.begin, i.end) for i in t) for p, t in res["places_interval_trees"].items()}
        for p, iv in trees.items():
            pts = sorted({x for i in iv for x in i})
            for x in pts:
                if sum(1 for b, e in iv if b <= x < e) > cap:
                    return "more cases are at a place at once than it has resources", (p, iv)
        if plain and len(log) == n:
            want = {p.name: set() for p in net.places}
            src = next(iter(im)).name
            for t in log:
                since = {}
                for a, x in t:
                    tr = by_label[a]
                    for p in tr["pre"]:
                        p = N.place_objs[p].name
                        if p in since:
                            want[p].add((since.pop(p), x))
                        else:
                            want[p].add((None, x))
                    for p in tr["post"]:
                        since[N.place_objs[p].name] = x
            for p in want:
                got = set(trees[p])
                if p == src:
                    ends = {e for b, e in want[p]}
                    if not {e for b, e in got} <= ends or {e for b, e in want[p] if b is None and e > START + (n - 1) * arr and all(d > 0 for d in dur.values())} - {e for b, e in got}:
                        return "the occupation of the source is not that of the simulated log", (p, sorted(got), str(want[p]))
                elif got != {(b, e) for b, e in want[p] if e > b}:
                    return "the occupation of a place is not that of the simulated log", (p, sorted(got), str(want[p]))
        if sum(dur.values()) and plain and cap >= n and not par:
            for t in log:
                for (a, x), (b, y) in zip(t, t[1:]):
                    if y - x != dur[N.trans_objs[N.trans.index(by_label[b])]]:
                        return "an activity does not take its duration although resources are free", t
        return None

    err = io.StringIO()
    k = 0
    with contextlib.redirect_stderr(err):
        for r in sched.explore(body, c["bound"], c["free"], files=(HERE,) if c["gran"] == "line" else (), yields=not c.get("diag"), maxpicks=c.get("picks", 6)):
            k += 1
            ctx.step(r.steps)
            plan = [x for _, x, _ in r.schedule]
            if r.stuck == "cut":
                ctx.outcome("runs cut at the bound on random choices")
                continue
            if r.stuck:
                ctx.note("the simulation gets stuck", why=r.stuck, schedule=plan)
                break
            if r.errors:
                ctx.note("a thread dies of an error", error=["%s: %r" % x for x in r.errors], schedule=plan)
                break
            m = judge(r.value)
            if m:
                ctx.note(m[0], what=str(m[1])[:400], log=str(r.value[0])[:400], schedule=plan)
                break
            ctx.state((str(c), str(plan)))
            ctx.outcome("all cases complete" if len(r.value[0]) == n else "cases block each other")
    ctx.trace()
    if os.environ.get("MC_DEBUG"):
        print(k, c, flush=True)


def small_nets():
    seen = set()
    for n in (2, 3):
        for k in (1, 2, 3):
            for d in gen.nets(n, k, ["a", None] if k < 3 else ["x"]):
                if any({p for p, _ in t[1]} & {p for p, _ in t[2]} for t in d["trans"]):
                    continue
                if len({str((t[1], t[2])) for t in d["trans"]}) < k:
                    continue
                if k == 3:
                    for t, l in zip(d["trans"], "abc"):
                        t[0] = l
                elif [t[0] for t in d["trans"]].count("a") == 2:
                    d["trans"][1][0] = "b"
                N = ref.net_ref(d)
                try:
                    if not ref.is_wf(N) or not ref.sound(N, 200):
                        continue
                    if any(w > 1 for m in N.graph(200)[0] for _, w in m):
                        continue
                except ref.Blowup:
                    continue
                yield d


def g_nets(tier):
    b = 2 if tier == "thorough" else 1
    for d in small_nets():
        for cap in (1, 2):
            for arr in (1, 100):
                yield {"net": d, "cap": cap, "cases": 2, "arrival": arr, "dur": [5, 7, 2], "gran": "sync", "bound": b, "free": 0, "picks": 4}


def g_trees(tier):
    b = 2 if tier == "thorough" else 1
    for t in gen.trees("abc", 3, ops=("->", "X", "+", "*")):
        if isinstance(t, list) and ref.tree_labels(t):
            big = len(ref.tree_labels(t)) + str(t).count("None") > 2 or str(t).count("*") > 1
            for cap, arr, dur in ((1, 1, [5, 3]), (2, 1, [5, 3]), (1, 100, [5, 3]), (1, 1, [0, 4])):
                if tier == "quick" and big and (arr == 100 or cap == 2):
                    continue
                yield {"tree": t, "cap": cap, "cases": 2, "arrival": arr, "dur": dur, "gran": "sync", "bound": b, "free": 0, "picks": 4 if not big or tier == "thorough" else 3}


SEQ = ["->", "a", "b"]
DEEP = [SEQ, ["->", "a", "b", "c"], ["X", "a", ["->", "b", "c"]], ["->", "a", ["X", "b", None]], ["+", "a", "b"], ["->", ["+", "a", "b"], "c"], ["*", "a", "b"], "a"]


def g_deep(tier):
    more = tier == "thorough"
    for t in DEEP:
        for n, cap in ((2, 1), (3, 1), (3, 2)):
            for arr in (1, 100):
                if n == 3 and tier == "quick" and (cap == 2 or arr == 100) and t[0] in ("+", "*", "->") and t is not SEQ:
                    continue
                yield {"tree": t, "cap": cap, "cases": n, "arrival": arr, "dur": [5, 3], "gran": "sync", "bound": 2, "free": 1 if more else 0, "picks": 3}
        for cap in (1, 2):
            yield {"tree": t, "cap": cap, "cases": 2, "arrival": 1, "dur": [5, 3], "gran": "line", "bound": 2 if more and t is SEQ else 1, "free": 0, "picks": 3}
        yield {"tree": t, "cap": 1, "cases": 2, "arrival": 1, "dur": [5, 3], "gran": "sync", "bound": 1, "free": 0, "picks": 3, "diag": True}


def families(tier):
    return [("deep", g_deep, r_sim), ("trees", g_trees, r_sim), ("nets", g_nets, r_sim)]
