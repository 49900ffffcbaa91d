"""C01 Petri net token game and reachability graph."""
import itertools, warnings
from mc import ref, gen
from mc.harness import Violation

import pm4py
from pm4py.objects.petri_net.obj import Marking, PetriNet
from pm4py.objects.petri_net import semantics as classic
from pm4py.objects.petri_net.inhibitor_reset import semantics as ir
from pm4py.objects.petri_net.utils import reachability_graph as rg

ID, TITLE = "C01", "Petri net token game and reachability graph are exact"
BOUNDS = {
    "quick": "nets: <=3 places; 1 transition with weights 1-2 x all markings <=2 tokens/place; 2 transitions weight 1; 3 transitions weight 1; "
             "inhibitor/reset: 2 places, <=2 transitions; marking algebra: all pairs over 3 places <=2 tokens; curated larger nets",
    "thorough": "as quick plus 2 transitions with weights 1-2 and 4 places/3 transitions (pre/post<=2)"}
LIMIT = 40   # reference state limit for reachability graphs; unbounded nets are excluded


def markings(n, k):
    return itertools.product(range(k + 1), repeat=n)


def g_single(tier):
    for d in gen.nets(3, 1, ["a"], weights=(1, 2), minpre=0, minpost=0):
        yield d
    for d in gen.nets(2, 2, ["a", None], weights=(1, 2), minpre=0, minpost=0):
        yield d


def check_step(ref_net, net, m_dict, places, ts, mods, ctx):
    """every transition at one marking, through every public entry point"""
    rm = ref.fz(m_dict)
    m = Marking({places[p]: k for p, k in m_dict.items() if k})
    before = dict(m)
    exp = {i for i, t in enumerate(ref_net.trans) if ref_net.enabled(rm, t)}
    ctx.state([repr(ref_net.trans), rm])
    for name, mod in mods:
        obj = mod.ClassicSemantics() if mod is classic else mod.InhibitorResetSemantics()
        for how, got in (("module", mod.enabled_transitions(net, m)), ("object", obj.enabled_transitions(net, m))):
            if {ts.index(t) for t in got} != exp:
                raise Violation("%s %s enabled transitions differ" % (name, how), marking=rm, got=str(got), expected=sorted(exp))
        for i, t in enumerate(ref_net.trans):
            ctx.step()
            for how, o in (("module", mod), ("object", obj)):
                if bool(o.is_enabled(ts[i], net, m)) != (i in exp):
                    raise Violation("%s %s is_enabled differs" % (name, how), marking=rm, transition=i)
                nm = o.execute(ts[i], net, m)
                if i in exp:
                    want = ref_net.fire(rm, t)
                    outs = [("execute", nm)]
                    outs.append(("weak_execute", o.weak_execute(ts[i], net, m) if how == "object" else mod.weak_execute(ts[i], m)))
                    if mod is classic and how == "object":
                        f = classic.PetriNetSemantics.fire(net, ts[i], m)
                        f = Marking({p: k for p, k in f.items() if k})
                        outs.append(("fire", f))
                    for nme, x in outs:
                        if x is None or tuple(sorted((places.index(p), k) for p, k in x.items())) != want:
                            raise Violation("%s %s %s yields a wrong marking" % (name, how, nme), marking=rm, transition=i,
                                            got=str(x), expected=want)
                        if not isinstance(x, Marking):
                            raise Violation("result of firing is not a marking", marking=rm)
                else:
                    if nm is not None:
                        raise Violation("%s %s execute fires a disabled transition" % (name, how), marking=rm, transition=i)
            if mod is classic and bool(classic.PetriNetSemantics.is_enabled(net, ts[i], m)) != (i in exp):
                raise Violation("PetriNetSemantics.is_enabled differs", marking=rm, transition=i)
        foreign = PetriNet.Transition("foreign", "x")
        if mod.is_enabled(foreign, net, m):
            raise Violation("a transition that is not part of the net is reported as enabled")
        if dict(m) != before:
            raise Violation("marking modified by semantics", marking=rm)
    if mods[0][1] is classic:
        if {ts.index(t) for t in pm4py.get_enabled_transitions(net, m)} != exp:
            raise Violation("get_enabled_transitions differs", marking=rm)


def r_single(d, ctx):
    net, im, fm, places, ts = ref.net_to_pm4py(d)
    R = ref.net_ref(d)
    for m in markings(d["n"], 2):
        check_step(R, net, {p: k for p, k in enumerate(m)}, places, ts, [("classic", classic), ("inhibitor-reset", ir)], ctx)
        ctx.trace()


def isomorphic(tss, order, edges, tname):
    """edge labels are deterministic per state (one edge per transition), so an isomorphism is fixed by the image of the
    initial marking; reachability from the initial marking makes it total."""
    succ = {}
    for t in tss.transitions:
        succ.setdefault(id(t.from_state), {})[t.name] = t.to_state
    want = {}
    for m, i, n in edges:
        want.setdefault(m, {})[tname(i)] = n
    for s0 in tss.states:
        mp, st, ok = {order[0]: s0}, [order[0]], True
        while st and ok:
            m = st.pop()
            a, b = want.get(m, {}), succ.get(id(mp[m]), {})
            if set(a) != set(b):
                ok = False
                break
            for l, n in a.items():
                if n in mp:
                    ok = ok and mp[n] is b[l]
                else:
                    mp[n] = b[l]
                    st.append(n)
        if ok and len(mp) == len(order) and len({id(x) for x in mp.values()}) == len(order):
            return True
    return False


def check_reach(d, ctx, sem=None, pub=True):
    R = ref.net_ref(d)
    try:
        order, edges = R.graph(LIMIT)
    except ref.Blowup:
        ctx.outcome("unbounded_or_large_skipped")
        return
    net, im, fm, places, ts = ref.net_to_pm4py(d)
    params = {"petri_semantics": sem} if sem is not None else {}
    inc, out, _ = rg.marking_flow_petri(net, im, parameters=params)
    z = lambda m: tuple(sorted((places.index(p), k) for p, k in m.items()))
    for m in order:
        ctx.state([repr(R.trans), m])
    ctx.step(len(edges)); ctx.trace()
    got = {z(m) for m in inc}
    if len(got) != len(inc):
        raise Violation("two stored markings are the same multiset")
    if got != set(order):
        raise Violation("reachable markings differ", got=sorted(got), expected=sorted(order))
    ge = sorted((z(m), ts.index(t), z(n)) for m in out for t, n in out[m].items())
    if ge != sorted(edges):
        raise Violation("marking flow edges differ", got=ge, expected=sorted(edges))
    gi = {z(m): {ts.index(t) for t in s} for m, s in inc.items()}
    wi = {m: set() for m in order}
    for m, i, n in edges:
        wi[n].add(i)
    if gi != wi:
        raise Violation("incoming transitions differ", got=str(gi), expected=str(wi))
    # transition system
    for use_name in (True, False):
        tss = rg.construct_reachability_graph(net, im, use_trans_name=use_name, parameters=params)
        if len(tss.states) != len(order):
            raise Violation("reachability graph has %d states, expected %d" % (len(tss.states), len(order)))
        if len(tss.transitions) != len(edges):
            raise Violation("reachability graph has %d edges, expected %d" % (len(tss.transitions), len(edges)))
        tname = (lambda i: ts[i].name) if use_name else (lambda i: repr(ts[i]))
        if not isomorphic(tss, order, edges, tname):
            raise Violation("reachability graph is not the graph of reachable markings", states=sorted(map(str, tss.states)),
                            edges=sorted((str(t.from_state), str(t.name), str(t.to_state)) for t in tss.transitions))
        for s in tss.states:
            if set(s.outgoing) != {t for t in tss.transitions if t.from_state is s} or set(s.incoming) != {t for t in tss.transitions if t.to_state is s}:
                raise Violation("state incidence of the transition system is inconsistent")
    if pub and sem is None:
        tss = pm4py.convert_to_reachability_graph(net, im, fm)
        if (len(tss.states), len(tss.transitions)) != (len(order), len(edges)):
            raise Violation("convert_to_reachability_graph differs")
    ctx.outcome("states<=2" if len(order) <= 2 else "states>2")


def g_reach(tier):
    for ims in ([[0, 1]], [[0, 2], [1, 1]]):
        for d in gen.nets(3, 2, ["a", None], weights=(1,), minpre=1, minpost=0, im=ims, maxpre=2 if tier == "quick" else 3):
            yield d
    for d in gen.nets(3, 3, ["a"], weights=(1,), minpre=1, minpost=1, im=[[0, 1], [1, 1]]):
        yield d
    for d in gen.nets(2, 2, ["a"], weights=(1, 2, 3), minpre=1, minpost=0, im=[[0, 3], [1, 1]]):
        yield d
    if tier != "quick":
        for d in gen.nets(3, 2, ["a"], weights=(1, 2), minpre=1, minpost=0, im=[[0, 2], [1, 1]]):
            yield d
        for d in gen.nets(4, 3, ["a"], weights=(1,), minpre=1, minpost=1, im=[[0, 1], [1, 1]]):
            yield d
    # larger, structured: k parallel branches of length l, with an optional loop
    for k in range(1, 5):
        for l in range(1, 4):
            for loop in (0, 1):
                n = 2 + k * (l + 1)
                ts = [["s", [[0, 1]], [[2 + b * (l + 1), 1] for b in range(k)]]]
                for b in range(k):
                    for i in range(l):
                        ts.append(["x%d" % i, [[2 + b * (l + 1) + i, 1]], [[3 + b * (l + 1) + i, 1]]])
                ts.append(["e", [[2 + b * (l + 1) + l, 1] for b in range(k)], [[1, 1]]])
                if loop:
                    ts.append([None, [[1, 1]], [[0, 1]]])
                if (l + 1) ** k + 2 <= 300:
                    yield {"n": n, "trans": ts, "im": [[0, 1]], "fm": [[1, 1]], "big": 1}


def r_reach(d, ctx):
    global LIMIT
    old = LIMIT
    if d.get("big"):
        LIMIT = 400
    try:
        check_reach(d, ctx)
    finally:
        LIMIT = old


def g_ir(tier):
    n = 2
    sides = [[], [[0, 1]], [[1, 1]], [[0, 1], [1, 1]], [[0, 2]]]
    opts = []
    for pre in sides:
        for post in sides[:4]:
            for inh in ([], [0], [1]):
                for rst in ([], [0], [1]):
                    if set(inh) & (set(p for p, _ in pre) | set(rst)) or set(rst) & set(p for p, _ in pre):
                        continue
                    if inh or rst:
                        opts.append(["a", pre, post, inh, rst])
    for o in opts:
        yield {"n": n, "trans": [o], "im": [[0, 2]], "fm": []}
    plain = [["b", a, b, [], []] for a in sides[1:] for b in sides]
    for o in opts:
        for q in plain:
            yield {"n": n, "trans": [o, q], "im": [[0, 2], [1, 1]], "fm": []}
    for o, q in itertools.combinations_with_replacement(opts, 2):
        yield {"n": n, "trans": [o, q], "im": [[0, 1], [1, 2]], "fm": []}


def r_ir(d, ctx):
    net, im, fm, places, ts = ref.net_to_pm4py(d)
    R = ref.net_ref(d)
    if len(d["trans"]) == 1:
        for m in markings(2, 3):
            check_step(R, net, {p: k for p, k in enumerate(m)}, places, ts, [("inhibitor-reset", ir)], ctx)
    check_reach(d, ctx, sem=ir.InhibitorResetSemantics())


def g_alg(tier):
    for a in markings(3, 2 if tier == "quick" else 3):
        yield {"a": list(a)}


def r_alg(d, ctx):
    places = [PetriNet.Place("p%d" % i) for i in range(3)]
    mk = lambda v, order: Marking({places[i]: v[i] for i in order if v[i]})
    a = d["a"]
    for b in markings(3, 2 if ctx.tier == "quick" else 3):
        b = list(b)
        for oa, ob in (((0, 1, 2), (0, 1, 2)), ((2, 1, 0), (1, 0, 2))):
            A, B = mk(a, oa), mk(b, ob)
            ctx.state([a, b]); ctx.step(4); ctx.trace()
            if (A == B) != (a == b):
                raise Violation("marking equality wrong", a=a, b=b)
            if a == b and hash(A) != hash(B):
                raise Violation("equal markings hash differently", a=a)
            if (A <= B) != all(x <= y for x, y in zip(a, b)):
                raise Violation("marking containment wrong", a=a, b=b)
            S = A + B
            if [S.get(p, 0) for p in places] != [x + y for x, y in zip(a, b)] or not isinstance(S, Marking):
                raise Violation("marking sum wrong", a=a, b=b, got=str(S))
            if S != mk([x + y for x, y in zip(a, b)], (0, 1, 2)):
                raise Violation("marking sum compares unequal", a=a, b=b)
            if all(x >= y for x, y in zip(a, b)):
                D = A - B
                if D != mk([x - y for x, y in zip(a, b)], (0, 1, 2)):
                    raise Violation("marking difference wrong", a=a, b=b, got=str(D))
            if [A.get(p, 0) for p in places] != a or [B.get(p, 0) for p in places] != b:
                raise Violation("operand modified", a=a, b=b)


def families(tier):
    warnings.simplefilter("ignore")
    return [("marking-algebra", g_alg, r_alg), ("firing-rule", g_single, r_single),
            ("inhibitor-reset", g_ir, r_ir), ("reachability", g_reach, r_reach)]
