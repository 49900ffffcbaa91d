"""C04 conversions between process models preserve the language (exact comparison of automata, all trace lengths)."""
import itertools
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.objects.conversion.process_tree import converter as pt_conv
from pm4py.objects.conversion.process_tree.variants import to_petri_net_transition_bordered as bordered
from pm4py.objects.conversion.process_tree.variants import to_powl
from pm4py.objects.conversion.bpmn.variants import to_petri_net as bpmn_to_pn
from pm4py.objects.conversion.wf_net.variants import to_process_tree, to_bpmn as wf_to_bpmn
from pm4py.objects.conversion.dfg.variants import to_petri_net_invisibles_no_duplicates as dfg_inv
from pm4py.objects.conversion.dfg import converter as dfg_conv

ID, TITLE = "C04", "Conversions between process models preserve the language"
BOUNDS = {"quick": "process trees <=3 leaves over {a,b,c,tau}, all operators, arity <=3 (4 leaves for ->,X,+,* without tau, 2 labels); POWL <=3 leaves incl. all "
                   "orders and nesting; DFGs over <=2 activities (all) and 3 activities (<=5 edges); all sound workflow nets with <=4 places and <=3 transitions, all labellings over {a,b,tau}; "
                   "BPMN graphs with <=3 inner nodes",
          "thorough": "trees of 4 leaves over {a,b,c,tau}; DFGs over 3 activities (all edge sets); larger nets and BPMN graphs"}


def same(A, B, what, ctx, **kw):
    try:
        d = ref.lang_diff(A, B, limit=4000, ctx=ctx)
    except ref.Blowup:
        ctx.outcome("reference_state_limit")
        return
    if d is not None:
        raise Violation("%s changes the language" % what, word=list(d[0]), in_source=d[1], in_result=d[2], **kw)


def check_net(net, im, fm, what, sound=True):
    s = ref.check_structure(net, im, fm)
    if s:
        raise Violation("%s yields an inconsistent net: %s" % (what, s))
    N = ref.net_from_pm4py(net, im, fm)
    if sound:
        if not ref.is_wf(N):
            raise Violation("%s does not yield a workflow net" % what)
        src = [p for p in N.places if not any(p in t["post"] for t in N.trans)]
        snk = [p for p in N.places if not any(p in t["pre"] for t in N.trans)]
        if N.im != ((src[0], 1),) or N.fm != ((snk[0], 1),):
            raise Violation("%s yields wrong initial or final marking" % what)
        if not ref.sound(N):
            raise Violation("%s yields an unsound net" % what)
    return N


def has(t, ops):
    return not (t is None or isinstance(t, str)) and (t[0] in ops or any(has(c, ops) for c in t[1:]))


def loop3(t):
    return not (t is None or isinstance(t, str)) and (t[0] == "*" and len(t) > 3 or any(loop3(c) for c in t[1:]))


def flat(N):
    return sorted((str(t["label"]), sorted(t["pre"].items()), sorted(t["post"].items())) for t in N.trans)


def r_tree(d, ctx):
    t = d["t"]
    A = ref.Tree(t)
    ctx.state(t)
    ctx.trace()
    tree = ref.tree_to_pm4py(t)
    net, im, fm = pm4py.convert_to_petri_net(tree)
    if ref.tree_from_pm4py(tree) != t or not ref.tree_parents_ok(tree):
        raise Violation("the source tree was modified")
    N = check_net(net, im, fm, "tree to Petri net")
    same(A, N, "tree to Petri net", ctx, tree=t)
    net2, im2, fm2 = pt_conv.apply(tree, variant=pt_conv.Variants.TO_PETRI_NET)
    same(A, check_net(net2, im2, fm2, "tree to Petri net"), "tree to Petri net (converter)", ctx)
    if not has(t, ("<>",)):      # BPMN has no interleaving construct: the converter does not support it
        b = pm4py.convert_to_bpmn(ref.tree_to_pm4py(t))
        s = ref.bpmn_structure(b)
        if s:
            raise Violation("tree to BPMN yields an inconsistent diagram: " + s)
        B = ref.Bpmn(ref.bpmn_from_pm4py(b))
        same(A, B, "tree to BPMN", ctx, tree=t)
        if not has(t, ("O",)):
            bn = pm4py.convert_to_petri_net(b)
            same(A, check_net(*bn, what="BPMN to Petri net"), "BPMN to Petri net", ctx, tree=t)
            bn = bpmn_to_pn.apply(b, parameters={"enable_reduction": False})
            same(A, check_net(*bn, what="BPMN to Petri net"), "BPMN to Petri net (no reduction)", ctx, tree=t)
    if not has(t, ("O",)) and not loop3(t):     # POWL loops have exactly two children
        p = to_powl.apply(ref.tree_to_pm4py(t))
        same(A, ref.Powl(ref.powl_from_pm4py(p)), "tree to POWL", ctx, tree=t)
        pn = pm4py.convert_to_petri_net(p)
        same(A, check_net(*pn, what="POWL to Petri net"), "tree to POWL to Petri net", ctx, tree=t)
    if not has(t, ("O", "<>")):
        g = wf_to_bpmn.apply(net, im, fm)
        s = ref.bpmn_structure(g)
        if s:
            raise Violation("WF-net to BPMN yields an inconsistent diagram: " + s)
        same(A, ref.Bpmn(ref.bpmn_from_pm4py(g)), "WF-net to BPMN", ctx, tree=t)
        if len(t or "") > 1 and not loop3(t):
            tb = bordered.apply(ref.tree_to_pm4py(t))
            same(A, check_net(*tb, what="tree to Petri net (transition bordered)"), "tree to Petri net (transition bordered)", ctx, tree=t)
        back(net, im, fm, A, ctx, t)
        g = pm4py.convert_to_bpmn(ref.tree_to_pm4py(t))
        try:
            t2 = pm4py.convert_to_process_tree(g)
            same(A, ref.Tree(ref.tree_from_pm4py(t2)), "BPMN to process tree", ctx, tree=t)
        except ValueError:
            ctx.outcome("bpmn_not_converted_to_tree")
    if flat(ref.net_from_pm4py(net, im, fm)) != flat(N):
        raise Violation("the source net was modified by a conversion")
    for typ in ("reset", "inhibitor", "reset_inhibitor", "classic"):
        cn, ci, cf = pm4py.convert_petri_net_type(net, im, fm, type=typ)
        same(N, check_net(cn, ci, cf, "net type conversion"), "net type conversion", ctx)


def back(net, im, fm, A, ctx, t):
    for fold in (True, False):
        try:
            tt = to_process_tree.apply(net, im, fm, parameters={"fold": fold})
        except ValueError:
            ctx.outcome("net_not_converted_to_tree")
            if t is not None and tau_free(t):
                raise Violation("the net of a block-structured tree without silent steps is not converted back", tree=t)
            return
        if not ref.tree_parents_ok(tt):
            raise Violation("WF-net to process tree yields a tree with inconsistent parent links", tree=t)
        same(A, ref.Tree(ref.tree_from_pm4py(tt)), "WF-net to process tree", ctx, tree=t)
        ctx.outcome("net_converted_to_tree")


def tau_free(t):
    return t is not None and (isinstance(t, str) or all(tau_free(c) for c in t[1:]))


def g_tree(tier):
    for n in (1, 2, 3):
        for t in gen.trees("abc", n, ops=("->", "X", "+", "*", "O", "<>"), loop3=True):
            yield {"t": t}
    if tier == "quick":
        for t in gen.trees("abcd", 4, ops=("->", "X", "+", "*"), tau=False, maxar=2):
            if len(set(ref.tree_labels(t))) == 4:
                yield {"t": t}
        for i, t in enumerate(gen.trees("abc", 4, ops=("->", "X", "+", "*"), maxar=2)):
            if sorted(ref.tree_labels(t)) == ["a", "b", "c"]:
                yield {"t": t}
        for t in gen.trees("abcd", 4, ops=("O", "<>", "->"), tau=False, maxar=3):
            if len(set(ref.tree_labels(t))) == 4:
                yield {"t": t}
    else:
        for t in gen.trees("abcd", 4, ops=("->", "X", "+", "*", "O", "<>"), maxar=4):
            yield {"t": t}
        for t in gen.trees("abcde", 5, ops=("->", "X", "+", "*"), tau=False, maxar=2):
            if len(set(ref.tree_labels(t))) == 5:
                yield {"t": t}


# ---------------------------------------------------------------- POWL
def orders(n):
    """all strict partial orders (as generating edge sets i<j closed under transitivity) up to renaming i<j"""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            yield [list(e) for e in es]


def closed(es):
    s = set(map(tuple, es))
    return all((a, d) in s for a, b in s for c, d in s if b == c)


def powls(n, alpha, depth=0):
    """POWL models with n leaves as shapes over '?' leaves"""
    if n == 1:
        yield "?"
        return
    for k in range(2, n + 1):
        for parts in compositions(n, k):
            for ch in itertools.product(*[list(powls(q, alpha, depth + 1)) for q in parts]):
                yield ["X"] + list(ch)
                if k == 2:
                    yield ["*"] + list(ch)
                for es in orders(k):
                    yield ["PO", list(ch), es]


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for a in range(1, n - k + 2):
        for r in compositions(n - a, k - 1):
            yield (a,) + r


def fill(s, it):
    if s == "?":
        return next(it)
    if s[0] == "PO":
        return ["PO", [fill(c, it) for c in s[1]], s[2]]
    return [s[0]] + [fill(c, it) for c in s[1:]]


def g_powl(tier):
    for n in (2, 3):
        for s in powls(n, "abc"):
            labs = list(itertools.product([None, "a", "b", "c"], repeat=n)) if n == 2 else [("a", "b", "c"), ("a", "a", "b"), (None, "a", "b"), ("a", None, "b"), ("a", "b", None), ("a", "a", "a")]
            for l in labs:
                yield {"p": fill(s, iter(l))}
    for s in powls(4, "abcd"):
        if s[0] == "PO":
            yield {"p": fill(s, iter("abcd"))}
            if tier != "quick":
                yield {"p": fill(s, iter(["a", None, "a", "b"]))}


def r_powl(d, ctx):
    p = d["p"]
    m = ref.powl_to_pm4py(p)
    ctx.state(p); ctx.trace()
    A = ref.Powl(p)
    pn = pm4py.convert_to_petri_net(m)
    same(A, check_net(*pn, what="POWL to Petri net"), "POWL to Petri net", ctx, powl=p)
    if ref.powl_from_pm4py(m) != p:
        raise Violation("the POWL model was modified by the conversion")
    s = m.simplify()
    same(A, ref.Powl(ref.powl_from_pm4py(s)), "simplification of a POWL model", ctx, powl=p)
    same(A, check_net(*pm4py.convert_to_petri_net(s), what="POWL to Petri net"), "simplified POWL to Petri net", ctx, powl=p)


# ---------------------------------------------------------------- DFG
def g_dfg(tier):
    for n in (1, 2):
        acts = "ab"[:n]
        edges = [x + y for x in acts for y in acts]
        for es in itertools.product((0, 1), repeat=len(edges)):
            for s in itertools.product((0, 1), repeat=n):
                for e in itertools.product((0, 1), repeat=n):
                    if any(s) and any(e):
                        yield {"dfg": [k for k, v in zip(edges, es) if v], "sa": [a for a, v in zip(acts, s) if v], "ea": [a for a, v in zip(acts, e) if v]}
    acts = "abc"
    edges = [x + y for x in acts for y in acts]
    for k in range(0, 5 if tier == "quick" else 10):
        for es in itertools.combinations(edges, k):
            for sa, ea in (("a", "c"), ("ab", "bc"), ("a", "a"), ("abc", "abc")):
                yield {"dfg": list(es), "sa": list(sa), "ea": list(ea)}


def r_dfg(d, ctx):
    dfg = {(e[0], e[1]): i + 1 for i, e in enumerate(d["dfg"])}
    sa, ea = {a: 2 for a in d["sa"]}, {a: 3 for a in d["ea"]}
    A = ref.Dfg(dfg, sa, ea)
    b = (dict(dfg), dict(sa), dict(ea))
    ctx.state(d); ctx.trace()
    r = pm4py.convert_to_petri_net(dfg, sa, ea)
    same(A, check_net(*r, what="DFG to Petri net", sound=False), "DFG to Petri net", ctx)
    for v in dfg_conv.Variants:
        r = dfg_conv.apply(dfg, variant=v, parameters={"start_activities": sa, "end_activities": ea})
        same(A, check_net(*r, what="DFG to Petri net", sound=False), "DFG to Petri net (%s)" % v.name, ctx)
    if b != (dfg, sa, ea):
        raise Violation("the DFG was modified by the conversion")
    starts = {x for x, y in dfg} - {y for x, y in dfg}
    ends = {y for x, y in dfg} - {x for x, y in dfg}
    if starts and ends:    # start and end activities inferred
        for v in dfg_conv.Variants:
            r = dfg_conv.apply(dfg, variant=v)
            same(ref.Dfg(dfg, starts, ends), check_net(*r, what="DFG to Petri net", sound=False), "DFG to Petri net (inferred start/end)", ctx)


# ---------------------------------------------------------------- workflow nets
def g_wf(tier):
    dom = [(2, 2, 2, 2), (3, 2, 2, 2), (3, 3, 2, 2), (4, 3, 2, 2)]
    if tier != "quick":
        dom += [(4, 3, 3, 3), (4, 4, 2, 2)]
    for n, m, a, b in dom:
        for d in gen.nets(n, m, ["a"], maxpre=a, maxpost=b):
            if ref.is_wf(ref.net_ref(d)):
                yield {"net": d}


def r_wf(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    try:
        ok = ref.sound(R, 60)
    except ref.Blowup:
        ok = False
    if not ok:
        ctx.outcome("unsound_skipped")
        return
    for labs in itertools.product(["a", "b", None], repeat=len(nd["trans"])):
        if "b" in labs and ("a" not in labs or labs.index("b") < labs.index("a")):
            continue
        one_wf({"n": nd["n"], "im": nd["im"], "fm": nd["fm"], "trans": [[l] + t[1:] for l, t in zip(labs, nd["trans"])]}, ctx)


def one_wf(nd, ctx):
    R = ref.net_ref(nd)
    ctx.state(nd); ctx.trace()
    ctx.outcome("sound")
    net, im, fm, places, ts = ref.net_to_pm4py(nd)
    g = pm4py.convert_to_bpmn(net, im, fm)
    s = ref.bpmn_structure(g)
    if s:
        raise Violation("WF-net to BPMN yields an inconsistent diagram: " + s)
    B = ref.Bpmn(ref.bpmn_from_pm4py(g))
    same(R, B, "WF-net to BPMN", ctx, net=nd)
    bn = pm4py.convert_to_petri_net(g)
    same(R, check_net(*bn, what="WF-net to BPMN to Petri net", sound=False), "WF-net to BPMN to Petri net", ctx, net=nd)
    back(net, im, fm, R, ctx, None)
    if flat(ref.net_from_pm4py(net, im, fm)) != flat(ref.net_from_pm4py(*ref.net_to_pm4py(nd)[:3])):
        raise Violation("the source net was modified by a conversion")


# ---------------------------------------------------------------- BPMN graphs
def g_bpmn(tier):
    kinds = [["task", "a"], ["xor", None], ["and", None]]
    for n, maxf in ((1, 9), (2, 9), (3, 6 if tier == "quick" else 8)):
        pairs = [(i, j) for i in range(0, n + 1) for j in range(1, n + 2) if i != j and not (i == 0 and j == n + 1)]
        for ks in itertools.combinations_with_replacement(range(3), n):
            nodes = [["start", None]] + [list(kinds[k]) for k in ks] + [["end", None]]
            c = 0
            for x in nodes:
                if x[0] == "task":
                    x[1] = "abc"[c]
                    c += 1
            for k in range(n + 1, maxf + 1):
                for fl in itertools.combinations(pairs, k):
                    outd = [0] * (n + 2)
                    ind = [0] * (n + 2)
                    for i, j in fl:
                        outd[i] += 1; ind[j] += 1
                    if outd[0] != 1 or any(not outd[i] or not ind[i] for i in range(1, n + 1)) or not ind[n + 1]:
                        continue
                    if any(nodes[i][0] == "task" and outd[i] > 1 for i in range(1, n + 1)):
                        continue
                    if connected(n + 2, fl):
                        yield {"nodes": nodes, "flows": [list(f) for f in fl]}


def connected(n, fl):
    """every node lies on a path from the start event to the end event"""
    def reach(r, s):
        done, todo = {s}, [s]
        while todo:
            x = todo.pop()
            for a, b in r:
                if a == x and b not in done:
                    done.add(b); todo.append(b)
        return len(done)
    return reach(fl, 0) == n and reach([(b, a) for a, b in fl], n - 1) == n


def r_bpmn(d, ctx):
    A = ref.Bpmn(d)
    try:
        ref.coaccessible(A, 60)
    except ref.Blowup:
        ctx.outcome("unbounded_skipped")
        return
    ctx.state(d); ctx.trace()
    g = ref.bpmn_to_pm4py(d)
    r = pm4py.convert_to_petri_net(g)
    same(A, check_net(*r, what="BPMN to Petri net", sound=False), "BPMN to Petri net", ctx, bpmn=d)
    r = bpmn_to_pn.apply(g, parameters={"use_id": True})
    ids = {n.get_id(): n for n in g.get_nodes()}
    if ref.bpmn_structure(g) or len(ref.bpmn_from_pm4py(g)["flows"]) != len(d["flows"]):
        raise Violation("the BPMN diagram was modified by the conversion")
    ctx.outcome("bpmn_nonempty" if ref.coaccessible(A)[1] else "bpmn_empty")


def families(tier):
    return [("tree", g_tree, r_tree), ("powl", g_powl, r_powl), ("dfg", g_dfg, r_dfg), ("wf-net", g_wf, r_wf), ("bpmn", g_bpmn, r_bpmn)]
