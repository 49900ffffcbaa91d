"""C05 model simplifications preserve the language (exact automaton comparison, all trace lengths)."""
import itertools
from mc import ref, gen
from mc.harness import Violation
from checks import C04
import pm4py
from pm4py.objects.process_tree.utils import generic
from pm4py.objects.petri_net.utils import reduction, murata
from pm4py.objects.bpmn.util import reduction as bpmn_reduction
from pm4py.algo.reduction.process_tree import reducer
from pm4py.objects.log.obj import Trace, Event

ID, TITLE = "C05", "Model simplifications never change the observable behaviour"
BOUNDS = {"quick": "trees: all <=3 leaves (6 operators, labels a,b,c,tau), 4 leaves with a,tau and >=2 silent leaves or 4 distinct operators; every trace of length <=3 for the "
                   "trace-based reduction; nets <=4 places/<=3 transitions over {a,tau} incl. arc weight 2; BPMN graphs with <=3 inner nodes",
          "thorough": "trees of 4 leaves over {a,b,tau}; nets with 4 transitions; 4 inner BPMN nodes"}


def same(A, B, what, ctx, **kw):
    C04.same(A, B, what, ctx, **kw)


def g_tree(tier):
    for n in (1, 2, 3):
        for t in gen.trees("abc", n, ops=("->", "X", "+", "*", "O", "<>"), loop3=True):
            yield {"t": t}
    for t in gen.trees("ab" if tier == "quick" else "abc", 4, ops=("->", "X", "+", "*", "O"), maxar=3 if tier == "quick" else 4):
        labs = leaves(t)
        if tier != "quick" or (labs.count(None) >= 2 and labs.count(None) < 4) or (labs.count(None) == 1 and "b" not in labs):
            yield {"t": t}


def leaves(t):
    return [t] if t is None or isinstance(t, str) else [x for c in t[1:] for x in leaves(c)]


def unary(t):
    """variants of t with one inner node or leaf wrapped into a single-child sequence/choice (fold removes them)"""
    for op in ("->", "X", "+"):
        yield [op, t]
    if not (t is None or isinstance(t, str)):
        for i in range(1, len(t)):
            for v in unary(t[i]):
                yield t[:i] + [v] + t[i + 1:]


def g_unary(tier):
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for t in gen.trees("ab", n, ops=("->", "X", "+", "*", "O", "<>")):
            for v in unary(t):
                yield {"t": v}


def r_tree(d, ctx):
    t = d["t"]
    A = ref.Tree(t)
    ctx.state(t); ctx.trace()
    for name, f in (("fold", generic.fold), ("tau reduction", generic.reduce_tau_leafs), ("binarisation", generic.process_tree_to_binary_process_tree)):
        if name == "binarisation" and C04.has(t, ("<>",)):      # interleaving of three blocks has no binary equivalent
            continue
        tree = ref.tree_to_pm4py(t)
        r = f(tree)
        if name == "fold" and ref.tree_from_pm4py(tree) != t:
            raise Violation("fold modified the tree it was given")
        if r is None:
            raise Violation("%s of a process tree returns nothing" % name, tree=t)
        if not ref.tree_parents_ok(r):
            raise Violation("%s leaves inconsistent parent links" % name, tree=t)
        rt = ref.tree_from_pm4py(r)
        same(A, ref.Tree(rt), "%s of a process tree" % name, ctx, tree=t, result=rt)
        ctx.outcome(name + ("_changed" if rt != t else "_same"))
    tree = ref.tree_to_pm4py(t)
    generic.tree_sort(tree)
    same(A, ref.Tree(ref.tree_from_pm4py(tree)), "sorting of a process tree", ctx, tree=t)


def g_red(tier):
    for n in (1, 2, 3):
        for t in gen.trees("ab" if n == 3 and tier == "quick" else "abc", n, ops=("->", "X", "+", "*") if n == 3 and tier == "quick" else ("->", "X", "+", "*", "O")):
            yield {"t": t}
    for t in gen.trees("abcd", 4, ops=("->", "X", "+", "*"), maxar=2):
        labs = leaves(t)
        if len(set(labs)) == 4 and (tier != "quick" or labs.count(None) == 1):
            yield {"t": t}


def r_red(d, ctx):
    t = d["t"]
    A = ref.Tree(t)
    ctx.state(t)
    al = sorted(set(x for x in leaves(t) if x))
    for w in gen.traces(al + ["z"], 3):
        if "z" in w and len(w) > 2:
            continue
        tree = ref.tree_to_pm4py(t)
        r = reducer.apply(tree, Trace([Event({"concept:name": x}) for x in w]), variant=reducer.Variants.TREE_TR_BASED)
        ctx.trace()
        if ref.tree_from_pm4py(tree) != t:
            raise Violation("trace-based reduction modified the tree it was given")
        if r is None:
            raise Violation("trace-based reduction returns nothing", tree=t, word=w)
        if not ref.tree_parents_ok(r):
            raise Violation("trace-based reduction leaves inconsistent parent links", tree=t, word=w)
        rt = ref.tree_from_pm4py(r)
        a, b = ref.accepts(A, w), ref.accepts(ref.Tree(rt), w)
        ctx.step(2)
        if a != b:
            raise Violation("trace-based reduction changes whether the trace is in the language", tree=t, word=w, result=rt, before=a, after=b)
        ctx.outcome("in_language" if a else "not_in_language")
        ctx.outcome("reduced" if rt != t else "not_reduced")


# ---------------------------------------------------------------- nets
def wfish(d):
    """source place 0 has no producer, final place has no consumer"""
    return all(p != 0 for t in d["trans"] for p, _ in t[2]) and all(p != d["n"] - 1 for t in d["trans"] for p, _ in t[1])


def g_net(tier):
    dom = [(2, 2, (1,), 2, 2), (3, 2, (1, 2), 2, 2), (4, 2, (1,), 2, 2), (3, 3, (1,), 2, 2), (4, 3, (1,), 1, 2), (4, 3, (1,), 2, 1)]
    if tier != "quick":
        dom += [(4, 3, (1,), 2, 2), (3, 3, (1, 2), 2, 2), (4, 4, (1,), 1, 1), (4, 4, (1,), 2, 1), (4, 4, (1,), 1, 2)]
    for n, m, w, a, b in dom:
        for d in gen.nets(n, m, ["a", None], weights=w, maxpre=a, maxpost=b):
            if wfish(d) and any(t[0] is None for t in d["trans"]):
                yield {"net": d}


def r_net(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    try:
        R.graph(60)
    except ref.Blowup:
        ctx.outcome("unbounded_skipped")
        return
    ctx.state(nd); ctx.trace()
    one = all(w == 1 for t in nd["trans"] for _, w in t[1] + t[2])
    todo = [("removal of invisible transitions", lambda net, im, fm: (pm4py.reduce_petri_net_invisibles(net), im, fm)),
            ("single-entry reduction", lambda net, im, fm: (reduction.reduce_single_entry_transitions(net), im, fm)),
            ("single-exit reduction", lambda net, im, fm: (reduction.reduce_single_exit_transitions(net), im, fm))]
    for name, f in todo:
        net, im, fm, _, ts = ref.net_to_pm4py(nd)
        labs = [t for t in ts if t.label is not None]
        net, im, fm = f(net, im, fm)
        finish(R, net, im, fm, name, ctx, nd, labs)


def finish(R, net, im, fm, name, ctx, nd, labs):
    s = ref.check_structure(net, im, fm)
    if s:
        raise Violation("%s yields an inconsistent net: %s" % (name, s), key=None, net=nd)
    if any(t not in net.transitions for t in labs):
        raise Violation("%s removed a visible transition" % name, net=nd)
    N = ref.net_from_pm4py(net, im, fm)
    same(R, N, name, ctx, net=nd)
    ctx.outcome("reduced" if len(N.trans) + len(N.places) < len(R.trans) + len(R.places) else "not_reduced")


def g_impl(tier):
    dom = [(2, 1, (1, 2), 2, 2), (2, 2, (1,), 2, 2), (3, 2, (1, 2), 2, 2), (3, 3, (1,), 2, 2), (4, 2, (1,), 2, 2), (4, 3, (1,), 1, 2), (4, 3, (1,), 2, 1)]
    if tier != "quick":
        dom += [(4, 3, (1,), 2, 2), (3, 3, (1, 2), 2, 2), (4, 2, (1, 2), 2, 2)]
    for n, m, w, a, b in dom:
        for k, d in enumerate(gen.nets(n, m, ["a"], weights=w, maxpre=a, maxpost=b)):
            yield {"net": d}


def r_impl(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    try:
        g, e = R.graph(40)
    except ref.Blowup:
        ctx.outcome("unbounded_skipped")
        return
    fm = dict(R.fm)
    ends = False
    for m in g:
        md = dict(m)
        if md == fm:
            ends = True
        elif all(md.get(p, 0) >= k for p, k in fm.items()):
            ctx.outcome("improper_completion_skipped")
            return
    if not ends or len(nd["trans"]) > 2 and len(set(map(repr, nd["trans"]))) < len(nd["trans"]):
        return
    ctx.state(nd); ctx.trace()
    for order in (0, 1, 2):          # place names decide the order in which places are examined
        for ini in ([], [1], [nd["n"] - 2]):
            e = dict(nd, trans=[["abc"[i]] + t[1:] for i, t in enumerate(nd["trans"])])
            if ini:
                if ini[0] in (0, nd["n"] - 1) or not extra(e, ini[0]):
                    continue
                e["im"] = e["im"] + [[ini[0], 1]]
                if not proper(ref.net_ref(e)):
                    continue
            net, im, fm, places, ts = ref.net_to_pm4py(e)
            names = [p.name for p in places]
            perm = [names, names[::-1], names[1:] + names[:1]][order]
            for p, x in zip(places, perm):
                p.name = x
            net, im, fm = pm4py.reduce_petri_net_implicit_places(net, im, fm)
            finish(ref.net_ref(e), net, im, fm, "removal of implicit places", ctx, e, ts)
            w = firing_diff(ref.net_ref(e), ref.net_from_pm4py(net, im, fm), ctx)
            if w is not None:
                raise Violation("removal of implicit places changes the possible firing sequences", net=e, sequence=w,
                                left=[p.name for p in net.places])


def firing_diff(A, B, ctx, limit=400):
    """A, B have distinct transition labels: compare the enabled labels along every joint run (None if the same)"""
    seen = {(A.im, B.im): []}
    todo = [(A.im, B.im)]
    while todo and len(seen) < limit:
        m, n = s = todo.pop(0)
        ea = {t["label"]: t for t in A.trans if A.enabled(m, t)}
        eb = {t["label"]: t for t in B.trans if B.enabled(n, t)}
        ctx.step(len(ea))
        if set(ea) != set(eb):
            return seen[s] + sorted(set(ea) ^ set(eb))
        for l in sorted(ea):
            q = (A.fire(m, ea[l]), B.fire(n, eb[l]))
            if q not in seen:
                seen[q] = seen[s] + [l]
                todo.append(q)
    return None


def extra(d, p):
    return True


def proper(R):
    try:
        g, _ = R.graph(40)
    except ref.Blowup:
        return False
    fm = dict(R.fm)
    return all(dict(m) == fm or not all(dict(m).get(p, 0) >= k for p, k in fm.items()) for m in g) and any(dict(m) == fm for m in g)


# ---------------------------------------------------------------- BPMN
def g_bpmn(tier):
    yield from C04.g_bpmn(tier)


def r_bpmn(d, ctx):
    A = ref.Bpmn(d)
    try:
        ref.coaccessible(A, 60)
    except ref.Blowup:
        ctx.outcome("unbounded_skipped")
        return
    if loops_only_xor(d):
        return
    ctx.state(d); ctx.trace()
    g = ref.bpmn_to_pm4py(d)
    r = bpmn_reduction.apply(g)
    s = ref.bpmn_structure(r)
    if s:
        raise Violation("BPMN simplification yields an inconsistent diagram: " + s, bpmn=d)
    e = ref.bpmn_from_pm4py(r)
    for i, n in enumerate(e["nodes"]):
        k = sum(1 for f in e["flows"] if f[0] == i), sum(1 for f in e["flows"] if f[1] == i)
        if n[0] == "xor" and k == (1, 1):
            raise Violation("BPMN simplification leaves a pass-through exclusive gateway", bpmn=d)
    same(A, ref.Bpmn(e), "BPMN simplification", ctx, bpmn=d)
    ctx.outcome("reduced" if len(e["nodes"]) < len(d["nodes"]) else "not_reduced")


def loops_only_xor(d):
    return False


def families(tier):
    return [("tree", g_tree, r_tree), ("unary-nodes", g_unary, r_tree), ("trace-reduction", g_red, r_red), ("invisibles", g_net, r_net),
            ("implicit-places", g_impl, r_impl), ("bpmn", g_bpmn, r_bpmn)]
