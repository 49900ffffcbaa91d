"""C02 process tree playout: every resolution of the random choices stays in the language; extensive playout is exact."""
import itertools
from mc import choices
choices.install()
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.algo.simulation.playout.process_tree import algorithm as pt_playout

ID, TITLE = "C02", "Process-tree playout produces exactly the tree's language"
BOUNDS = {"quick": "trees <=3 leaves over {a,b,tau} with -> X + * (and O, <> where supported), all choice sequences up to 12 draws; "
                   "curated nested trees; extensive: trees <=4 leaves, trace length <=4",
          "thorough": "trees <=4 leaves, choice depth 14; extensive to 4 leaves over 3 labels, length <=5"}
RULE = "all trees up to the bound x all random-choice sequences up to the draw bound (runs cut by the bound are prefixes of longer runs)"
V = pt_playout.Variants


def word(tr):
    return tuple(e["concept:name"] for e in tr)


# one playout of 1 trace per choice sequence
def r_random(d, ctx):
    tree_d, var = d["t"], d["v"]
    A = ref.Tree(tree_d)
    depth = d.get("depth", 12)
    seen = {}
    variant = {"basic": V.BASIC_PLAYOUT, "topbottom": V.TOPBOTTOM}[var]

    def run():
        t = ref.tree_to_pm4py(tree_d)
        n = d.get("n", 1)
        if d.get("pub"):
            log = pm4py.play_out(t, variant=variant, parameters={"num_traces": n})
        else:
            log = pt_playout.apply(t, variant=variant, parameters={"num_traces": n})
        if len(log) != n:
            raise Violation("playout returned %d traces instead of %d" % (len(log), n))
        return [word(x) for x in log]
    runs = 0
    for res, ch, cut in choices.explore(run, depth, limit=d.get("limit", 60000)):
        if cut == "limit":
            ctx.outcome("tree_capped")
            break
        runs += 1
        ctx.step(len(ch))
        ctx.state([tree_d, var, ch])
        if cut:
            ctx.outcome("cut_by_draw_bound")
            continue
        ctx.trace()
        for w in res:
            if w not in seen:
                seen[w] = ref.accepts(A, w)
            if not seen[w]:
                raise Violation("%s playout produced a trace that is not in the language" % var, tree=tree_d, trace=list(w), choices=ch)
    ctx.outcome("distinct_traces", len(seen))


def g_basic(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for t in gen.trees("ab" if n < 4 else "abc", n, ops=("->", "X", "+", "*", "O", "<>")):
            for v in ("basic", "topbottom"):
                yield {"t": t, "v": v, "depth": (10 if n < 3 else 9) if tier == "quick" else 11, "pub": n < 3}
    for t in CURATED:
        for v in ("basic", "topbottom"):
            yield {"t": t, "v": v, "depth": 11 if tier == "quick" else 14, "limit": 6000 if tier == "quick" else 100000}
    # several traces per call: state must not leak from one simulated trace into the next
    for t in gen.trees("ab", 2, ops=("->", "X", "+", "*", "O", "<>")):
        for v in ("basic", "topbottom"):
            yield {"t": t, "v": v, "n": 2, "depth": 9}


CURATED = [
    ["*", ["+", "a", "b"], "c"], ["*", ["+", "a", ["*", "b", "c"]], None], ["*", ["->", "a", "b"], ["+", "c", "d"]],
    ["+", ["->", "a", "b"], ["->", "c", "d"]], ["->", "a", ["*", ["X", "b", "c"], "d"], "e"],
    ["*", ["*", "a", "b"], ["X", "c", None]], ["+", "a", "b", "c"], ["->", ["+", "a", "b"], ["X", "c", "d"]],
    ["->", "a", ["O", "b", "c"], "d"], ["*", ["O", "a", "b"], "c"], ["+", ["O", "a", "b"], "c"],
    ["<>", ["->", "a", "b"], ["->", "c", "d"]], ["->", "x", ["<>", "a", "b", "c"], "y"], ["*", ["<>", "a", "b"], "c"],
    ["*", ["->", "a", ["+", "b", "c"]], ["X", "d", "e"]], ["+", ["*", "a", "b"], ["X", "c", "d"]], ["+", "a", ["+", "b", "c"]],
    ["*", ["X", "a", ["->", "b", "c"]], None], ["->", "a", "a", "b"], ["X", ["+", "a", "b"], ["->", "a", "b", "c"]],
]


# ---------------------------------------------------------------- extensive
def bounded_lang(d, maxloop, maxlen):
    """language with each loop activation repeating its redo part at most maxloop times, traces <= maxlen"""
    if d is None:
        return {()}
    if isinstance(d, str):
        return {(d,)}
    cs = [bounded_lang(c, maxloop, maxlen) for c in d[1:]]
    op = d[0]
    if op == "X":
        return set().union(*cs)
    if op == "->":
        cur = {()}
        for c in cs:
            cur = {x + y for x in cur for y in c if len(x) + len(y) <= maxlen}
        return cur
    if op == "+":
        cur = {()}
        for c in cs:
            cur = {z for x in cur for y in c if len(x) + len(y) <= maxlen for z in shuffle(x, y)}
        return cur
    if op == "*":
        do, redo = cs[0], cs[1]
        cur = set(do)
        res = set(cur)
        for _ in range(maxloop):
            cur = {x + y + z for x in cur for y in redo if len(x) + len(y) <= maxlen for z in do if len(x) + len(y) + len(z) <= maxlen}
            if cur <= res:
                break
            res |= cur
        return {x for x in res if len(x) <= maxlen}
    raise ValueError(op)


def shuffle(x, y):
    if not x or not y:
        yield x + y
        return
    for r in shuffle(x[1:], y):
        yield (x[0],) + r
    for r in shuffle(x, y[1:]):
        yield (y[0],) + r


def r_ext(d, ctx):
    tree_d = d["t"]
    A = ref.Tree(tree_d)
    minlen = min(map(len, bounded_lang(tree_d, 0, 50)))
    for ml in d["lens"]:
        full = ref.words(A, ml)
        for mn in (0, 1, 2):
            for loop in (0, 1, None, 50):
                p = {"max_trace_length": ml, "min_trace_length": mn}
                if loop is not None:
                    p["max_loop_occ"] = loop
                want = {w for w in bounded_lang(tree_d, loop if loop is not None else ml // 2, ml) if len(w) >= mn}
                if loop == 50 and want != {w for w in full if len(w) >= mn}:
                    raise RuntimeError("the two reference languages disagree: %s" % tree_d)
                t = ref.tree_to_pm4py(tree_d)
                log = pt_playout.apply(t, variant=V.EXTENSIVE, parameters=p)
                got = [word(x) for x in log]
                ctx.trace(); ctx.step(len(want)); ctx.state([tree_d, ml, mn, loop])
                if len(set(got)) != len(got):
                    raise Violation("extensive playout returns a trace twice", tree=tree_d, params=p)
                if set(got) != want:
                    raise Violation("extensive playout differs from the bounded language", tree=tree_d, params=p,
                                    missing=sorted(want - set(got))[:5], extra=sorted(set(got) - want)[:5])
                s = pt_playout.apply(ref.tree_to_pm4py(tree_d), variant=V.EXTENSIVE, parameters=dict(p, return_set_strings=True))
                if set(map(tuple, s)) != want:
                    raise Violation("extensive playout (set of strings) differs", tree=tree_d, params=p)
                if ref.tree_from_pm4py(t) != tree_d:
                    raise Violation("the tree was modified")
    # default bounds: all shortest traces (length bound defaults to the minimum trace length)
    log = pt_playout.apply(ref.tree_to_pm4py(tree_d), variant=V.EXTENSIVE)
    want = {w for w in bounded_lang(tree_d, minlen // 2, minlen) if 1 <= len(w) <= minlen}
    if {word(x) for x in log} != want:
        raise Violation("extensive playout with default bounds differs", tree=tree_d, got=sorted({word(x) for x in log}), want=sorted(want))
    ctx.outcome("nonempty" if want else "empty")


def g_ext(tier):
    for n in (1, 2, 3):
        for t in gen.trees("abc", n):
            yield {"t": t, "lens": [3, 4]}
    for t in gen.trees("ab" if tier == "quick" else "abc", 4, maxar=4, tau=tier != "quick"):
        yield {"t": t, "lens": [4] if tier == "quick" else [4, 5]}
    for t in CURATED:
        if not any(o in repr(t) for o in ("'O'", "'<>'")):
            yield {"t": t, "lens": [2, 3, 5]}


def families(tier):
    return [("random-choices", g_basic, r_random), ("extensive", g_ext, r_ext)]
