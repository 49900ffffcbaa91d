"""C07 writing a model and reading it back (files, serialisation, textual forms) yields the same model."""
import itertools, os
from mc import ref, gen
from mc.harness import Violation
from checks import C04
import pm4py
from pm4py.objects.petri_net.importer import importer as pnml_importer
from pm4py.objects.petri_net.exporter import exporter as pnml_exporter
from pm4py.objects.process_tree.exporter import exporter as ptml_exporter
from pm4py.objects.process_tree.importer import importer as ptml_importer
from pm4py.objects.bpmn.exporter import exporter as bpmn_exporter
from pm4py.objects.bpmn.importer import importer as bpmn_importer
from pm4py.objects.dfg.exporter import exporter as dfg_exporter
from pm4py.objects.dfg.importer import importer as dfg_importer
from pm4py.objects.powl.parser import parse_powl_model_string
from pm4py.util import constants as pm_const

ID, TITLE = "C07", "Model files and textual forms round-trip"
# names the formats can carry: quotes, markup, spaces, separators of the other formats, non-ASCII, keywords of the formats
LABELS = ["a", "b", "a b", " a", "a ", " ", "a  b", "\"a\"", "a'", "'", "<a>", "a&b", "&amp;", "&lt;", "]]>", "<!-- -->", "\u00e9", "\u65e5\u672c", "\U0001f600", "\u03c4", "tau",
          "a,b", "(a)", "{a}", "a->b", "a-->b", "->", "X", "+", "*", "O", "X(", "a;b", "a|b", "\\n", "a\\", "%s", "1", "0", "None", "t0", "p0", "place", "page",
          "transition", "start", "end", "source", "sink", "invisible", "$invisible$", "skip", "a=b", "PO=(", "nodes={", "#", "a/b", "x1", "a:b", "True", ".*"]
BOUNDS = {"quick": "labels: %d special names alone and in pairs with a plain one, on fixed models of every format; structures: all nets with <=2 places x <=2 transitions with arc weights "
                   "<=2 and inhibitor/reset arcs and markings <=2; process trees <=4 leaves; POWL <=3 leaves; BPMN graphs <=2 inner nodes; DFGs over 2 activities" % len(LABELS),
          "thorough": "nets with 3 places/transitions, trees of 4-5 leaves, all label pairs"}


def net_sig(net, im, fm):
    from pm4py.objects.petri_net.obj import InhibitorNet, ResetNet
    kind = lambda a: "inh" if isinstance(a, InhibitorNet.InhibitorArc) else "rst" if isinstance(a, ResetNet.ResetArc) else "n"
    side = lambda e: ("t" if e in net.transitions else "p", e.name)
    lay = lambda e: str(e.properties.get(pm_const.LAYOUT_INFORMATION_PETRI))
    return (sorted((p.name, lay(p)) for p in net.places), sorted((t.name, str((t.label,)), lay(t)) for t in net.transitions),
            sorted((side(a.source), side(a.target), a.weight if kind(a) == "n" else 0, kind(a)) for a in net.arcs),
            sorted((p.name, k) for p, k in im.items() if k), sorted((p.name, k) for p, k in fm.items() if k))


def cmp(a, b, what):
    if a != b:
        raise Violation("%s changes the model" % what, written=str(a)[:1500], read=str(b)[:1500])


def net_back(net, im, fm, ctx, what):
    want = net_sig(net, im, fm)
    ctx.state(want)
    for how in ("file", "serialize", "string"):
        ctx.trace()
        if how == "file":
            pm4py.write_pnml(net, im, fm, "m.pnml")
            got = pm4py.read_pnml("m.pnml")
            os.remove("m.pnml")
        elif how == "serialize":
            got = pm4py.deserialize(pm4py.serialize(net, im, fm))
        else:
            got = pnml_importer.Variants.PNML.value.import_net_from_string(pnml_exporter.Variants.PNML.value.export_petri_as_string(net, im, fm))
        if got[2] is None:
            raise Violation("PNML %s round trip loses the final marking" % how)
        s = ref.check_structure(*got)
        if s:
            raise Violation("PNML %s round trip yields an inconsistent net: %s" % (how, s))
        cmp(want, net_sig(*got), "PNML %s round trip (%s)" % (how, what))
    if net_sig(net, im, fm) != want:
        raise Violation("writing the net changed it")


def r_net(d, ctx):
    net, im, fm, ps, ts = ref.net_to_pm4py(d)
    if d.get("layout"):
        for i, e in enumerate(ps + ts):
            if i % 2 == 0:
                e.properties[pm_const.LAYOUT_INFORMATION_PETRI] = ((1.0 * i, 2.5), (10.0, 4.0 + i))
    net_back(net, im, fm, ctx, "structure")


def g_net(tier):
    yield {"n": 1, "trans": [], "im": [[0, 1]], "fm": [[0, 1]]}
    for im in ([[0, 1]], [[0, 2], [1, 1]], []):
        for fm in ([[1, 1]], [[0, 2], [1, 3]]):
            yield from gen.nets(2, 1, ["a", None], weights=(1, 2, 3), im=im, fm=fm, minpre=0, minpost=0)
    yield from gen.nets(2, 2, ["a", "b", None], weights=(1, 2), maxpre=1, maxpost=1)
    for d in gen.nets(2, 2, ["a", None], weights=(1,), maxpre=2, maxpost=2):
        yield dict(d, layout=1)
    for inh in ([], [0], [0, 1]):
        for rst in ([], [0], [1]):
            if set(inh) & set(rst):
                continue
            for l in ("a", None):
                for post in ([], [[1, 2]]):
                    yield {"n": 2, "trans": [[l, [], post, inh, rst], ["a", [[0, 2]], [[1, 1]]]], "im": [[0, 1]], "fm": [[1, 1]]}
    if tier == "thorough":
        yield from gen.nets(3, 2, ["a", None], weights=(1, 2), maxpre=2, maxpost=2)
        yield from gen.nets(2, 3, ["a", "b", None], weights=(1, 2), maxpre=1, maxpost=1)


def pairs(tier):
    if tier == "thorough":
        yield from itertools.product(LABELS, LABELS)
    else:
        for l in LABELS:
            yield (l, l)
            if l != "a":
                yield (l, "a")
                yield ("a", l)


def carry(fmt, l):
    """can the format carry this activity name?"""
    if fmt == "tree_text":
        return "'" not in l
    if fmt == "powl_text":      # names inside partial orders are not quoted and the separators cannot be escaped
        return l == l.strip() and l != "tau" and "->" not in l and not any(c in l for c in "',(){}=")
    return True


def g_label(tier):
    for x, y in pairs(tier):
        yield {"x": x, "y": y}


def norm_tree(t):
    """children of commutative operators have no order; a loop's silent exit child is the same as no exit child"""
    if t is None or isinstance(t, str):
        return t
    c = [norm_tree(q) for q in t[1:]]
    if t[0] == "*" and len(c) == 3:
        if c[2] is not None:
            return ["->", ["*"] + c[:2], c[2]]
        c = c[:2]
    if t[0] in ("X", "+", "O", "<>"):
        c = sorted(c, key=lambda q: str([q]))
    return [t[0]] + c


def tree_back(t, ctx):
    tree = ref.tree_to_pm4py(t)
    ctx.state(t)
    want = norm_tree(t)
    for how in ("file", "serialize", "string", "text"):
        if how == "text" and not all(carry("tree_text", l) for l in ref.tree_labels(t)):
            continue
        if how == "text" and isinstance(t, str) and not t.isalnum():
            continue                # the text of a single activity is its bare name
        ctx.trace()
        if how == "file":
            pm4py.write_ptml(tree, "m.ptml")
            got = pm4py.read_ptml("m.ptml")
            os.remove("m.ptml")
        elif how == "serialize":
            got = pm4py.deserialize(pm4py.serialize(tree))
        elif how == "string":
            got = ptml_importer.deserialize(ptml_exporter.serialize(tree))
        else:
            got = pm4py.parse_process_tree(str(tree))
        g = ref.tree_from_pm4py(got)
        if not ref.tree_parents_ok(got) or got.parent is not None:
            raise Violation("process tree %s round trip yields inconsistent parent links" % how)
        cmp(want, norm_tree(g), "process tree %s round trip" % how)
    if ref.tree_from_pm4py(tree) != t or not ref.tree_parents_ok(tree):
        raise Violation("writing the tree changed it")


def r_tree(d, ctx):
    tree_back(d["t"], ctx)


def g_tree(tier):
    ops = ("->", "X", "+", "*", "O", "<>")
    for n in (1, 2, 3):
        for t in gen.trees("abc", n, ops=ops):
            yield {"t": t}
    for t in gen.trees("ab", 4, ops=("->", "X", "*", "<>"), tau=(tier == "thorough"), maxar=2 if tier == "quick" else 4):
        yield {"t": t}
    for op in ops:              # same sub-tree below itself, wide nodes, one child, third loop child
        yield {"t": [op, [op, "a", "b"], [op, "a", "b"]]}
        yield {"t": ["->", [op, "a", ["X", "a", None]], ["X", "a", None]]}
        if op != "*":
            yield {"t": [op, "a", "b", "c", "d", "a", None]}
            yield {"t": [op, "a"]}
            yield {"t": [op, [op, [op, "a"]]]}
    yield {"t": ["*", "a", "b", None]}
    for x in (["*", "a", "b", "c"], ["*", "a", "b", ["*", "d", None, "a"]], ["*", ["*", "a", "b", "c"], "b", "c"]):      # exit part of a loop
        yield {"t": x}
        yield {"t": ["->", x, "d"]}
        yield {"t": ["->", x, "d", x]}
        yield {"t": ["X", ["->", "d", x, "e"], x]}


def powl_norm(d):
    if d is None or isinstance(d, str):
        return d
    if d[0] == "PO":
        ch = [(str(powl_norm(c)), i) for i, c in enumerate(d[1])]
        names = {i: s for s, i in ch}
        return ["PO", sorted(names.values()), sorted((names[i], names[j]) for i, j in d[2])]
    c = [powl_norm(x) for x in d[1:]]
    return [d[0]] + (sorted(c, key=str) if d[0] == "X" else c)


def distinct(d):
    """the textual form names the ordered elements by their text, so it can only carry orders over different texts"""
    if d is None or isinstance(d, str):
        return True
    if d[0] == "PO":
        ks = [str(c) for c in d[1]]
        return all(map(distinct, d[1])) and (len(set(ks)) == len(ks) or not d[2])
    return all(map(distinct, d[1:]))


def powl_back(d, ctx):
    m = ref.powl_to_pm4py(d)
    ctx.state(d)
    ctx.trace()
    s = str(m)
    got = parse_powl_model_string(s)
    g = ref.powl_from_pm4py(got)
    cmp(powl_norm(ref.powl_from_pm4py(m)), powl_norm(g), "POWL text round trip")
    ctx.trace()
    cmp(powl_norm(ref.powl_from_pm4py(m)), powl_norm(ref.powl_from_pm4py(pm4py.parse_powl_model_string(s))), "POWL text round trip (facade)")


def r_powl(d, ctx):
    if distinct(d["m"]):
        powl_back(d["m"], ctx)
    else:
        ctx.skipped += 1


def orders(n):
    """all strict partial orders (transitively closed) over 0..n-1"""
    ed = [(i, j) for i in range(n) for j in range(n) if i != j]
    for k in range(len(ed) + 1):
        for s in itertools.combinations(ed, k):
            S = set(s)
            if any((b, a) in S for a, b in S):
                continue
            if any(b == c and (a, d) not in S for a, b in S for c, d in S):
                continue
            yield [list(e) for e in s]


def g_powl(tier):
    leaves = ["a", "b", "c"]
    yield {"m": "a"}
    yield {"m": None}
    inner = [["X", "a", "b"], ["*", "a", None], ["*", None, "b"], ["X", "a", None], ["X", "a", "b", "c"], ["*", "a", "b"]]
    inner += [["PO", ["a", "b"], []], ["PO", ["a", "b"], [[0, 1]]], ["PO", ["b", "a"], [[0, 1]]]]
    for m in inner:
        yield {"m": m}
    for n in (2, 3):
        for o in orders(n):
            yield {"m": ["PO", leaves[:n], o]}
    pool = ["a", "b", None] + inner
    for x, y in itertools.product(pool, repeat=2):
        for o in orders(2):
            yield {"m": ["PO", [x, y], o]}
        yield {"m": ["X", x, y]}
        yield {"m": ["*", x, y]}
    for x in inner:
        for o in orders(3):
            yield {"m": ["PO", [x, "c", "d"], o]}
            yield {"m": ["X", ["PO", [x, "c", "d"], o], "e"]}
    nested = [["PO", [i, "z"], o] for i in inner for o in orders(2)]
    for q in nested:
        for o in orders(2):
            yield {"m": ["PO", [q, "y"], o]}
            yield {"m": ["PO", ["y", ["*", q, "x"]], o]}
    if tier == "thorough":
        for o in orders(4):
            yield {"m": ["PO", ["a", "b", "c", "d"], o]}
        for x, y, z in itertools.product(pool, repeat=3):
            for o in orders(3):
                yield {"m": ["PO", [x, y, z], o]}


def bpmn_sig(g):
    from pm4py.objects.bpmn.obj import BPMN
    kinds = [BPMN.StartEvent, BPMN.EndEvent, BPMN.IntermediateCatchEvent, BPMN.IntermediateThrowEvent, BPMN.Task, BPMN.ExclusiveGateway, BPMN.ParallelGateway, BPMN.InclusiveGateway]
    kn = lambda n: next(k.__name__ for k in kinds if isinstance(n, k))
    gate = lambda n: isinstance(n, BPMN.Gateway)
    return (sorted((n.get_id(), kn(n), "" if gate(n) else n.get_name(), n.get_gateway_direction().value if gate(n) else "") for n in g.get_nodes()),
            sorted((f.get_source().get_id(), f.get_target().get_id(), f.get_name()) for f in g.get_flows()))


def bpmn_back(g, ctx, layout=False):
    want = bpmn_sig(g)
    hows = ["file", "serialize", "string"] + (["layout"] if layout else [])
    for how in hows:
        ctx.trace()
        if how in ("file", "layout"):
            pm4py.write_bpmn(g, "m.bpmn", auto_layout=(how == "layout"))
            got = pm4py.read_bpmn("m.bpmn")
            os.remove("m.bpmn")
        elif how == "serialize":
            got = pm4py.deserialize(pm4py.serialize(g))
        else:
            got = bpmn_importer.deserialize(bpmn_exporter.serialize(g))
        s = ref.bpmn_structure(got)
        if s:
            raise Violation("BPMN %s round trip yields an inconsistent diagram: %s" % (how, s))
        cmp(want, bpmn_sig(got), "BPMN %s round trip" % how)
    if bpmn_sig(g) != want:
        raise Violation("writing the diagram changed it")


def r_bpmn(d, ctx):
    from pm4py.objects.bpmn.obj import BPMN
    g = ref.bpmn_to_pm4py(d)
    ctx.state(d)
    if d.get("names"):
        for i, f in enumerate(sorted(g.get_flows(), key=lambda f: (str(f.get_source().get_name()), str(f.get_target().get_name())))):
            f.name = "flow <%d>" % i
    if d.get("events"):
        evs = [BPMN.IntermediateCatchEvent(name="wait & see"), BPMN.NormalIntermediateThrowEvent(name="<throw>")]
        for e in evs:
            g.add_node(e)
        src = next(n for n in g.get_nodes() if isinstance(n, BPMN.StartEvent))
        g.add_flow(BPMN.SequenceFlow(src, evs[0]))
        g.add_flow(BPMN.SequenceFlow(evs[0], evs[1]))
    if d.get("dir"):
        for i, n in enumerate(x for x in g.get_nodes() if isinstance(x, BPMN.Gateway)):
            n.set_gateway_direction([BPMN.Gateway.Direction.DIVERGING, BPMN.Gateway.Direction.CONVERGING][i % 2])
    bpmn_back(g, ctx, layout=d.get("layout", False))


def g_bpmn(tier):
    base = {"nodes": [["start", None], ["end", None]], "flows": [[0, 1]]}
    yield dict(base, layout=True)
    k = 0
    inner = [["task", "a"], ["task", "b"], ["xor", None], ["and", None], ["or", None]]
    for n in (1, 2):
        for c in itertools.combinations_with_replacement(inner, n):
            nodes = [["start", None], ["end", None]] + list(c)
            cand = [(i, j) for i in [0] + list(range(2, 2 + n)) for j in range(1, 2 + n)]
            for r in range(1, len(cand) + 1):
                for fl in itertools.combinations(cand, r):
                    if r > 4 and tier == "quick":
                        continue
                    k += 1
                    yield {"nodes": nodes, "flows": [list(f) for f in fl], "names": k % 2, "events": k % 3 == 0, "dir": k % 5 == 0, "layout": k % 211 == 0}
    # two flows between the same nodes, twice the same task name
    yield {"nodes": [["start", None], ["end", None], ["xor", None], ["xor", None], ["task", "a"], ["task", "a"]],
           "flows": [[0, 2], [2, 3], [2, 3], [2, 4], [2, 5], [4, 3], [5, 3], [3, 1]]}


def dfg_back(dfg, sa, ea, ctx):
    want = (dict(dfg), dict(sa), dict(ea))
    for how in ("file", "serialize"):
        ctx.trace()
        if how == "file":
            pm4py.write_dfg(dfg, sa, ea, "m.dfg")
            got = pm4py.read_dfg("m.dfg")
            os.remove("m.dfg")
        else:
            got = pm4py.deserialize(pm4py.serialize(dfg, sa, ea))
        cmp(want, tuple(dict(x) for x in got), "DFG %s round trip" % how)


def r_dfg(d, ctx):
    ctx.state(d)
    dfg_back({(a, b): c for a, b, c in d["e"]}, dict(map(tuple, d["s"])), dict(map(tuple, d["t"])), ctx)


def g_dfg(tier):
    for alpha in ("a", "ab") + (("abc",) if tier == "thorough" else ()):
        ed = [(x, y) for x in alpha for y in alpha]
        subs = lambda q: [s for k in range(1, len(q) + 1) for s in itertools.combinations(q, k)]
        for k in range(len(ed) + 1):
            for es in itertools.combinations(ed, k):
                for s in subs(alpha):
                    for t in subs(alpha):
                        yield {"e": [[x, y, 1 + 7 * i] for i, (x, y) in enumerate(es)], "s": [[x, 2 + i] for i, x in enumerate(s)], "t": [[x, 30 - i] for i, x in enumerate(t)]}


def r_label(d, ctx):
    x, y = d["x"], d["y"]
    ctx.state(d)
    errs = []

    def go(f, *a):
        try:
            f(*a)
        except Violation as v:
            ctx.note(v.msg, **v.details)
        except Exception as e:
            ctx.note("%s: unexpected %s: %s" % (a[-1] if isinstance(a[-1], str) else f.__name__, type(e).__name__, str(e)[:150]))
    net, im, fm, ps, ts = ref.net_to_pm4py({"n": 3, "trans": [[x, [[0, 1]], [[1, 1]]], [y, [[1, 1]], [[2, 1]]], [None, [[1, 1]], [[2, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]})
    go(net_back, net, im, fm, ctx, "labels")
    go(tree_back, ["->", x, ["X", y, None], ["+", ["*", x, y], y]], ctx)
    if carry("powl_text", x) and carry("powl_text", y):
        for m in (x, ["X", x, ["*", y, None]], ["PO", [x, "q"], [[0, 1]]]) + ((["PO", [x, ["X", y, None], y], [[0, 1], [2, 1]]], ["PO", [x, y], [[1, 0]]]) if x != y else ()):
            go(powl_back, m, ctx)
    go(lambda: bpmn_back(ref.bpmn_to_pm4py({"nodes": [["start", None], ["end", None], ["task", x], ["task", y]], "flows": [[0, 2], [2, 3], [3, 1]]}), ctx, layout=(y == "a")))
    if x == x.strip() and y == y.strip():     # the DFG format is line based and strips its lines
        es = {(x, y): 3, (y, x): 2, (x, x): 4} if x != y else {(x, x): 4}
        go(lambda: dfg_back(es, {x: 5}, {y: 6}, ctx))


def r_disc(d, ctx):
    """models produced by pm4py itself for activities with arbitrary names"""
    import pandas as pd
    names = d["names"]
    tr = {"a": names[0], "b": names[1]}
    rows = []
    for i, w in enumerate(d["log"]):
        for j, x in enumerate(w):
            rows.append({"case:concept:name": str(i), "concept:name": tr[x], "time:timestamp": pd.Timestamp("2020-01-%02dT%02d:00:00Z" % (1 + i, j))})
    df = pd.DataFrame(rows)
    ctx.state(d)
    fs = {"inductive": pm4py.discover_petri_net_inductive, "alpha": pm4py.discover_petri_net_alpha, "heuristics": pm4py.discover_petri_net_heuristics,
          "dfg": lambda l: pm4py.convert_to_petri_net(*pm4py.discover_dfg(l)), "bpmn": lambda l: pm4py.convert_to_petri_net(pm4py.discover_bpmn_inductive(l)),
          "powl": lambda l: pm4py.convert_to_petri_net(pm4py.discover_powl(l))}
    for k, f in fs.items():
        net, im, fm = f(df)
        if not fm:
            continue
        pm4py.write_pnml(net, im, fm, "d.pnml")
        got = pm4py.read_pnml("d.pnml")
        os.remove("d.pnml")
        ctx.trace()
        N, M = ref.net_from_pm4py(net, im, fm), ref.net_from_pm4py(*got)
        sig = lambda Q: (len(Q.places), sorted((str(t["label"]), len(t["pre"]), len(t["post"])) for t in Q.trans), sum(v for _, v in Q.im), sum(v for _, v in Q.fm))
        if sig(N) != sig(M):
            ctx.note("the net discovered by %s does not survive writing and reading" % k, written=sig(N), read=sig(M))
            continue
        try:
            q = ref.lang_diff(N, M, limit=3000, ctx=ctx)
        except ref.Blowup:
            continue
        if q is not None:
            ctx.note("the net discovered by %s has another language after writing and reading" % k, word=list(q[0]))


def g_disc(tier):
    nm = ["start", "end", "source", "sink", "a b", "<x>", "tau", "skip_1", "init_loop_1", "p_1", "start_a", "('a',)", "intermediate", "a", "source0", "splace_a", "end_b"]
    logs = [["ab"], ["ab", "ba"], ["ab", "a"], ["aa", "b"], ["aab", "ab"], ["a", "b"]]
    for x, y in itertools.permutations(nm, 2):
        if tier == "quick" and "a" not in (x, y) and (nm.index(x) + nm.index(y)) % 5:
            continue
        for l in logs:
            yield {"names": [x, y], "log": l}


# stochastic nets: the distributions of the transitions come back, usable
DISTS = [("NORMAL", [2.5, 0.5]), ("NORMAL", [0.0, 1e-7]), ("UNIFORM", [1.0, 3.0]), ("EXPONENTIAL", [0.25]), ("EXPONENTIAL", [4.0]), ("LOGNORMAL", [0.5, 1.0, 2.0]),
         ("GAMMA", [2.0, 0.0, 1.5]), ("DETERMINISTIC", [7.0]), ("DETERMINISTIC", [0.0]), ("IMMEDIATE", [])]


def g_stoch(tier):
    for a in range(len(DISTS)):
        for b in list(range(len(DISTS))) + [None]:
            for w, pr, lab in ((1.0, 1, "a"), (0.25, 0, None), (3.5, 2, "a")):
                yield {"dists": [a, b], "weight": w, "priority": pr, "label": lab}


def r_stoch(c, ctx):
    import random
    import numpy as np
    from pm4py.objects.random_variables.random_variable import RandomVariable
    from pm4py.objects.petri_net.importer.variants import pnml as pimp
    net, im, fm, ps, ts = ref.net_to_pm4py({"n": 3, "trans": [[c["label"], [[0, 1]], [[1, 1]]], ["b", [[1, 1]], [[2, 1]]]], "im": [[0, 1]], "fm": [[2, 1]]})
    want = {}
    for t, k in zip(ts, c["dists"]):
        if k is None:
            continue
        r = RandomVariable()
        r.read_from_string(DISTS[k][0], ";".join(map(str, DISTS[k][1])))
        r.set_weight(c["weight"])
        r.set_priority(c["priority"])
        t.properties[pm_const.STOCHASTIC_DISTRIBUTION] = r
        want[t.name] = (DISTS[k][0], DISTS[k][1], r)
    ctx.step()
    ctx.trace()
    pnml_exporter.apply(net, im, "s.pnml", fm)
    n2, i2, f2, smap = pnml_importer.apply("s.pnml", parameters={pimp.Parameters.RETURN_STOCHASTIC_MAP: True})
    ctx.state(str(c))
    if ref.lang_diff(ref.net_from_pm4py(net, im, fm), ref.net_from_pm4py(n2, i2, f2)) is not None:
        ctx.note("stochastic net has another language after the round trip", case=c)
    got = {t.name: r for t, r in smap.items()}
    if set(got) != set(want):
        ctx.note("stochastic map covers other transitions after the round trip", got=sorted(got), want=sorted(want))
    for t in set(got) & set(want):
        kind, ps, r0 = want[t]
        r = got[t]
        if r.get_distribution_type() != kind or kind != "IMMEDIATE" and [float(x) for x in r.get_distribution_parameters().split(";")] != ps:
            ctx.note("distribution changes in the round trip", want=(kind, ps), got=(r.get_distribution_type(), str(r.get_distribution_parameters())))
        if (r.get_weight(), r.get_priority()) != (c["weight"], c["priority"]):
            ctx.note("weight or priority changes in the round trip", got=(r.get_weight(), r.get_priority()), want=(c["weight"], c["priority"]))
        np.random.seed(3), random.seed(3)
        a = r.get_value()
        np.random.seed(3), random.seed(3)
        import scipy.stats as ss
        ref_v = {"NORMAL": lambda: ss.norm.rvs(*ps), "UNIFORM": lambda: ss.uniform.rvs(*ps), "EXPONENTIAL": lambda: ss.expon.rvs(0, 1 / ps[0]), "LOGNORMAL": lambda: ss.lognorm.rvs(*ps),
                 "GAMMA": lambda: ss.gamma.rvs(*ps), "DETERMINISTIC": lambda: ps[0], "IMMEDIATE": lambda: 0}[kind]()
        if not isinstance(a, (int, float)) or abs(a - ref_v) > 1e-9:
            ctx.note("imported distribution does not draw the values of its parameters", kind=kind, parameters=ps, got=str(a), want=str(ref_v))
    ctx.outcome("stochastic nets")


def families(tier):
    return [("stochastic", g_stoch, r_stoch), ("nets", g_net, r_net), ("trees", g_tree, r_tree), ("powl", g_powl, r_powl), ("bpmn", g_bpmn, r_bpmn), ("dfg", g_dfg, r_dfg),
            ("labels", g_label, r_label), ("discovered", g_disc, r_disc)]
