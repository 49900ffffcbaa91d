"""Reference models: explicit finite automata for nets, process trees, POWL models and BPMN diagrams.

An automaton is any object with  init() -> state,  succ(state) -> iterable of (label|None, state),
acc(state) -> bool.  States are hashable; None labels are silent.
"""
import itertools
from collections import deque

TAU = None


class Blowup(Exception):
    """State limit exceeded: the reference state space is larger than the stated bound."""


# ---------------------------------------------------------------- nets
def fz(m):
    return tuple(sorted((p, k) for p, k in m.items() if k))


class Net:
    """trans: list of dicts(label, pre{p:w}, post{p:w}, inh[p..], rst[p..]); markings are sorted tuples."""

    def __init__(self, trans, im, fm, places=None):
        self.trans, self.im, self.fm = trans, fz(im), fz(fm)
        ps = set(p for p, _ in self.im) | set(p for p, _ in self.fm)
        for t in trans:
            ps |= set(t["pre"]) | set(t["post"]) | set(t.get("inh", ())) | set(t.get("rst", ()))
        self.places = sorted(ps if places is None else set(places) | ps)

    def enabled(self, m, t):
        d = dict(m)
        return all(d.get(p, 0) >= w for p, w in t["pre"].items()) and all(d.get(p, 0) == 0 for p in t.get("inh", ()))

    def fire(self, m, t):
        d = dict(m)
        for p, w in t["pre"].items():
            d[p] = d.get(p, 0) - w
        for p in t.get("rst", ()):
            d[p] = 0
        for p, w in t["post"].items():
            d[p] = d.get(p, 0) + w
        return fz(d)

    def init(self):
        return self.im

    def succ(self, m):
        for t in self.trans:
            if self.enabled(m, t):
                yield t["label"], self.fire(m, t)

    def acc(self, m):
        return m == self.fm

    def graph(self, limit=5000, bound=None):
        """(states in BFS order, edges [(src, transition index, dst)]); Blowup when > limit states or token > bound."""
        seen = {self.im: 0}
        order, edges, q = [self.im], [], deque([self.im])
        while q:
            m = q.popleft()
            for i, t in enumerate(self.trans):
                if self.enabled(m, t):
                    n = self.fire(m, t)
                    edges.append((m, i, n))
                    if n not in seen:
                        if len(seen) >= limit or (bound is not None and any(k > bound for _, k in n)):
                            raise Blowup()
                        seen[n] = len(seen)
                        order.append(n)
                        q.append(n)
        return order, edges


def net_from_pm4py(net, im, fm):
    from pm4py.objects.petri_net.obj import InhibitorNet, ResetNet
    ps = {p: i for i, p in enumerate(sorted(net.places, key=lambda x: (str(x.name), id(x))))}
    ts = sorted(net.transitions, key=lambda x: (str(x.name), str(x.label), id(x)))
    trans = []
    for t in ts:
        d = {"label": t.label, "pre": {}, "post": {}, "inh": [], "rst": [], "name": t.name}
        trans.append(d)
    ti = {t: i for i, t in enumerate(ts)}
    for a in net.arcs:
        if a.source in ps:
            d = trans[ti[a.target]]
            if isinstance(a, InhibitorNet.InhibitorArc):
                d["inh"].append(ps[a.source])
            elif isinstance(a, ResetNet.ResetArc):
                d["rst"].append(ps[a.source])
            else:
                d["pre"][ps[a.source]] = d["pre"].get(ps[a.source], 0) + a.weight
        else:
            d = trans[ti[a.source]]
            d["post"][ps[a.target]] = d["post"].get(ps[a.target], 0) + a.weight
    n = Net(trans, {ps[p]: k for p, k in im.items()}, {ps[p]: k for p, k in fm.items()}, places=range(len(ps)))
    n.place_objs = {i: p for p, i in ps.items()}
    n.place_index = ps
    n.trans_objs = ts
    return n


def check_structure(net, im=None, fm=None):
    """The arc sets kept at the net, at places and at transitions must agree; None if fine, else text."""
    for a in net.arcs:
        for e in (a.source, a.target):
            if e not in net.places and e not in net.transitions:
                return "arc %r refers to an element that is not in the net" % a
        if a not in a.source.out_arcs or a not in a.target.in_arcs:
            return "arc %r missing at its end points" % a
    for e in list(net.places) + list(net.transitions):
        for a in e.in_arcs:
            if a not in net.arcs:
                return "element %r has an in-arc that is not in the net" % e
            if a.target is not e:
                return "element %r has an in-arc of another element" % e
        for a in e.out_arcs:
            if a not in net.arcs:
                return "element %r has an out-arc that is not in the net" % e
            if a.source is not e:
                return "element %r has an out-arc of another element" % e
    for m in (im, fm):
        if m is not None:
            for p in m:
                if p not in net.places:
                    return "marking refers to a place that is not in the net"
    return None


def net_to_pm4py(desc, cls=None):
    """desc: dict(trans=[[label, pre, post] or [label, pre, post, inh, rst]], im, fm, n) -> (net, im, fm, places, transitions)
    pre/post are lists of [place, weight]."""
    from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetInhibitorNet
    from pm4py.objects.petri_net.utils.petri_utils import add_arc_from_to
    special = any(len(t) > 3 and (t[3] or t[4]) for t in desc["trans"])
    net = (cls or (ResetInhibitorNet if special else PetriNet))("n")
    places = [PetriNet.Place("p%d" % i) for i in range(desc["n"])]
    for p in places:
        net.places.add(p)
    ts = []
    for i, t in enumerate(desc["trans"]):
        o = PetriNet.Transition("t%d" % i, t[0])
        net.transitions.add(o)
        ts.append(o)
        for p, w in t[1]:
            add_arc_from_to(places[p], o, net, weight=w)
        for p, w in t[2]:
            add_arc_from_to(o, places[p], net, weight=w)
        if len(t) > 3:
            for p in t[3]:
                add_arc_from_to(places[p], o, net, type="inhibitor")
            for p in t[4]:
                add_arc_from_to(places[p], o, net, type="reset")
    im, fm = Marking(), Marking()
    for p, k in desc["im"]:
        im[places[p]] = k
    for p, k in desc["fm"]:
        fm[places[p]] = k
    return net, im, fm, places, ts


def net_ref(desc):
    return Net([{"label": t[0], "pre": dict(map(tuple, t[1])), "post": dict(map(tuple, t[2])),
                 "inh": list(t[3]) if len(t) > 3 else [], "rst": list(t[4]) if len(t) > 3 else []}
                for t in desc["trans"]], dict(map(tuple, desc["im"])), dict(map(tuple, desc["fm"])), places=range(desc["n"]))


# ---------------------------------------------------------------- process trees
# tree descriptors: "a" (label), None (tau), or [op, child, ...] with op in "->", "X", "+", "*", "O", "<>"
DONE = ("done",)


def seq(*cs):
    """normalised sequence: finished and nested parts are collapsed, so that loops have finitely many terms"""
    out = []
    for c in cs:
        if c[0] == "->":
            out += c[1:]
        elif c != DONE:
            out.append(c)
    return DONE if not out else out[0] if len(out) == 1 else ("->",) + tuple(out)


class Tree:
    """Term-rewriting semantics of process trees. A term is DONE, a label/None leaf ("lf", x), or (op, ...)."""

    def __init__(self, desc):
        self.t = self.term(desc)
        self._cache = {}

    def term(self, d):
        if d is None or isinstance(d, str):
            return ("lf", d)
        return (d[0],) + tuple(self.term(c) for c in d[1:])

    def init(self):
        return self.t

    def acc(self, t):
        return t == DONE

    def succ(self, t):
        r = self._cache.get(t)
        if r is None:
            r = self._cache[t] = list(self._succ(t))
        return r

    def _succ(self, t):
        k = t[0]
        if k == "done":
            return
        if k == "lf":
            yield t[1], DONE
        elif k == "X":
            for c in t[1:]:
                yield TAU, c
        elif k == "->":
            if len(t) == 1:
                yield TAU, DONE
            else:
                for a, c in self.succ(t[1]):
                    yield a, seq(c, *t[2:])
        elif k == "+":
            if all(c == DONE for c in t[1:]):
                yield TAU, DONE
            for i in range(1, len(t)):
                for a, c in self.succ(t[i]):
                    yield a, t[:i] + (c,) + t[i + 1:]
        elif k == "O":
            cs = t[1:]
            for r in range(1, len(cs) + 1):
                for s in itertools.combinations(cs, r):
                    yield TAU, ("+",) + s
        elif k == "<>":
            if len(t) == 1:
                yield TAU, DONE
            for i in range(1, len(t)):
                yield TAU, seq(t[i], t[:i] + t[i + 1:])
        elif k == "*":
            # do, then exit or (any redo child, then do again)
            yield TAU, seq(t[1], ("*r",) + t[1:])
        elif k == "*r":
            yield TAU, DONE
            for r in t[2:]:
                yield TAU, seq(r, ("*",) + t[1:])
            if len(t) == 2:
                yield TAU, ("*",) + t[1:]
        else:
            raise ValueError(k)


def tree_to_pm4py(d, parent=None):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    if d is None or isinstance(d, str):
        return ProcessTree(label=d, parent=parent)
    ops = {o.value: o for o in Operator}
    n = ProcessTree(operator=ops[d[0]], parent=parent)
    n.children = [tree_to_pm4py(c, n) for c in d[1:]]
    return n


def tree_from_pm4py(t):
    if t.operator is None:
        if t.children:
            raise ValueError("leaf with children")
        return t.label
    return [t.operator.value] + [tree_from_pm4py(c) for c in t.children]


def tree_parents_ok(t):
    return all(c.parent is t and tree_parents_ok(c) for c in t.children)


def tree_labels(d):
    if d is None:
        return []
    if isinstance(d, str):
        return [d]
    return [x for c in d[1:] for x in tree_labels(c)]


# ---------------------------------------------------------------- POWL
# descriptors: "a", None, ["X", ..], ["*", do, redo], ["PO", [children], [[i, j], ...]]
class Powl:
    def __init__(self, d):
        self.t = self.term(d)
        self._cache = {}

    def term(self, d):
        if d is None or isinstance(d, str):
            return ("lf", d)
        if d[0] == "PO":
            return ("PO", tuple(self.term(c) for c in d[1]), tuple(sorted(map(tuple, d[2]))))
        return (d[0],) + tuple(self.term(c) for c in d[1:])

    def init(self):
        return self.t

    def acc(self, t):
        return t == DONE

    def succ(self, t):
        r = self._cache.get(t)
        if r is None:
            r = self._cache[t] = list(self._succ(t))
        return r

    def _succ(self, t):
        k = t[0]
        if k == "lf":
            yield t[1], DONE
        elif k == "X":
            for c in t[1:]:
                yield TAU, c
        elif k == "->":
            if len(t) == 1:
                yield TAU, DONE
            else:
                for a, c in self.succ(t[1]):
                    yield a, seq(c, *t[2:])
        elif k == "*":
            yield TAU, seq(t[1], ("*r",) + t[1:])
        elif k == "*r":
            yield TAU, DONE
            yield TAU, seq(t[2], ("*",) + t[1:])
        elif k == "PO":
            cs, ed = t[1], t[2]
            if all(c == DONE for c in cs):
                yield TAU, DONE
            for i, c in enumerate(cs):
                if c != DONE and all(cs[a] == DONE for a, b in ed if b == i):
                    for x, n in self.succ(c):
                        yield x, ("PO", cs[:i] + (n,) + cs[i + 1:], ed)


def powl_from_pm4py(m):
    from pm4py.objects.powl import obj
    from pm4py.objects.process_tree.obj import Operator
    if isinstance(m, obj.SilentTransition):
        return None
    if isinstance(m, obj.Transition):
        return m.label
    if isinstance(m, obj.StrictPartialOrder):
        ch = list(m.children)
        return ["PO", [powl_from_pm4py(c) for c in ch],
                [[i, j] for i, a in enumerate(ch) for j, b in enumerate(ch) if i != j and m.order.is_edge(a, b)]]
    if m.operator == Operator.XOR:
        return ["X"] + [powl_from_pm4py(c) for c in m.children]
    if m.operator == Operator.LOOP:
        return ["*"] + [powl_from_pm4py(c) for c in m.children]
    raise ValueError(m)


# ---------------------------------------------------------------- finite languages / logs / DFGs
class Words:
    """Automaton of a finite set of words."""

    def __init__(self, words):
        self.w = set(map(tuple, words))
        self.pre = set(w[:i] for w in self.w for i in range(len(w) + 1)) | {()}
        self.sig = sorted(set(x for w in self.w for x in w))

    def init(self):
        return ()

    def succ(self, s):
        for a in self.sig:
            if s + (a,) in self.pre:
                yield a, s + (a,)

    def acc(self, s):
        return s in self.w


class Dfg:
    """start-to-end walks of a directly-follows graph."""

    def __init__(self, dfg, sa, ea):
        self.dfg, self.sa, self.ea = set(dfg), set(sa), set(ea)

    def init(self):
        return ("s",)

    def succ(self, s):
        if s == ("s",):
            for a in sorted(self.sa):
                yield a, ("a", a)
        else:
            for x, y in sorted(self.dfg):
                if x == s[1]:
                    yield y, ("a", y)

    def acc(self, s):
        return len(s) == 2 and s[1] in self.ea


# ---------------------------------------------------------------- generic automaton algorithms
def closure(A, states, limit=20000):
    seen, st = set(states), list(states)
    while st:
        s = st.pop()
        for a, n in A.succ(s):
            if a is None and n not in seen:
                if len(seen) > limit:
                    raise Blowup()
                seen.add(n)
                st.append(n)
    return frozenset(seen)


def after(A, S, x):
    return closure(A, {n for s in S for a, n in A.succ(s) if a == x})


def labels(A, S):
    return {a for s in S for a, n in A.succ(s) if a is not None}


def accepts(A, word):
    S = closure(A, {A.init()})
    for x in word:
        S = after(A, S, x)
        if not S:
            return False
    return any(A.acc(s) for s in S)


def coaccessible(A, limit=20000):
    """all reachable states from which acceptance is possible"""
    seen, q, pred = {A.init()}, deque([A.init()]), {}
    while q:
        s = q.popleft()
        for a, n in A.succ(s):
            pred.setdefault(n, set()).add(s)
            if n not in seen:
                if len(seen) > limit:
                    raise Blowup()
                seen.add(n)
                q.append(n)
    good = {s for s in seen if A.acc(s)}
    st = list(good)
    while st:
        s = st.pop()
        for r in pred.get(s, ()):
            if r not in good:
                good.add(r)
                st.append(r)
    return seen, good


class Trimmed:
    """A restricted to co-accessible states, so that determinised prefixes are prefixes of accepted words."""

    def __init__(self, A, limit=20000):
        self.A = A
        self.all, self.good = coaccessible(A, limit)
        self._c = {}

    def init(self):
        return self.A.init()

    def acc(self, s):
        return self.A.acc(s)

    def succ(self, s):
        r = self._c.get(s)
        if r is None:
            r = self._c[s] = [(a, n) for a, n in self.A.succ(s) if n in self.good]
        return r


def lang_diff(A, B, limit=20000, ctx=None):
    """None if the two automata accept the same words, else (word, in A, in B); exact, for all word lengths."""
    A, B = Trimmed(A, limit), Trimmed(B, limit)
    a0 = closure(A, {A.init()} & A.good) if A.good else frozenset()
    b0 = closure(B, {B.init()} & B.good) if B.good else frozenset()
    seen, q = {(a0, b0)}, deque([(a0, b0, ())])
    while q:
        S, T, w = q.popleft()
        x, y = any(A.acc(s) for s in S), any(B.acc(s) for s in T)
        if x != y:
            return w, x, y
        for l in sorted(labels(A, S) | labels(B, T)):
            n = (after(A, S, l), after(B, T, l))
            if ctx is not None:
                ctx.step()
            if n not in seen:
                if len(seen) > limit:
                    raise Blowup()
                seen.add(n)
                q.append(n + (w + (l,),))
    return None


def included_diff(A, B, limit=20000):
    """None if L(A) is included in L(B), else a word of A not in B."""
    A, B = Trimmed(A, limit), Trimmed(B, limit)
    a0 = closure(A, {A.init()} & A.good) if A.good else frozenset()
    b0 = closure(B, {B.init()} & B.good) if B.good else frozenset()
    seen, q = {(a0, b0)}, deque([(a0, b0, ())])
    while q:
        S, T, w = q.popleft()
        if any(A.acc(s) for s in S) and not any(B.acc(s) for s in T):
            return w
        for l in sorted(labels(A, S)):
            n = (after(A, S, l), after(B, T, l))
            if n not in seen:
                if len(seen) > limit:
                    raise Blowup()
                seen.add(n)
                q.append(n + (w + (l,),))
    return None


def words(A, maxlen, limit=200000):
    """all accepted words of length <= maxlen"""
    A = Trimmed(A)
    out = set()
    if not A.good:
        return out
    q = deque([((), closure(A, {A.init()} & A.good))])
    while q:
        w, S = q.popleft()
        if any(A.acc(s) for s in S):
            out.add(w)
        if len(w) < maxlen:
            for l in sorted(labels(A, S)):
                q.append((w + (l,), after(A, S, l)))
                if len(q) > limit:
                    raise Blowup()
    return out


def sound(net, limit=5000):
    """classical soundness of a workflow net given as Net with im=[source], fm=[sink]. True/False; Blowup if unbounded."""
    order, edges = net.graph(limit)
    pred = {}
    for m, t, n in edges:
        pred.setdefault(n, set()).add(m)
    if net.fm not in set(order):
        return False
    good, st = {net.fm}, [net.fm]
    while st:
        s = st.pop()
        for r in pred.get(s, ()):
            if r not in good:
                good.add(r)
                st.append(r)
    if len(good) != len(order):
        return False
    fmd = dict(net.fm)
    for m in order:
        d = dict(m)
        if m != net.fm and all(d.get(p, 0) >= k for p, k in fmd.items()):
            return False
    return len({t for _, t, _ in edges}) == len(net.trans)


def is_wf(net):
    """structural workflow-net check on a Net"""
    ins = {p: 0 for p in net.places}
    outs = {p: 0 for p in net.places}
    adj, rev = {}, {}
    for i, t in enumerate(net.trans):
        for p in t["pre"]:
            outs[p] += 1
            adj.setdefault(("p", p), set()).add(("t", i)); rev.setdefault(("t", i), set()).add(("p", p))
        for p in t["post"]:
            ins[p] += 1
            adj.setdefault(("t", i), set()).add(("p", p)); rev.setdefault(("p", p), set()).add(("t", i))
    src = [p for p in net.places if not ins[p]]
    snk = [p for p in net.places if not outs[p]]
    if len(src) != 1 or len(snk) != 1:
        return False

    def reach(a, g):
        s, st = {a}, [a]
        while st:
            for y in g.get(st.pop(), ()):
                if y not in s:
                    s.add(y); st.append(y)
        return s
    n = len(net.places) + len(net.trans)
    return len(reach(("p", src[0]), adj)) == n and len(reach(("p", snk[0]), rev)) == n


# ---------------------------------------------------------------- BPMN
# desc: {"nodes": [[kind, label]], "flows": [[i, j]]}, kind in start, end, task, xor, and, or
class Bpmn:
    """Token game: tokens live on flows. xor/task: any incoming token, one outgoing flow (tasks have at most one);
    and: one token from every incoming flow, one to every outgoing; or: split over any non-empty subset, join when no
    further token can arrive. A run is complete when exactly one end event has fired and no token is left."""

    def __init__(self, desc):
        self.nodes, self.flows = desc["nodes"], [tuple(f) for f in desc["flows"]]
        self.inn = {i: [k for k, f in enumerate(self.flows) if f[1] == i] for i in range(len(self.nodes))}
        self.out = {i: [k for k, f in enumerate(self.flows) if f[0] == i] for i in range(len(self.nodes))}
        self._c = {}

    def init(self):
        st = {}
        for i, n in enumerate(self.nodes):
            if n[0] == "start":
                st[("s", i)] = 1
        return fz2(st)

    def acc(self, s):
        return s == ((("e",), 1),)

    def succ(self, s):
        r = self._c.get(s)
        if r is None:
            r = self._c[s] = list(self._succ(dict(s)))
        return r

    def _upd(self, d, minus, plus):
        e = dict(d)
        for k in minus:
            e[k] -= 1
        for k in plus:
            e[k] = e.get(k, 0) + 1
        return fz2({k: v for k, v in e.items() if v})

    def _succ(self, d):
        for i, (kind, label) in enumerate(self.nodes):
            inn = [("f", k) for k in self.inn[i]]
            out = [("f", k) for k in self.out[i]]
            have = [k for k in inn if d.get(k)]
            if kind == "start":
                if d.get(("s", i)):
                    for o in out:
                        yield TAU, self._upd(d, [("s", i)], [o])
            elif kind == "end":
                for k in have:
                    yield TAU, self._upd(d, [k], [("e",)])
            elif kind in ("task", "xor"):
                for k in have:
                    for o in out:
                        yield (label if kind == "task" else TAU), self._upd(d, [k], [o])
            elif kind == "and":
                if inn and len(have) == len(inn):
                    yield TAU, self._upd(d, inn, out)
            elif kind == "or":
                if have:
                    ok = True
                    if len(have) < len(inn):
                        empty = [k for k in inn if k not in have]
                        ok = not self._arrives(d, i, empty, have)
                    if ok:
                        for r in range(1, len(out) + 1):
                            for sub in itertools.combinations(out, r):
                                yield TAU, self._upd(d, have, sub)
            else:
                raise ValueError(kind)

    def _arrives(self, d, join, empty, have):
        """can some token elsewhere reach one of the empty incoming flows without passing the join itself"""
        st = [k for k in d if k[0] == "f" and d[k] and k not in have] + [k for k in d if k[0] == "s"]
        seen = set(st)
        while st:
            k = st.pop()
            if k in empty:
                return True
            node = k[1] if k[0] == "s" else self.flows[k[1]][1]
            if node == join:
                continue
            for o in self.out[node]:
                if ("f", o) not in seen:
                    seen.add(("f", o)); st.append(("f", o))
        return False


def fz2(d):
    return tuple(sorted(d.items()))


def bpmn_from_pm4py(g):
    from pm4py.objects.bpmn.obj import BPMN
    ns = list(g.get_nodes())
    ns.sort(key=lambda n: str(n.get_id()))
    idx = {n: i for i, n in enumerate(ns)}
    nodes = []
    for n in ns:
        if isinstance(n, BPMN.StartEvent):
            nodes.append(["start", None])
        elif isinstance(n, BPMN.EndEvent):
            nodes.append(["end", None])
        elif isinstance(n, BPMN.Task):
            nodes.append(["task", n.get_name() or None])
        elif isinstance(n, BPMN.ExclusiveGateway):
            nodes.append(["xor", None])
        elif isinstance(n, BPMN.ParallelGateway):
            nodes.append(["and", None])
        elif isinstance(n, BPMN.InclusiveGateway):
            nodes.append(["or", None])
        else:
            raise ValueError(n)
    return {"nodes": nodes, "flows": sorted([idx[f.get_source()], idx[f.get_target()]] for f in g.get_flows() if isinstance(f, BPMN.SequenceFlow))}


def bpmn_to_pm4py(desc):
    from pm4py.objects.bpmn.obj import BPMN
    g = BPMN()
    mk = {"start": lambda l: BPMN.StartEvent(name="start", isInterrupting=True), "end": lambda l: BPMN.NormalEndEvent(name="end"),
          "task": lambda l: BPMN.Task(name=l), "xor": lambda l: BPMN.ExclusiveGateway(name=""), "and": lambda l: BPMN.ParallelGateway(name=""),
          "or": lambda l: BPMN.InclusiveGateway(name="")}
    ns = [mk[k](l) for k, l in desc["nodes"]]
    for n in ns:
        g.add_node(n)
    for i, j in desc["flows"]:
        g.add_flow(BPMN.SequenceFlow(ns[i], ns[j]))
    return g


def bpmn_structure(g):
    """flows kept at the diagram and at the nodes agree; None if fine"""
    ns = set(g.get_nodes())
    for f in g.get_flows():
        if f.get_source() not in ns or f.get_target() not in ns:
            return "flow refers to a node that is not in the diagram"
        if f not in f.get_source().get_out_arcs() or f not in f.get_target().get_in_arcs():
            return "flow missing at its end points"
    fl = set(g.get_flows())
    for n in ns:
        for f in n.get_in_arcs() + n.get_out_arcs():
            if f not in fl:
                return "node has a flow that is not in the diagram"
    return None


def powl_to_pm4py(d):
    from pm4py.objects.powl.obj import StrictPartialOrder, OperatorPOWL, Transition, SilentTransition
    from pm4py.objects.process_tree.obj import Operator
    if d is None:
        return SilentTransition()
    if isinstance(d, str):
        return Transition(d)
    if d[0] == "PO":
        ch = [powl_to_pm4py(c) for c in d[1]]
        p = StrictPartialOrder(ch)
        for i, j in d[2]:
            p.order.add_edge(ch[i], ch[j])
        return p
    return OperatorPOWL(Operator.XOR if d[0] == "X" else Operator.LOOP, [powl_to_pm4py(c) for c in d[1:]])
