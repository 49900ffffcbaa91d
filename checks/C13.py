"""C13 DECLARE: template semantics as finite automata; discovery counts and conformance deviations compared exhaustively."""
import itertools
from mc import gen
from mc.harness import Violation
import pm4py
from pm4py.algo.discovery.declare import algorithm as decl
from checks.C09 import mk_log, mk_df

ID, TITLE = "C13", "DECLARE discovery and conformance follow the template semantics"
BOUNDS = {"quick": "conformance: all traces of length <=5 over {a,b,c} against all 18 templates over all ordered pairs (all at once, each template alone, pairs of templates); discovery: all logs of 1..2 traces of length <=3 over {a,b,c} and of "
                   "3 traces over {a,b}, threshold pairs, template subsets, considered activities, automatic thresholds; event logs and dataframes",
          "thorough": "traces <=7, logs of 3 traces over 3 activities"}
ASSUMPTIONS = ["a case supports a constraint when it contains its activating activity (A for responded existence and the response and negative succession families, B for the precedence family, either for (non-)coexistence and the succession family; "
               "every case for existence, absence, exactly one and init)"]
BUDGET = {"quick": 300, "thorough": 800}
UN = ["existence", "absence", "exactly_one", "init"]
BI = ["responded_existence", "response", "precedence", "succession", "altresponse", "altprecedence", "altsuccession", "chainresponse", "chainprecedence", "chainsuccession", "coexistence", "noncoexistence", "nonsuccession", "nonchainsuccession"]


def run(init, step, acc, w):
    s = init
    for x in w:
        s = step(s, x)
        if s == "dead":
            return False
    return acc(s)


def ev(a):
    return lambda w: run(0, lambda s, x: 1 if x == a else s, lambda s: s == 1, w)


# each template is an automaton over the projected letters: A, B, other
def L(x, a, b):
    return "A" if x == a else "B" if x == b else "o"


AUT = {
    # (initial, transitions {(state, letter): state}, accepting); missing transition = stay, target None = dead
    "response": ("i", {("i", "A"): "p", ("p", "B"): "i"}, {"i"}),
    "precedence": ("i", {("i", "A"): "s", ("i", "B"): None}, {"i", "s"}),
    "altresponse": ("i", {("i", "A"): "p", ("p", "A"): None, ("p", "B"): "i"}, {"i"}),
    "altprecedence": ("i", {("i", "A"): "s", ("i", "B"): None, ("s", "B"): "i"}, {"i", "s"}),
    "chainresponse": ("i", {("i", "A"): "p", ("p", "A"): None, ("p", "o"): None, ("p", "B"): "i"}, {"i"}),
    "chainprecedence": ("i", {("i", "A"): "s", ("i", "B"): None, ("s", "B"): "i", ("s", "o"): "i"}, {"i", "s"}),
    "nonsuccession": ("i", {("i", "A"): "s", ("s", "B"): None}, {"i", "s"}),
    "nonchainsuccession": ("i", {("i", "A"): "s", ("s", "B"): None, ("s", "o"): "i"}, {"i", "s"}),
    "responded_existence": ("i", {("i", "A"): "p", ("i", "B"): "b", ("p", "B"): "b"}, {"i", "b"}),
    "noncoexistence": ("i", {("i", "A"): "a", ("i", "B"): "b", ("a", "B"): None, ("b", "A"): None}, {"i", "a", "b"}),
}
CONJ = {"succession": ("response", "precedence"), "altsuccession": ("altresponse", "altprecedence"), "chainsuccession": ("chainresponse", "chainprecedence")}


def holds(t, key, w):
    if t == "existence":
        return key in w
    if t == "absence":
        return key not in w
    if t == "exactly_one":
        return list(w).count(key) == 1
    if t == "init":
        return bool(w) and w[0] == key
    a, b = key
    if t == "coexistence":
        return (a in w) == (b in w)
    if t in CONJ:
        return all(holds(x, key, w) for x in CONJ[t])
    s, tr, acc = AUT[t]
    for x in w:
        s = tr.get((s, L(x, a, b)), s)
        if s is None:
            return False
    return s in acc


def active(t, key, w):
    if t in UN:
        return True
    a, b = key
    if t in ("precedence", "altprecedence", "chainprecedence"):
        return b in w
    if t in ("succession", "altsuccession", "chainsuccession", "coexistence", "noncoexistence"):
        return a in w or b in w
    return a in w


def norm(k):
    return k if isinstance(k, str) else tuple(k)


def keys(t, acts):
    return sorted(acts) if t in UN else [p for p in itertools.permutations(sorted(acts), 2)]


def check_conf(log, L_, model, ctx, **kw):
    n = sum(len(v) for v in model.values())
    res = pm4py.conformance_declare(log, model)
    if len(res) != len(L_):
        raise Violation("DECLARE conformance: wrong number of results", **kw)
    for w, r in zip(L_, res):
        ctx.trace()
        exp = sorted((t, norm(k)) for t in model for k in model[t] if not holds(t, k, w))
        got = sorted((x[0], norm(x[1])) for x in r["deviations"])
        if got != exp:
            d1, d2 = [x for x in got if x not in exp], [x for x in exp if x not in got]
            raise Violation("DECLARE conformance: deviations differ from the violated constraints", key=str(sorted({x[0] for x in d1 + d2}) or "duplicates"), trace=w, spurious=d1, missing=d2, **kw)
        if r["no_dev_total"] != len(exp) or r["no_constr_total"] != n or bool(r["is_fit"]) != (not exp):
            raise Violation("DECLARE conformance: totals are wrong", trace=w, reported=str(r), **kw)
        f = 1 - len(exp) / n if n else 1.0
        if abs(r["dev_fitness"] - f) > 1e-9:
            raise Violation("DECLARE conformance: fitness is wrong", trace=w, reported=r["dev_fitness"], expected=f, **kw)
        ctx.outcome("fit" if not exp else "deviating")
    return res


def r_conf(d, ctx):
    ctx.state(d)
    model = {t: {tuple(k) if isinstance(k, list) else k: {"support": 1, "confidence": 1} for k in ks} for t, ks in d["model"].items()}
    Ls = d["logs"]
    res = check_conf(mk_log(Ls), Ls, model, ctx, constraints=str(sorted(model)))
    if all(Ls):
        check_conf(mk_df(Ls), Ls, model, ctx, constraints=str(sorted(model)))
        df = pm4py.conformance_declare(mk_df(Ls), model, return_diagnostics_dataframe=True)
        if [(a, b, c) for a, b, c in zip(df["no_dev_total"], df["no_constr_total"], df["dev_fitness"])] != [(r["no_dev_total"], r["no_constr_total"], r["dev_fitness"]) for r in res] or list(df["case_id"]) != ["c%03d" % i for i in range(len(Ls))]:
            raise Violation("DECLARE conformance: diagnostics dataframe disagrees with the results", log=Ls)


def expected(L_, acts, templates):
    out = {}
    proj = [[x for x in w if x in acts] for w in L_]
    for t in templates:
        for k in keys(t, acts):
            sup = [w for w in proj if active(t, k, w)]
            if sup:
                out[(t, k)] = (len(sup), sum(1 for w in sup if holds(t, k, w)))
    return out


def flat(m):
    return {(t, norm(k)): (v["support"], v["confidence"]) for t in m for k, v in m[t].items()}


def r_disc(L_, ctx):
    ctx.state(L_)
    acts = {x for w in L_ for x in w}
    ALL = [t for t in UN + BI if not t.startswith("non")]  # the negative templates are only discovered on request
    log = mk_log(L_)
    objs = [("log", log)] + ([("dataframe", mk_df(L_))] if all(L_) else [])
    n = len(L_)
    full, full2 = expected(L_, acts, ALL), expected(L_, acts, UN + BI)
    for on, obj in objs:
        for s, c, T in ((0, 0, None), (0.5, 0.5, None), (0.34, 0.9, None), (1.0, 1.0, None), (0.0, 1.0, None), (0.0, 1.0, set(UN + BI)), (0.5, 0.5, set(UN + BI))):
            ctx.trace()
            got = flat(pm4py.discover_declare(obj, min_support_ratio=s, min_confidence_ratio=c, allowed_templates=T))
            exp = {k: v for k, v in (full if T is None else full2).items() if v[0] >= n * s and v[1] >= v[0] * c and v[1] > 0}
            if got != exp:
                bad = sorted({k for k in set(got) | set(exp) if got.get(k) != exp.get(k)}, key=str)
                raise Violation("DECLARE discovery: the discovered constraints (with support and confidence) are not those the template semantics gives", key=str(sorted({k[0] for k in bad})), log=L_, thresholds=[s, c],
                                differences=[[str(k), "reported %s" % (got.get(k),), "expected %s" % (exp.get(k),)] for k in bad[:6]])
            ctx.outcome("constraints" if got else "no constraint")
            if c == 1.0:
                m = pm4py.discover_declare(obj, min_support_ratio=s, min_confidence_ratio=c, allowed_templates=T)
                for w, r in zip(L_, pm4py.conformance_declare(obj, m)):
                    if not r["is_fit"]:
                        raise Violation("a DECLARE model discovered with full confidence is violated by its own log", log=L_, trace=w, deviations=str(r["deviations"]))
        # automatic thresholds
        got = flat(pm4py.discover_declare(obj))
        ps = {k: v[0] / n * v[1] / v[0] for k, v in full.items()}
        if ps:
            best = max(ps.values())
            ok = False
            for k in {full[k] for k in ps if abs(ps[k] - best) < 1e-12}:
                s, c = k[0] / n * 0.8, k[1] / k[0] * 0.8
                ok = ok or got == {q: v for q, v in full.items() if v[0] >= n * s and v[1] >= v[0] * c and v[1] > 0}
            if not ok:
                raise Violation("DECLARE discovery with automatic thresholds: result differs from every admissible choice", log=L_, reported=str(sorted(got, key=str))[:300])
        for s, c in ((0.5, None), (None, 0.5)):
            got = pm4py.discover_declare(obj, min_support_ratio=s, min_confidence_ratio=c)
            if any((s is not None and v[0] < n * s) or (c is not None and v[1] < v[0] * c) or full.get(k) != v for k, v in flat(got).items()):
                raise Violation("DECLARE discovery with one threshold: reported constraints do not meet it", log=L_)


SUBSETS = [["absence"], ["succession"], ["response", "precedence"], ["coexistence", "existence"], ["nonsuccession"], ["chainsuccession", "init"], ["noncoexistence"], ["altsuccession", "altresponse"], ["nonchainsuccession", "exactly_one"], ["existence", "absence"]]


def r_opt(L_, ctx):
    ctx.state(L_)
    acts = {x for w in L_ for x in w}
    log = mk_log(L_)
    for T in SUBSETS:
        for ca in (None, {"a", "b"}, {"b"}):
            ctx.trace()
            got = flat(pm4py.discover_declare(log, allowed_templates=set(T), considered_activities=ca, min_support_ratio=0.5, min_confidence_ratio=0.5))
            full = expected(L_, acts if ca is None else ca, T)
            exp = {k: v for k, v in full.items() if v[0] >= len(L_) * 0.5 and v[1] >= v[0] * 0.5 and v[1] > 0}
            if got != exp:
                raise Violation("DECLARE discovery restricted to templates / activities gives other constraints", key=str(T), log=L_, templates=T, activities=str(ca), reported=str(got), expected=str(exp))
            ctx.outcome("restricted: %s" % ("some" if got else "none"))


def g_conf(tier):
    acts = "abc"
    ts = list(gen.traces(acts, 5 if tier == "quick" else 7)) + [["d"], ["a", "d", "b"], ["a", "d"], ["d", "b"]]
    models = [{t: keys(t, acts) for t in UN + BI}]
    models += [{t: keys(t, acts)} for t in UN + BI]
    models += [{}, {"response": [("a", "b")], "altresponse": [("b", "a")]}, {"altresponse": [("a", "b")]}, {"noncoexistence": [("a", "b")], "existence": ["c"]}]
    for m in models:
        for i in range(0, len(ts), 120):
            yield {"model": m, "logs": ts[i:i + 120]}


def g_disc(tier):
    for n in (1, 2):
        yield from gen.logs("abc", 3, n, minlen=0)
    yield from gen.logs("ab", 3, 3, minlen=1)
    for w in gen.traces("ab", 5, 4):
        yield [w]
    if tier == "thorough":
        yield from gen.logs("abc", 3, 3, minlen=1)


def g_opt(tier):
    for n in (1, 2):
        for k, x in enumerate(gen.logs("abc", 3, n, minlen=1)):
            if n == 1 or tier == "thorough" or k % 3 == 0:
                yield x


def families(tier):
    return [("conformance", g_conf, r_conf), ("discovery", g_disc, r_disc), ("options", g_opt, r_opt)]
