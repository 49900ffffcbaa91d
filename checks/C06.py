"""C06 workflow-net check and soundness verdicts against explicit state-space exploration."""
import itertools
from mc import ref, gen
from mc.harness import Violation
import pm4py
from pm4py.algo.analysis.woflan import algorithm as woflan
from pm4py.algo.analysis.workflow_net import algorithm as wf_check

CASE_LIMIT = 60
ID, TITLE = "C06", "Workflow-net and soundness verdicts are exact"
BOUNDS = {"quick": "all nets with <=4 places and <=2 transitions, 3 places/3 transitions, 4 places/3 transitions (presets+postsets <=2) incl. empty presets/postsets for the structural "
                   "check; all workflow nets among them plus 4 places/4 transitions and 5 places/4 transitions (small pre/postsets) and arc weight 2 for soundness; visible and silent labels",
          "thorough": "4 places/4 transitions with pre/postsets of 2, 5 places/5 transitions"}


def g_wf(tier):
    yield {"net": {"n": 1, "trans": [], "im": [[0, 1]], "fm": [[0, 1]]}}
    dom = [(2, 1, 2, 2), (2, 2, 2, 2), (3, 2, 2, 2), (3, 3, 1, 2), (3, 3, 2, 1), (4, 2, 2, 2)]
    if tier != "quick":
        dom += [(3, 3, 2, 2), (4, 3, 2, 2)]
    for n, m, a, b in dom:
        for d in gen.nets(n, m, ["a"], maxpre=a, maxpost=b, minpre=0, minpost=0):
            yield {"net": d}


def r_wf(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    exp = ref.is_wf(R)
    ctx.state(nd); ctx.trace()
    ctx.outcome("wf" if exp else "not_wf")
    for naming in ("distinct", "shared"):
        net, im, fm, places, ts = ref.net_to_pm4py(nd)
        if naming == "shared":            # a place and a transition may carry the same name
            for i, p in enumerate(places):
                p.name = "n%d" % i
            for i, t in enumerate(ts):
                t.name = "n%d" % i
        if pm4py.check_is_workflow_net(net) != exp or wf_check.apply(net) != exp:
            raise Violation("workflow-net check answers %s" % (not exp), key=None, net=nd, naming=naming)
        if ref.check_structure(net) or len(net.transitions) != len(nd["trans"]):
            raise Violation("workflow-net check modified the net")
    if not exp:
        for p in (True, False):
            r = woflan.apply(net, im, fm, parameters={"return_asap_when_not_sound": p, "print_diagnostics": False, "return_diagnostics": True})
            if r[0]:
                raise Violation("a net that is not a workflow net is called sound", net=nd)


def g_sound(tier):
    dom = [(2, 2, 2, 2, (1,)), (3, 3, 2, 2, (1,)), (4, 3, 2, 2, (1,)), (3, 2, 2, 2, (1, 2)), (4, 4, 1, 1, (1,))]
    dom += [(4, 2, 3, 3, (1,)), (3, 3, 1, 1, (1, 2))]
    if tier != "quick":
        dom += [(4, 4, 1, 2, (1,)), (4, 4, 2, 1, (1,)), (4, 4, 2, 2, (1,)), (5, 4, 2, 1, (1,)), (5, 4, 1, 2, (1,)), (5, 3, 3, 3, (1,)), (3, 4, 2, 2, (1,))]
    for n, m, a, b, w in dom:
        for d in gen.nets(n, m, ["a"], maxpre=a, maxpost=b, weights=w):
            if wfish(d):
                yield {"net": d}
    # and-split to three branches with joins / choices in the branches, including non-free-choice ones
    for d in blocks(tier):
        yield {"net": d}


def wfish(d):
    """workflow net whose source is the first and whose sink is the last place"""
    if any(p == 0 for t in d["trans"] for p, _ in t[2]) or any(p == d["n"] - 1 for t in d["trans"] for p, _ in t[1]):
        return False
    return ref.is_wf(ref.net_ref(d))


def blocks(tier):
    """0 -s-> X; inner transitions over places 1..5; Y -e-> 6: non-free-choice nets, places that carry two tokens, weighted invariants"""
    inner = [[[1], [3]], [[2], [3]], [[2], [4]], [[3, 5], [4]], [[1], [4]], [[2], [1]], [[1, 2], [3, 4]], [[2, 3], [4, 3]], [[1, 2], [3]], [[3], [1]], [[1], [3, 4]],
             [[3, 4], [1, 2]], [[4], [5]], [[5], [4]]]
    for k in (2, 3) if tier == "quick" else (2, 3, 4, 5):
        for c in itertools.combinations(inner, k):
            for s, e in (([1, 2], [3, 4]), ([1, 2, 5], [3, 4]), ([1, 2, 5], [3, 4, 5]), ([1, 2], [3])):
                tr = [[[0], s]] + list(c) + [[e, [6]]]
                used = sorted(set(p for a, b in tr for p in a + b))
                ix = {p: i for i, p in enumerate(used)}
                d = {"n": len(used), "im": [[0, 1]], "fm": [[len(used) - 1, 1]],
                     "trans": [["a", [[ix[p], 1] for p in a], [[ix[p], 1] for p in b]] for a, b in tr]}
                if wfish(d):
                    yield d


def r_sound(d, ctx):
    nd = d["net"]
    R = ref.net_ref(nd)
    dead = set()
    try:
        exp = ref.sound(R, 400)
        if not exp:
            dead = set(range(len(R.trans))) - {i for _, i, _ in R.graph(400)[1]}
    except ref.Blowup:
        exp = False
        ctx.outcome("unbounded")
    ctx.outcome("sound" if exp else "unsound")
    ctx.state(nd); ctx.trace()
    ctx.step(len(nd["trans"]))
    k = len(nd["trans"])
    labs = [["t%d" % i for i in range(k)], [None] * k] + [["t%d" % i if i != j else None for i in range(k)] for j in range(k)]
    for lab in labs:
        if any(lab[i] is None for i in dead):    # dead silent transitions are deliberately tolerated: no verdict demanded
            continue
        e = dict(nd, trans=[[l] + t[1:] for l, t in zip(lab, nd["trans"])])
        net, im, fm, places, ts = ref.net_to_pm4py(e)
        try:
            r = pm4py.check_soundness(net, im, fm)
            got = bool(r[0])
        except Exception as x:
            raise Violation("soundness check fails with %s" % type(x).__name__, net=e, error=str(x)[:200], exp=exp)
        if got != exp:
            raise Violation("%s workflow net is called %s" % ("sound" if exp else "unsound", "sound" if got else "unsound"), net=e)
        if lab is labs[0]:
            try:
                got = woflan.apply(net, im, fm, parameters={"print_diagnostics": False})
            except Exception as x:
                raise Violation("full soundness diagnosis fails with %s" % type(x).__name__, net=e, error=str(x)[:200], exp=exp)
            if bool(got) != exp:
                raise Violation("full diagnosis: %s workflow net is called %s" % ("sound" if exp else "unsound", "sound" if got else "unsound"), net=e)
        if ref.check_structure(net, im, fm) or len(net.transitions) != k:
            raise Violation("soundness check modified the net")


def families(tier):
    return [("structure", g_wf, r_wf), ("soundness", g_sound, r_sound)]
