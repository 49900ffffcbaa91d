"""C25 rule filters (LTL, four eyes, repetitions) against the formula: every small log x every parameter x both representations."""
import itertools, os, datetime as dtm
from mc import gen
from mc.harness import Violation
import pm4py
from pm4py.algo.filtering.log.ltl import ltl_checker as lltl
from pm4py.algo.filtering.pandas.ltl import ltl_checker as pltl
from pm4py.algo.filtering.log.attr_value_repetition import filter as lrep
from pm4py.algo.filtering.pandas.attr_value_repetition import filter as prep
from pm4py.objects.log.obj import EventLog
from checks.C24 import Obj, check, cases_where
from checks.C23 import T0, TS

ID, TITLE = "C25", "LTL-style and four-eyes filters follow their formula"
BOUNDS = {"quick": "all pairs of cases of length <=4 over two activities plus a third one x all chains of 1..3 (4) activities, with all gap intervals over cases of 3 events at 0..3 h; all cases of <=4 events over two activities and {no, r1, r2} resources x both forms",
          "thorough": "cases of length 5, chains of 4 with gaps, 5 events with resources"}
ASSUMPTIONS = ["four-eyes forms are about the cases in which both activities are performed by a known resource (docstring); the positive form keeps the cases with disjoint resources",
               "rows of a case in time order; dataframes also with interleaved cases and other row labels"]
BUDGET = {"quick": 320, "thorough": 850}
R = "org:resource"
TIER = os.environ.get("VERIF_TIER", "quick")


def mod(x, l, p):
    return l if isinstance(x, EventLog) else p


def chains(word, ch, ok=lambda i, k, j: True):
    def go(k, last):
        if k == len(ch):
            return True
        return any(word[j] == ch[k] and (k == 0 or ok(last, k, j)) and go(k + 1, j) for j in range(last + 1, len(word)))
    return go(0, -1)


def chain_gen(tier):
    words = ["".join(w) for w in gen.traces("ab", 4 if tier == "quick" else 5, 1)]
    three = ["".join(w) for w in itertools.product("abc", repeat=4)]
    for i in range(0, len(three), 2 if tier != "quick" else 6):
        yield three[i:i + 2] + ["c"]
    for i, w in enumerate(words):
        yield [w, words[(i * 7 + 3) % len(words)]]
    for w in words:
        if len(w) <= (1 if tier == "quick" else 2):
            for v in words:
                yield [w, v]


def chain_run(L, ctx):
    ctx.state(L)
    o = Obj([({}, [(a, j * 0.5 + i, {}) for i, a in enumerate(w)]) for j, w in enumerate(L)])
    W = {c: [e[1] for e in evs] for c, evs in o.cases.items()}
    al = "abc" if any("c" in w for w in L) else "ab"
    M = len(al) + 1 if al == "ab" else 3
    for ch in (list(c) for m in range(1, M + 1) for c in itertools.product(al, repeat=m)):
        for r in (True, False):
            check(ctx, o, "eventually(%s,%s)" % (ch, r), lambda x: mod(x, lltl, pltl).eventually_follows(x, ch, parameters={mod(x, lltl, pltl).Parameters.POSITIVE: r}), cases_where(o, lambda c, e: chains(W[c], ch) == r))
            if len(ch) == 2:
                check(ctx, o, "eventually follows relation(%s,%s)" % (ch, r), lambda x: pm4py.filter_eventually_follows_relation(x, [tuple(ch)], retain=r), cases_where(o, lambda c, e: chains(W[c], ch) == r))
            if len(ch) == 3:
                check(ctx, o, "next(%s,%s)" % (ch, r), lambda x: mod(x, lltl, pltl).A_next_B_next_C(x, *ch, parameters={mod(x, lltl, pltl).Parameters.POSITIVE: r}),
                      cases_where(o, lambda c, e: any(W[c][i:i + 3] == ch for i in range(len(e) - 2)) == r))
    for a in al + "z":
        for lo, hi in [(0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, None), (None, 2), (None, None), (3, 9), (2, 1)]:
            lo_, hi_ = 2 if lo is None else lo, 99 if hi is None else hi

            def call(x):
                m = mod(x, lrep, prep)
                return m.apply(x, a, parameters={**({} if lo is None else {m.Parameters.MIN_REP: lo}), **({} if hi is None else {m.Parameters.MAX_REP: hi})})
            check(ctx, o, "repetition(%s,%s,%s)" % (a, lo, hi), call, cases_where(o, lambda c, e: lo_ <= W[c].count(a) <= hi_))
    o.unchanged()
    ctx.outcome("chains")


def gap_gen(tier):
    for w in itertools.product("ab", repeat=3):
        for ts in itertools.combinations_with_replacement(range(3), 3):
            if tier != "quick" or ts[0] == 0:
                yield ["".join(w), list(ts)]
    for w in itertools.product("ab", repeat=4):
        for ts in itertools.combinations_with_replacement(range(4), 4) if tier != "quick" else ([0, 0, 1, 3],):
            yield ["".join(w), list(ts)]


def gap_run(case, ctx):
    ctx.state(case)
    w, ts = case
    o = Obj([({}, [(a, t, {}) for a, t in zip(w, ts)]), ({}, [("b", 0, {}), ("a", 1, {})])], TIER != "quick" or sum(ts) % 3 == 1)
    W = {c: [e[1] for e in evs] for c, evs in o.cases.items()}
    H = {c: [(e[2] - T0).total_seconds() for e in evs] for c, evs in o.cases.items()}
    ivs = [(0, 0), (0, 3600), (3600, 3600), (1, 7200), (7200, 1e9), (0, 1e9)]
    for n in (2, 3):
        for ch in (list(c) for c in itertools.product("ab", repeat=n)):
            for bs in itertools.product(ivs if n == 2 else [ivs[0], ivs[1], ivs[3]], repeat=n - 1):
                want = cases_where(o, lambda c, e: chains(W[c], ch, lambda i, k, j: bs[k - 1][0] <= H[c][j] - H[c][i] <= bs[k - 1][1]))
                neg = {c: [e[0] for e in evs] for c, evs in o.cases.items() if c not in want}
                for r, en in ((True, None), (False, None), (True, True), (True, False))[:2 if n == 3 and TIER == "quick" else 4]:
                    if n == 3 and (en is not None or ch[0] != w[0] and TIER == "quick") and bs[0] != bs[1]:
                        continue
                    exp = cases_where(o, lambda c, e: chains(W[c], ch)) if en is False else want if r else neg

                    def call(x):
                        P = mod(x, lltl, pltl).Parameters
                        return mod(x, lltl, pltl).eventually_follows(x, ch, parameters={P.POSITIVE: r, P.TIMESTAMP_DIFF_BOUNDARIES: list(bs), **({} if en is None else {P.ENABLE_TIMESTAMP: en})})
                    check(ctx, o, "eventually within gaps(%s,%s,%s,%s)" % (ch, bs, r, en), call, exp)
    o.unchanged()
    ctx.outcome("gaps")


def eyes_gen(tier):
    ev = [a + r for a in "ab" for r in "012"]
    for n in range(1, 4):
        for c in itertools.product(ev, repeat=n):
            if any(x[1] != "0" for x in c):
                yield list(c)
    for n in (4, 5) if tier != "quick" else (4,):
        for c in itertools.product(ev, repeat=n):
            k = [x[1] for x in c if x[1] != "0"]
            if k and k[0] == "1" and (n == 4 or c[0][0] == "a") and c.count("a0") + c.count("b0") <= 1:
                yield list(c)


def eyes_run(case, ctx):
    ctx.state(case)
    o = Obj([({}, [(x[0], i, {R: "r" + x[1]} if x[1] != "0" else {}) for i, x in enumerate(case)]), ({}, [("a", 0.5, {R: "r1"}), ("b", 1.5, {R: "r2"})])])
    res = {c: {a: {e[3][R] for e in evs if e[1] == a and R in e[3]} for a in "abz"} for c, evs in o.cases.items()}
    for A, B in ("ab", "ba", "aa", "az"):
        both = lambda c: res[c][A] and res[c][B]
        for r in (True, False):
            want = cases_where(o, lambda c, e: bool(both(c)) and (not (res[c][A] & res[c][B])) == r)
            check(ctx, o, "four eyes(%s,%s,%s)" % (A, B, r), lambda x: mod(x, lltl, pltl).four_eyes_principle(x, A, B, parameters={mod(x, lltl, pltl).Parameters.POSITIVE: r}), want)
            if r:
                check(ctx, o, "four eyes principle(%s,%s)" % (A, B), lambda x: pm4py.filter_four_eyes_principle(x, A, B), want)
    for A in "abz":
        for r in (True, False):
            want = cases_where(o, lambda c, e: (len(res[c][A]) > 1) == r)
            check(ctx, o, "different persons(%s,%s)" % (A, r), lambda x: mod(x, lltl, pltl).attr_value_different_persons(x, A, parameters={mod(x, lltl, pltl).Parameters.POSITIVE: r}), want)
            if r:
                check(ctx, o, "different resources(%s)" % A, lambda x: pm4py.filter_activity_done_different_resources(x, A), want)
    o.unchanged()
    ctx.outcome("resources")


def families(tier):
    return [("chains", chain_gen, chain_run), ("time gaps", gap_gen, gap_run), ("resources", eyes_gen, eyes_run)]
