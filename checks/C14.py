"""C14 Log skeleton: relations and noise by their definitions over every activity instance; conformance of every trace."""
import itertools
from fractions import Fraction
from mc import gen
from mc.harness import Violation
import pm4py
from checks.C09 import mk_log, mk_df

ID, TITLE = "C14", "Log-skeleton discovery and conformance follow the definitions"
BOUNDS = {"quick": "discovery: all logs of 1..2 traces of length <=3 over {a,b,c}, 3 traces of length <=3, 2 traces of length <=4 and 4 of length <=3 over {a,b}, noise 0, 0.2, 0.34, 0.5; conformance: every trace of length <=4 over {a,b,c,d} against the skeletons of a family of logs and against every single relation; "
                   "event logs and dataframes", "thorough": "traces of length 4 and logs of 4 traces over 3 activities; conformance of traces of length 5"}
ASSUMPTIONS = ["a relation (a,b) is about the instances of a: it holds when at least a share (1-noise) of the instances of a satisfy it (always after: followed by a b; always before; directly follows; equivalence: in a case with as many b as a; "
               "never together: in a case without b); ties among equally frequent occurrence counts may be cut either way"]
BUDGET = {"quick": 300, "thorough": 800}
REL = ["equivalence", "always_after", "always_before", "never_together", "directly_follows"]


def good(rel, a, b, w, i):
    """does instance i (an a) of trace w satisfy rel(a,b)?"""
    if rel == "equivalence":
        return w.count(a) == w.count(b)
    if rel == "always_after":
        return b in w[i + 1:]
    if rel == "always_before":
        return b in w[:i]
    if rel == "never_together":
        return b not in w
    return i + 1 < len(w) and w[i + 1] == b


def expect(L, noise):
    acts = sorted({x for w in L for x in w})
    out = {}
    for rel in REL:
        out[rel] = set()
        for a in acts:
            for b in acts:
                if a == b and rel in ("equivalence", "never_together"):
                    continue
                tot = sum(w.count(a) for w in L)
                ok = sum(1 for w in L for i, x in enumerate(w) if x == a and good(rel, a, b, w, i))
                if ok >= 1 and ok >= tot * (1 - noise):
                    out[rel].add((a, b))
    return out, acts


def r_disc(L, ctx):
    ctx.state(L)
    objs = [("log", mk_log(L))] + ([("dataframe", mk_df(L))] if all(L) else [])
    for on, obj in objs:
        for noise in (0.0, 0.2, 0.34, 0.5):
            ctx.trace()
            sk = pm4py.discover_log_skeleton(obj, noise_threshold=noise)
            exp, acts = expect(L, noise)
            for rel in REL:
                if set(sk[rel]) != exp[rel]:
                    raise Violation("log skeleton: %s relation is wrong%s" % (rel, " (with noise)" if noise else ""), log=L, noise=noise, kind=on, spurious=sorted(set(sk[rel]) - exp[rel]), missing=sorted(exp[rel] - set(sk[rel])))
            if set(sk["activ_freq"]) != set(acts):
                raise Violation("log skeleton: activity frequencies are about other activities", log=L)
            for a in acts:
                got = set(sk["activ_freq"][a])
                cnt = {}
                for w in L:
                    cnt[w.count(a)] = cnt.get(w.count(a), 0) + 1
                need = (1 - noise) * len(L)
                vals = sorted(cnt.values(), reverse=True)
                k = next(i + 1 for i in range(len(vals)) if sum(vals[:i + 1]) >= need)
                if not got <= set(cnt) or sorted((cnt[x] for x in got), reverse=True) != vals[:k]:
                    raise Violation("log skeleton: activity frequency set is wrong%s" % (" (with noise)" if noise else ""), log=L, noise=noise, activity=a, reported=sorted(got), counts=cnt, kind=on)
            if noise == 0:
                for w, r in zip(L, pm4py.conformance_log_skeleton(obj, sk)):
                    if not r["is_fit"] or r["no_dev_total"] or r["dev_fitness"] != 1.0:
                        raise Violation("a case does not conform to the noise-free skeleton of its own log", log=L, trace=w, result=str(r))
            ctx.outcome("noise %s: %s" % (noise, "relations" if any(exp.values()) else "none"))


def conf(sk, w):
    dev, tot = set(), 0
    for rel in REL:
        for a, b in sk.get(rel, ()):
            if a in w:
                tot += 1
                if not all(good(rel, a, b, w, i) for i, x in enumerate(w) if x == a):
                    dev.add((rel, a, b))
    fr = sk.get("activ_freq")
    if fr is not None:
        for a in set(w):
            tot += 1
            if a not in fr:
                dev.add(("activ_freq", a, 0))
            elif w.count(a) not in fr[a]:
                dev.add(("activ_freq", a, w.count(a)))
        for a in fr:
            if a not in w and min(fr[a]) > 0:
                tot += 1
                dev.add(("activ_freq", a, 0))
    return dev, tot


def r_conf(d, ctx):
    ctx.state(d)
    if "src" in d:
        sk = pm4py.discover_log_skeleton(mk_log(d["src"]), noise_threshold=0.0)
    else:
        sk = {k: set() for k in REL}
        sk["activ_freq"] = {}
        for k, v in d["sk"].items():
            sk[k] = {tuple(x) for x in v} if k != "activ_freq" else {a: set(s) for a, s in v.items()}
    Ls = d["logs"]
    objs = [("log", mk_log(Ls))] + ([("dataframe", mk_df(Ls))] if all(Ls) else [])
    for on, obj in objs:
        res = pm4py.conformance_log_skeleton(obj, sk)
        if len(res) != len(Ls):
            raise Violation("log skeleton conformance: wrong number of results")
        for w, r in zip(Ls, res):
            ctx.trace()
            dev, tot = conf(sk, w)
            got = set()
            for k, v in r["deviations"]:
                if k == "activ_freq":
                    got.add((k,) + tuple(v))
                else:
                    got |= {(k,) + tuple(x) for x in v}
            if got != dev:
                raise Violation("log skeleton conformance: deviations are not the violated relations", key=str(sorted({x[0] for x in got ^ dev})), trace=w, spurious=sorted(map(str, got - dev)), missing=sorted(map(str, dev - got)), skeleton=str(sk), kind=on)
            if bool(r["is_fit"]) != (not dev) or r["no_dev_total"] != len(dev) or r["no_constr_total"] != tot or abs(r["dev_fitness"] - (1 - len(dev) / tot if tot else 1.0)) > 1e-9:
                raise Violation("log skeleton conformance: totals, verdict or fitness are wrong", trace=w, reported=str(r), expected=[len(dev), tot], skeleton=str(sk), kind=on)
            ctx.outcome("fit" if not dev else "deviating")
    if all(Ls):
        df = pm4py.conformance_log_skeleton(mk_df(Ls), sk, return_diagnostics_dataframe=True)
        if list(df["case_id"]) != ["c%03d" % i for i in range(len(Ls))] or [(a, b, c) for a, b, c in zip(df["no_dev_total"], df["no_constr_total"], df["dev_fitness"])] != [(r["no_dev_total"], r["no_constr_total"], r["dev_fitness"]) for r in res]:
            raise Violation("log skeleton conformance: diagnostics dataframe disagrees with the results")


def g_disc(tier):
    for n in (1, 2):
        yield from gen.logs("abc", 3, n, minlen=0 if n == 1 else 1)
    yield from gen.logs("ab", 4, 2, minlen=1)
    yield [["a"], []]
    for k, L in enumerate(gen.logs("ab", 3, 3, minlen=0)):
        yield L
    for k, L in enumerate(gen.logs("ab", 2, 4, minlen=1)):
        yield L
    yield from gen.logs("abc", 3, 3, minlen=1)
    yield from gen.logs("ab", 3, 4, minlen=1)
    if tier == "thorough":
        yield from gen.logs("abc", 2, 4, minlen=1)
        yield from gen.logs("abc", 4, 2, minlen=1)


def g_conf(tier):
    ts = list(gen.traces("abc", 4)) + [["d"], ["a", "d"], ["d", "a", "b"]]
    if tier == "thorough":
        ts += list(gen.traces("abc", 5, 5))
    B = 80
    srcs = [[["a", "b", "c"]], [["a", "b"], ["b", "a"]], [["a", "b", "a", "b"]], [["a", "c"], ["b", "c"]], [["a"], ["a", "a", "b"]], [["c", "a", "b", "c"]], [["a", "b", "b"]]]
    sks = [{r: [["a", "b"]]} for r in REL] + [{r: [["a", "b"], ["b", "c"]]} for r in REL] + [{r: [["a", "a"]]} for r in ("always_after", "always_before", "directly_follows")]
    sks += [{"activ_freq": {"a": [0, 1], "b": [1, 2]}}, {"activ_freq": {"a": [0], "b": [0, 2], "c": [0, 1, 2, 3, 4]}}, {"activ_freq": {"a": [1]}, "never_together": [["a", "b"], ["b", "a"]], "equivalence": [["a", "c"]]}]
    for i in range(0, len(ts), B):
        for s in srcs:
            yield {"src": s, "logs": ts[i:i + B]}
        for s in sks:
            yield {"sk": s, "logs": ts[i:i + B]}


def families(tier):
    return [("discovery", g_disc, r_disc), ("conformance", g_conf, r_conf)]
