"""Bounded-exhaustive exploration harness.

A check is a module in /verif/checks exposing

    ID, TITLE                 property id / one-line title
    def families(tier)        -> list of (family name, generator function, runner function)

A generator yields JSON-serialisable case descriptors in a fixed order (simplest first) and a runner
executes the real pm4py code on one case and compares it with the reference model, raising Violation.
The harness enumerates every case of every family (no sampling), spread over forked workers, counts
the model states / transitions visited and the executions compared, and writes the evidence file.
"""
import argparse, gc, hashlib, importlib, json, os, re, resource, shutil, signal, sys, tempfile, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, key=None, **details):
        super().__init__(msg)
        self.msg, self.key, self.details = msg, key, details


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """Raised to a worker when its wall-clock budget is over."""


def canon(x):
    return json.dumps(x, sort_keys=True, default=str, ensure_ascii=True)


def h64(x):
    return int.from_bytes(hashlib.blake2b(canon(x).encode(), digest_size=8).digest(), "big")


class Ctx:
    """Per-worker bookkeeping handed to runners."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()       # 64-bit digests of distinct model states visited
        self.transitions = 0      # model transitions / operation applications explored
        self.traces = 0           # complete executions compared with the implementation
        self.outcomes = {}        # label -> count : what was observed (vacuity guard, read by humans)
        self.known = {}           # finding key -> count
        self.skipped = 0
        self.soft = []            # violations noted without aborting the case

    def state(self, x):
        self.states.add(x if isinstance(x, int) else h64(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label, n=1):
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def note(self, msg, key=None, **details):
        """Record a violation but let the case go on (several independent oracles per case)."""
        self.soft.append(Violation(msg, key, **details))


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                o = json.loads(line)
                if o.get("property") == pid and o.get("status") == "known":
                    res[o["key"]] = o["what"]
    return res


def _alarm(signum, frame):
    raise CaseTimeout("case did not finish within its time limit")


def run_one(runner, case, ctx, limit):
    """Run one case; return list of violations (dicts)."""
    vs = []
    ctx.soft = []
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        runner(case, ctx)
    except Violation as v:
        vs.append(v)
    except CaseTimeout as e:
        vs.append(Violation("did not terminate within %ss" % limit, key=None, _tb=traceback.format_exc()[-1500:]))
    except MemoryError:
        vs.append(Violation("memory exhausted", key=None))
    except RecursionError as e:
        vs.append(Violation("recursion limit exceeded: %s" % str(e)[:200], key=None, _tb=traceback.format_exc()[-1500:]))
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # an unexpected exception of the implementation on an in-domain input
        vs.append(Violation("unexpected %s: %s" % (type(e).__name__, str(e)[:300]), key=None,
                            _tb=traceback.format_exc()[-2500:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx.soft + vs


def worker(mod, tier, k, n, deadline, out_path, limit, known, maxviol=6):
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    os.chdir(tempfile.mkdtemp(prefix="w%d_" % k, dir=os.environ["MC_SCRATCH"]))
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    ctx = Ctx(tier)
    res = {"viol": [], "fam": {}, "capped": [], "samples": []}
    fams = mod.families(tier)
    if os.environ.get("MC_FAM"):     # development aid
        fams = [f for f in fams if f[0] in os.environ["MC_FAM"].split(",")]
    gi = 0
    seen_msgs = {}
    for fi, (name, gen, runner) in enumerate(fams):
        total = ran = 0
        t0 = time.time()
        lim = getattr(mod, "CASE_LIMIT", limit)
        for case in gen(tier):
            total += 1
            gi += 1
            if gi % n != k:
                continue
            if time.time() > deadline:
                res["capped"].append(name)
                break
            ran += 1
            if ran <= 1 and k < 2:
                res["samples"].append({"family": name, "case": case})
            st = (ctx.transitions, len(ctx.states))
            vs = run_one(runner, case, ctx, lim)
            stop = False
            for v in vs:
                if v.key is not None and v.key in known:
                    ctx.known[v.key] = ctx.known.get(v.key, 0) + 1
                    continue
                m = name + ":" + re.sub(r"[0-9a-f]*\d[0-9a-f-]*", "#", v.msg)[:70]
                seen_msgs[m] = seen_msgs.get(m, 0) + 1
                if seen_msgs[m] <= 2 and len(res["viol"]) < 40:
                    res["viol"].append({"index": [fi, total], "family": name, "case": case, "msg": v.msg,
                                        "key": v.key, "details": v.details})
            if res["viol"] and len(res["viol"]) >= maxviol and not os.environ.get("MC_ALL"):
                stop = True
            if stop:
                break
        res["fam"][name] = {"cases": total, "ran": ran, "s": round(time.time() - t0, 2)}
        if res["viol"] and not os.environ.get("MC_ALL"):
            break
    res["msgs"] = seen_msgs
    res["states"] = list(ctx.states)
    res["transitions"], res["traces"], res["outcomes"] = ctx.transitions, ctx.traces, ctx.outcomes
    res["known"], res["skipped"] = ctx.known, ctx.skipped
    with open(out_path + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.rename(out_path + ".tmp", out_path)


def load(pid):
    sys.path.insert(0, ROOT)
    return importlib.import_module("checks." + pid)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", os.cpu_count() or 4)))
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="mc_%s_" % a.property)
    os.environ["MC_SCRATCH"] = scratch
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = None
    try:
        return _main(a, tier, seed, t0, scratch)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, seed, t0, scratch):
    pid = a.property
    mod = load(pid)
    limit = 120 if tier == "quick" else 400
    if a.replay:
        return replay(mod, a.replay, limit)
    known = load_known(pid)
    budget = float(os.environ.get("MC_BUDGET", getattr(mod, "BUDGET", {}).get(tier, 520 if tier == "quick" else 3000)))
    deadline = t0 + budget
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    n = max(1, a.jobs)
    gc.collect(); gc.freeze()
    pids = {}
    for k in range(n):
        out = os.path.join(scratch, "out%d.json" % k)
        p = os.fork()
        if p == 0:
            rc = 0
            try:
                worker(mod, tier, k, n, deadline, out, limit, known)
            except BaseException:
                traceback.print_exc()
                with open(out + ".err", "w") as f:
                    f.write(traceback.format_exc())
                rc = 3
            os._exit(rc)
        pids[p] = k
    dead = []
    hard = deadline + limit + 60
    import select
    while pids:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            if time.time() > hard:
                for q in pids:
                    os.kill(q, signal.SIGKILL)
                hard = float("inf")
            time.sleep(0.02)
            continue
        if p in pids:
            k = pids.pop(p)
            if st != 0:
                dead.append((k, st))
    fam, viol, capped, samples, states, outc, kn = {}, [], set(), [], set(), {}, {}
    trans = traces = skipped = 0
    msgs = {}
    for k in range(n):
        out = os.path.join(scratch, "out%d.json" % k)
        if not os.path.exists(out):
            err = ""
            if os.path.exists(out + ".err"):
                err = open(out + ".err").read()
            print("worker %d died: %s" % (k, err), file=sys.stderr)
            viol.append({"index": [10 ** 6, k], "family": "worker", "case": None,
                         "msg": "exploration worker died (crash, kill or hang) " + err[-800:], "key": None, "details": {}})
            continue
        r = json.load(open(out))
        for f, d in r["fam"].items():
            e = fam.setdefault(f, {"cases": 0, "ran": 0, "s": 0})
            e["cases"] = max(e["cases"], d["cases"]); e["ran"] += d["ran"]; e["s"] = max(e["s"], d["s"])
        viol += r["viol"]; capped |= set(r["capped"]); samples += r["samples"]; states |= set(r["states"])
        trans += r["transitions"]; traces += r["traces"]; skipped += r["skipped"]
        for o, c in r["outcomes"].items():
            outc[o] = outc.get(o, 0) + c
        for o, c in r["known"].items():
            kn[o] = kn.get(o, 0) + c
        for o, c in r["msgs"].items():
            msgs[o] = msgs.get(o, 0) + c
    viol.sort(key=lambda v: v["index"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": trans, "traces_validated_against_impl": traces,
                       "samples": samples[:12], "exhaustive": not capped and not viol,
                       "families": {f: {"cases_enumerated": d["cases"], "cases_run": d["ran"]} for f, d in fam.items()},
                       "families_capped_by_time": sorted(capped), "observed_outcomes": outc,
                       "known_findings_hit": kn, "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})),
                       "rule": getattr(mod, "RULE", "")},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evf = os.path.join(ROOT, "evidence", pid + ".json")
    with open(evf + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(evf + ".tmp", evf)
    print("%s %s: %s" % (pid, tier, getattr(mod, "TITLE", "")))
    for f, d in fam.items():
        print("  family %-34s cases=%d run=%d (%.1fs)%s" % (f, d["cases"], d["ran"], d["s"], " CAPPED" if f in capped else ""))
    print("  states=%d transitions=%d traces=%d wall=%.1fs" % (len(states), trans, traces, time.time() - t0))
    print("  outcomes: " + ", ".join("%s=%d" % x for x in sorted(outc.items())))
    for key, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s [seen %d times in this run]" % (pid, what, kn.get(key, 0)))
    if not viol:
        print("OK property=%s" % pid)
        return 0
    d = os.path.join(ROOT, "replays", pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    for m, c in sorted(msgs.items(), key=lambda x: -x[1])[:10]:
        print("  seen %5d x %s" % (c, m))
    shown = 0
    for i, v in enumerate(viol):
        path = os.path.join(d, "%d.json" % i)
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": tier, **v}, f, indent=1, default=str)
        if shown < 8:
            shown += 1
            print("  violation: family=%s case=%s\n    %s" % (v["family"], canon(v["case"])[:600], v["msg"][:800]))
            if v["details"].get("_tb"):
                print("    " + v["details"]["_tb"].strip().replace("\n", "\n    ")[-900:])
    print("VIOLATION property=%s replay=%s" % (pid, os.path.join(d, "0.json")))
    return 1


def replay(mod, path, limit):
    o = json.load(open(path))
    fam = {f[0]: f for f in mod.families(o.get("tier", "quick"))}
    if hasattr(mod, "prepare"):
        mod.prepare(o.get("tier", "quick"))
    os.chdir(os.environ["MC_SCRATCH"])
    ctx = Ctx(o.get("tier", "quick"))
    vs = run_one(fam[o["family"]][2], o["case"], ctx, limit)
    for v in vs:
        print("replayed: %s\n%s" % (v.msg, json.dumps(v.details, indent=1, default=str)))
    print("REPRODUCED" if vs else "not reproduced")
    return 1 if vs else 0


if __name__ == "__main__":
    sys.exit(main())
