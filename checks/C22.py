"""C22 XES: every writer x every reader x attribute value/name/place, and every alignment of a document with the readers' buffers."""
import itertools, warnings, math, os, datetime as dtm
from mc import gen
from mc.harness import Violation
import numpy as np, pandas as pd
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.objects.log.exporter.xes import exporter
from pm4py.objects.log.importer.xes import importer
from pm4py.objects.log.exporter.xes.variants import etree_xes_exp, line_by_line as lbl_exp

ID, TITLE = "C22", "XES import and export round-trip, and all importers agree"
BOUNDS = {"quick": "values and names: 60 attribute values and 22 names (XML specials, quotes, unicode, white space, numbers, dates with offsets and microseconds, numpy scalars) at log, trace, event, global, nested and list places x 2 writers x plain/gz/string x 5 readers; all ordered pairs of 16 values sharing a document; every shape of logs of <=2 traces of <=2 events with and without attributes; every alignment of a region of a document to the 4096 and 32768 byte buffers; dataframes with missing values",
          "thorough": "alignments with four regions and further buffers, all value pairs"}
ASSUMPTIONS = ["chunk_regex reads nested attributes without their children and lists as dictionaries, line_by_line reads one flat element per line and only traces and events, rustxes only the events (as a dataframe): compared on what they carry",
               "concept:name is always written as a string", "time stamps agree as instants up to microseconds", "values are representable in XML 1.0"]
BUDGET = {"quick": 300, "thorough": 850}
warnings.simplefilter("ignore")
UTC = dtm.timezone.utc
FULL = ["iterparse", "iterparse_20", "iterparse_mem_compressed"]
os.environ.setdefault("PM4PY_SHOW_PROGRESS_BAR", "False")

STR = ["", "a", " ", " a ", "a b", "a  b", "&", "<", ">", '"', "'", "\"'", "a=b", "key=\"x\"", "é", "日本", "😀", "a\nb", "a\tb", "true", "1", "1.5", "None", "nan", "/", "a/", "</event>", "]]>", "&amp;", "&#10;", "&lt;b&gt;", "<!--", "2020-01-01", "\\", "%", "{x}", "event", "\u00a0x"]
VAL = {"s%d" % i: s for i, s in enumerate(STR)}
VAL.update({"i0": 0, "i1": 1, "i-1": -1, "ibig": 2 ** 63, "f0": 0.0, "f1": 1.0, "f-": -1.5, "fbig": 1e300, "fsmall": 1e-7, "finf": math.inf, "f.1": 0.1, "T": True, "F": False,
            "d0": dtm.datetime(2020, 1, 1, tzinfo=UTC), "dus": dtm.datetime(2020, 3, 29, 1, 30, 0, 123456, tzinfo=UTC), "doff": dtm.datetime(2020, 1, 1, 10, tzinfo=dtm.timezone(dtm.timedelta(hours=2))),
            "dneg": dtm.datetime(2020, 1, 1, 10, 0, 1, 5000, tzinfo=dtm.timezone(dtm.timedelta(hours=-5, minutes=-30))), "dold": dtm.datetime(1969, 12, 31, 23, tzinfo=UTC), "ts": pd.Timestamp("2021-06-01T12:00:00Z"), "tsms": pd.Timestamp("2021-06-01T12:00:00.250+02:00"),
            "npi": np.int64(7), "npf": np.float64(2.5), "npb": np.bool_(True)})
KEYS = ["k", "a:b", "k k", "é", "&", "<", ">", '"', "'", "k=\"v\"", "日", "/", "value", "key", "event", "string", "trace", "log", "date", "\"'", "org:resource", "a\tb"]


def canon(v):
    if isinstance(v, dict) and set(v) == {"value", "children"}:
        ch = v["children"]
        return ["nested", canon(v["value"]), sorted([str(k), canon(x)] for k, x in ch.items()) if isinstance(ch, dict) else [[str(k), canon(x)] for k, x in ch], "dict" if isinstance(ch, dict) else "list"]
    if isinstance(v, (bool, np.bool_)):
        return ["bool", bool(v)]
    if isinstance(v, (int, np.integer)):
        return ["int", str(int(v))]
    if isinstance(v, (float, np.floating)):
        return ["float", repr(float(v))]
    if isinstance(v, dtm.datetime):
        return ["date", v.astimezone(UTC).strftime("%Y-%m-%dT%H:%M:%S.%f")]
    if v is None:
        return ["none"]
    return [type(v).__name__, str(v)]


def cattrs(d):
    return sorted(([str(k), canon(v)] for k, v in d.items() if v is not None), key=str)


def flat(c):
    """what a reader without nesting keeps: attribute values only"""
    return [[k, v[1] if v[0] == "nested" else v] for k, v in c if not (v[0] == "nested" and v[1] == ["none"])]


def facts(log):
    return {"attributes": cattrs(log.attributes), "extensions": {k: dict(v) for k, v in log.extensions.items()}, "classifiers": {k: list(v) for k, v in log.classifiers.items()},
            "omni": {k: cattrs(v) for k, v in log.omni_present.items()}, "traces": [[cattrs(t.attributes), [cattrs(e) for e in t]] for t in log]}


def unnest(f, lists=False):
    return dict(attributes=flat(f["attributes"]), extensions=f["extensions"], classifiers=f["classifiers"], omni={k: flat(v) for k, v in f["omni"].items()}, traces=[[flat(a), [flat(e) for e in es]] for a, es in f["traces"]])


def compare(exp, got, reader, how, ctx, **kw):
    ctx.step(1)
    if reader == "chunk_regex":
        exp, got = unnest(exp), unnest(got)
    if reader == "line_by_line":
        exp, got = dict(traces=unnest(exp)["traces"]), dict(traces=unnest(got)["traces"])
    for part in exp:
        if exp[part] != got[part]:
            raise Violation("the %s read back are not those of the log" % part, reader=reader, how=how, got=str(got[part])[:600], expected=str(exp[part])[:600], **kw)


def read_all(writer, log, exp, ctx, comps=(False,), readers=None, **kw):
    mod = {"etree": etree_xes_exp, "line_by_line": lbl_exp}[writer]
    for comp in comps:
        p = "t.xes" + (".gz" if comp else "")
        mod.apply(log, p, parameters={"show_progress_bar": False})
        data = mod.export_log_as_string(log, parameters={"compress": comp, "show_progress_bar": False})
        for r in readers or FULL + ["chunk_regex", "line_by_line"]:
            compare(exp, facts(importer.apply(p, variant=r, parameters={"show_progress_bar": False})), r, writer + (" gz" if comp else ""), ctx, **kw)
            compare(exp, facts(importer.deserialize(data, variant=r, parameters={"decompress_serialization": comp, "show_progress_bar": False})), r, writer + " string" + (" gz" if comp else ""), ctx, **kw)
        os.remove(p)


def base(ev):
    log = EventLog()
    t = Trace(attributes={"concept:name": "c1"})
    t.append(Event({"concept:name": "x", "time:timestamp": VAL["d0"]}))
    t.append(Event(ev))
    t.append(Event({"concept:name": "y"}))
    log.append(t)
    return log


def r_values(case, ctx):
    k, v = case["key"], VAL[case["val"]]
    ctx.state(str((k, case["val"])))
    exact = float(v) if isinstance(v, np.floating) else v
    for writer in ("etree", "line_by_line"):
        log = base({"concept:name": "e", k: v})
        log[0].attributes[k] = v
        log.attributes[k] = v
        log.omni_present["event"] = {k: v}
        exp = facts(log)
        read_all(writer, log, exp, ctx, comps=(False, True) if case.get("gz") else (False,), place="flat")
        # nested: as value, as child, inside a list
        log = base({"concept:name": "e", "n": {"value": "v", "children": {k: v}}, "l": {"value": None, "children": [(k, v), (k, v), ("z", 1)]}, "after": 3})
        log[0].attributes["deep"] = {"value": 1, "children": {"c": {"value": "w", "children": {k: v}}}}
        log[0].attributes["nv"] = {"value": v, "children": {"c": 1}}
        read_all(writer, log, facts(log), ctx, place="nested", readers=FULL if k in ("k",) else FULL[:1])
    ctx.outcome(canon(v)[0])
    ctx.trace()


def g_values(tier):
    for i, n in enumerate(VAL):
        yield dict(key="k", val=n, gz=i % 4 == 0)
    for k in KEYS[1:]:
        for n in ("s1", "s9", "i1", "dus", "T") if tier == "quick" else list(VAL)[::3]:
            yield dict(key=k, val=n)


PAIR = ["i0", "i1", "f0", "f1", "T", "F", "s1", "s20", "s19", "npi", "d0", "doff", "s0", "f-", "ibig", "ts"]


def r_pairs(case, ctx):
    vs = [VAL[n] for n in case["vals"]]
    ctx.state(str(case["vals"]))
    log = EventLog()
    for i, v in enumerate(vs):
        t = Trace(attributes={"concept:name": "c%d" % i, "tv": v})
        t.append(Event({"concept:name": "a", "v": v, str(v): v}))
        t.append(Event({"concept:name": str(v), "w": v}))
        log.append(t)
    read_all(case["writer"], log, facts(log), ctx)
    ctx.outcome("pair")
    ctx.trace()


def g_pairs(tier):
    for k, (a, b) in enumerate(itertools.permutations(PAIR, 2)):
        yield dict(vals=[a, b], writer=("etree", "line_by_line")[k % 2])
        if tier == "thorough":
            yield dict(vals=[a, b, a], writer=("line_by_line", "etree")[k % 2])


def r_shape(case, ctx):
    ctx.state(str(case))
    log = EventLog()
    for t in case["L"]:
        tr = Trace(attributes={"concept:name": "c"} if t[0] else {})
        for e in t[1:]:
            tr.append(Event({"concept:name": "a"} if e == 1 else {"l": {"value": None, "children": []}} if e == 2 else {}))
        log.append(tr)
    if case["la"]:
        log.attributes["k"] = "v"
        log.extensions["Concept"] = {"prefix": "concept", "uri": "http://x/?a=1&b=2"}
        log.classifiers["n"] = ["concept:name", "k"]
        log.classifiers["sp & ace"] = ["my key", "other & key"]
        log.omni_present["trace"] = {"a": 1}
        log.omni_present["event"] = {}
    exp = facts(log)
    for writer in ("etree", "line_by_line"):
        read_all(writer, log, exp, ctx, readers=(FULL + ["chunk_regex"] if not any(2 in t[1:] for t in case["L"]) else FULL) + (["line_by_line"] if writer == "line_by_line" and not any(2 in t[1:] for t in case["L"]) else []))
        exporter.apply(log, "t.xes", variant=exporter.Variants.ETREE if writer == "etree" else exporter.Variants.LINE_BY_LINE, parameters={"show_progress_bar": False})
        for n in (0, 1, 2):
            for r in FULL + (["line_by_line"] if writer == "line_by_line" and not any(2 in t[1:] for t in case["L"]) else []):
                got = importer.apply("t.xes", variant=r, parameters={"max_traces": n, "show_progress_bar": False})
                if len(got) != min(n, len(log)):
                    raise Violation("max_traces does not give that many traces", reader=r, max_traces=n, got=len(got), traces=len(log))
        os.remove("t.xes")
    ctx.outcome("shape")
    ctx.trace()


def g_shape(tier):
    tr = [[a, *es] for a in (0, 1) for n in range(3) for es in itertools.product((0, 1, 2), repeat=n)]
    for la in (0, 1):
        for n in range(3):
            for L in itertools.product(tr, repeat=n):
                if n < 2 or tier == "thorough" or L[0] <= L[1] and (len(L[0]) + len(L[1]) <= 4):
                    yield dict(L=[list(t) for t in L], la=la)


REG = ['<trace>\n<string key="concept:name" value="é1"/>\n<event>\n<string key="a" value="x &amp; &lt;y"/>\n<int key="i" value="12"/>\n<date key="time:timestamp" value="2020-01-01T00:00:00+00:00"/>\n</event>\n<event>\n<string key="日本" value="😀b"/>\n<float key="f" value="1.5"/>\n<boolean key="t" value="true"/>\n</event>\n</trace>\n',
       '<trace>\n<string key="n" value="v"><int key="c" value="1"/><string key="d" value="w"><date key="e" value="2020-01-01T00:00:00+00:00"/></string></string>\n<event>\n<list key="l"><values><string key="p" value="1"/><string key="p" value="2"><int key="q" value="3"/></string></values></list>\n<boolean key="b" value="true"><float key="g" value="2.5"/></boolean>\n</event>\n</trace>\n',
       '<trace><event><list key="l"><values><list key="m"><values><int key="x" value="1"/></values></list></values></list><list key="o"><values/></list></event><event/></trace>\n<trace/>\n']


def regexp(i):
    e1 = dtm.datetime(2020, 1, 1, tzinfo=UTC)
    if i == 0:
        return [[{"concept:name": "é1"}, [{"a": "x & <y", "i": 12, "time:timestamp": e1}, {"日本": "😀b", "f": 1.5, "t": True}]]]
    if i == 1:
        return [[{"n": {"value": "v", "children": {"c": 1, "d": {"value": "w", "children": {"e": e1}}}}}, [{"l": {"value": None, "children": [("p", "1"), ("p", {"value": "2", "children": {"q": 3}})]}, "b": {"value": True, "children": {"g": 2.5}}}]]]
    return [[{}, [{"l": {"value": None, "children": [("m", {"value": None, "children": [("x", 1)]})]}, "o": {"value": None, "children": []}}, {}]], [{}, []]]


def r_align(case, ctx):
    i, buf, d = case["region"], case["buf"], case["d"]
    ctx.state(str((i, buf, d)))
    reg = REG[i]
    head = '<?xml version="1.0" encoding="utf-8"?>\n<log xes.version="1849-2016">\n'
    pre, post = '<string key="pad" value="', '"/>\n'
    n = buf - d - len((head + pre + post).encode())
    doc = (head + pre + "x" * n + post + reg + reg + "</log>\n").encode()
    exp = {"attributes": [["pad", ["str", "x" * n]]], "extensions": {}, "classifiers": {}, "omni": {}, "traces": [[cattrs(a), [cattrs(e) for e in es]] for a, es in regexp(i) * 2]}
    open("t.xes", "wb").write(doc)
    for r in case["readers"]:
        got = facts(importer.apply("t.xes", variant=r, parameters={"show_progress_bar": False}))
        got["attributes"] = [[k, [v[0], v[1]]] for k, v in got["attributes"]]
        compare(exp, got, r, "buffer %d offset %d" % (buf, d), ctx)
        if case.get("s"):
            compare(exp, facts(importer.deserialize(doc, variant=r, parameters={"show_progress_bar": False})), r, "string, buffer %d offset %d" % (buf, d), ctx)
    ctx.outcome("region %d buffer %d" % (i, buf))
    ctx.trace()


def g_align(tier):
    T = tier == "thorough"
    for i, reg in enumerate(REG):
        n = len(reg.encode())
        for d in range(-2, 2 * n + 10 if T else n + 8):
            if i == 0:
                yield dict(region=i, buf=4096, d=d, readers=["chunk_regex", "line_by_line"] + (FULL if T else []), s=T or d % 5 == 0)
                if T or d % 3 == 0:
                    yield dict(region=i, buf=8192, d=d, readers=["chunk_regex", "line_by_line"])
            yield dict(region=i, buf=32768, d=d, readers=(FULL if T else [FULL[d % 3]]) + (["chunk_regex"] if i != 2 else []), s=d % 4 == 0)
            if T:
                yield dict(region=i, buf=65536, d=d, readers=FULL[:2])


def r_frame(case, ctx):
    ctx.state(str(case))
    rows = []
    for k, cell in enumerate(case["cells"]):
        r = {"case:concept:name": case["cases"][k], "concept:name": "a%d" % k, "time:timestamp": pd.Timestamp("2020-01-01T00:00:00Z") + pd.Timedelta(minutes=k)}
        for n, c in zip(("x", "y"), cell):
            r[n] = VAL[c] if c else None
        r["case:ca"] = {"c0": "u", "c1": None}[case["cases"][k]]
        rows.append(r)
    df = pd.DataFrame(rows)

    def cells(d):
        out = []
        for _, r in d.iterrows():
            out.append({c: canon(r[c]) for c in d.columns if not (c.startswith("@@") or pd.isna(r[c]))})
        return sorted(out, key=lambda r: str(r["concept:name"]))
    exp = cells(df)
    for p in ("t.xes", "t.xes.gz"):
        pm4py.write_xes(df, p)
        for r in ("iterparse", "chunk_regex", "line_by_line", "rustxes"):
            if r == "rustxes" and p.endswith("gz"):
                continue
            got = cells(pm4py.read_xes(p, variant=r))
            num = lambda rows: [{k: (["num", float(v[1])] if v[0] in ("int", "float") else v) for k, v in x.items()} for x in rows]
            if num(got) != num(exp):
                raise Violation("the dataframe read back is not the dataframe written", reader=r, file=p, got=str(got), expected=str(exp))
            ctx.step(1)
        os.remove(p)
    ctx.outcome("frame")
    ctx.trace()


def g_frame(tier):
    opts = [[None, "s1", "s6", "s9"], [None, "i1", "i0"], [None, "f-", "f1"], [None, "T", "F"], [None, "d0", "dus"], [None, "doff"]]
    for i, o in enumerate(opts):
        for a, b, c in itertools.product(o, repeat=3):
            if not (a or b or c):
                continue
            yield dict(cells=[[a, "s1"], [b, None], [c, "s14"]], cases=["c0", "c1", "c0"] if i % 2 else ["c0", "c0", "c1"])


def families(tier):
    return [("values", g_values, r_values), ("pairs", g_pairs, r_pairs), ("shape", g_shape, r_shape), ("align", g_align, r_align), ("frame", g_frame, r_frame)]
