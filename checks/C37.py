"""C37 inputs unchanged: every public analysis on every small input, and every history of two analyses on the same input."""
from mc import choices
choices.install()
import datetime as dtm, itertools, os, random, re, types, warnings
from collections import Counter
from mc import gen
from mc.harness import Violation
import numpy as np
import pandas as pd
import networkx as nx
import pm4py
from pm4py.objects.log.obj import EventLog, EventStream, Trace, Event
from pm4py.objects.petri_net.obj import PetriNet, Marking
from pm4py.objects.process_tree.obj import ProcessTree
from pm4py.objects.powl.obj import POWL
from pm4py.objects.bpmn.obj import BPMN
from pm4py.objects.ocel.obj import OCEL
from pm4py.objects.dfg.obj import DFG
from pm4py.objects.transition_system.obj import TransitionSystem
from pm4py.objects.trie.obj import Trie
from pm4py.objects.heuristics_net.obj import HeuristicsNet
from pm4py.objects.org.sna.obj import SNA
warnings.filterwarnings("ignore")

ID, TITLE = "C37", "Analyses leave their inputs unchanged"
BOUNDS = {"quick": "single: every operation twice on every log of a family of small logs (4 representations), on nets, trees, BPMN, POWL, DFGs and object-centric logs; histories: every ordered pair of operations on the same log / model / object-centric log",
          "thorough": "more logs and models, histories of two operations on every input of a larger family, triples on one input per kind"}
ASSUMPTIONS = ["random sources are reseeded before every call", "results are compared up to the identity of states, places and nodes; of alignments and token replay the costs and counts are compared",
               "in-place by contract: insert_*, set_classifier, reduce_petri_net_*, format_dataframe on the caller's columns, merge/add/remove utilities"]
BUDGET = {"quick": 330, "thorough": 850}
UUID = r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}'
T0 = dtm.datetime(2022, 3, 7, 8, 0, 0, tzinfo=dtm.timezone.utc)
C, A, T, R, S = "case:concept:name", "concept:name", "time:timestamp", "org:resource", "start_timestamp"


# ------------------------------------------------------------------ canonical results
def canon(x, depth=0):
    if depth > 12:
        return "deep"
    f = lambda y: canon(y, depth + 1)
    if x is None or isinstance(x, bool):
        return x
    if isinstance(x, str):
        return re.sub(UUID, 'uuid', x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return "nan" if x != x else round(float(x), 7)
    if isinstance(x, (dtm.datetime, dtm.timedelta, pd.Timestamp)):
        return str(x)
    if x is pd.NaT:
        return "NaT"
    if isinstance(x, OCEL):
        return f([x.events, x.objects, x.relations, x.o2o, x.e2e, x.object_changes])
    if isinstance(x, pd.DataFrame):
        return ["frame", sorted(map(str, x.columns)), sorted((repr([f(r[c]) for c in sorted(r, key=str)]) for r in x.to_dict("records")))]
    if isinstance(x, (pd.Series, np.ndarray)):
        return f(list(x))
    if isinstance(x, EventLog):
        return ["log", f(dict(x.attributes))] + [f(t) for t in x]
    if isinstance(x, Trace):
        return ["trace", f(dict(x.attributes))] + [f(dict(e)) for e in x]
    if isinstance(x, EventStream):
        return ["stream"] + [f(dict(e)) for e in x]
    if isinstance(x, PetriNet):
        lab = lambda n: f(str(n.label)) if isinstance(n, PetriNet.Transition) else "(%d,%d)" % (len(n.in_arcs), len(n.out_arcs))
        return ["net", len(x.places), sorted(f(str(t.label)) for t in x.transitions), sorted("%s>%s" % (lab(a.source), lab(a.target)) for a in x.arcs)]
    if isinstance(x, Marking):
        return ["marking", sorted(x.values())]
    if isinstance(x, PetriNet.Transition):
        return ["t", x.label]
    if isinstance(x, PetriNet.Place):
        return ["p", len(x.in_arcs), len(x.out_arcs)]
    if isinstance(x, ProcessTree):
        return tree(x)
    if isinstance(x, POWL):
        return "".join(sorted(str(x)))
    if isinstance(x, BPMN):
        return ["bpmn", sorted("%s %s %d %d" % (type(n).__name__, n.get_name() if "Task" in type(n).__name__ else "", len(n.get_in_arcs()), len(n.get_out_arcs())) for n in x.get_nodes()), len(x.get_flows())]
    if isinstance(x, DFG):
        return f([dict(x.graph), dict(x.start_activities), dict(x.end_activities)])
    if isinstance(x, HeuristicsNet):
        return ["heu", f(x.dfg), f(x.start_activities), f(x.end_activities), f(x.dependency_matrix)]
    if isinstance(x, TransitionSystem):
        return ["ts", len(x.states), sorted(str(t.name).split(", ", 1)[-1] for t in x.transitions)]
    if isinstance(x, Trie):
        return ["trie", x.label, x.final, sorted((f(c) for c in x.children), key=repr)]
    if isinstance(x, SNA):
        return ["sna", f(x.connections), x.is_directed]
    if isinstance(x, nx.Graph):
        return ["graph", x.number_of_nodes(), x.number_of_edges(), sorted(repr(sorted(map(str, d))) for _, d in x.nodes(data=True))]
    if isinstance(x, dict):
        return ["dict"] + sorted(([f(k), f(v)] for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((f(y) for y in x), key=repr)
    if isinstance(x, (list, tuple, types.GeneratorType)) or hasattr(x, "__iter__"):
        return [f(y) for y in x]
    return type(x).__name__


def tree(t):
    if t.operator is None:
        return str(t.label)
    ch = [tree(c) for c in t.children]
    return "%s(%s)" % (t.operator.name, ",".join(sorted(ch) if t.operator.name in ("XOR", "PARALLEL", "OR", "INTERLEAVING") else ch))


# ------------------------------------------------------------------ exact snapshots of inputs
def snap(x):
    if isinstance(x, OCEL):
        return {"tables": [snap(d) for d in (x.events, x.objects, x.relations, x.o2o, x.e2e, x.object_changes)], "globals": repr(x.globals), "parameters": repr(sorted(map(str, x.parameters.items())))}
    if isinstance(x, pd.DataFrame):
        return {"columns": [str(c) for c in x.columns], "dtypes": [str(d) for d in x.dtypes], "index": list(map(repr, x.index)), "attrs": repr(sorted(map(str, x.attrs.items()))),
                "rows": [[repr(v) for v in r] for r in x.itertuples(index=False, name=None)]}
    if isinstance(x, EventLog):
        return {"attributes": repr(dict(x.attributes)), "extensions": repr(x.extensions), "classifiers": repr(x.classifiers), "omni": repr(x.omni_present), "properties": repr(sorted(map(str, x.properties.items()))),
                "traces": [[repr(dict(t.attributes)), [repr(dict(e)) for e in t]] for t in x], "properties of traces": [repr(t.properties) for t in x]}
    if isinstance(x, EventStream):
        return {"attributes": repr(dict(x.attributes)), "events": [repr(dict(e)) for e in x]}
    if isinstance(x, Trace):
        return {"attributes": repr(dict(x.attributes)), "events": [repr(dict(e)) for e in x], "properties": repr(x.properties)}
    if isinstance(x, PetriNet):
        return {"name": x.name, "properties": repr(sorted(map(str, x.properties))), "places": sorted(map(repr, ([p.name, len(p.in_arcs), len(p.out_arcs), sorted(map(str, p.properties))] for p in x.places))),
                "transitions": sorted(map(repr, ([t.name, t.label, len(t.in_arcs), len(t.out_arcs), sorted(map(str, t.properties))] for t in x.transitions))),
                "arcs": sorted("%s>%s*%s %s %s" % (a.source.name, a.target.name, a.weight, type(a).__name__, sorted(map(str, a.properties.items()))) for a in x.arcs), "identity": sorted(map(id, list(x.places) + list(x.transitions) + list(x.arcs)))}
    if isinstance(x, Marking):
        return {"tokens": sorted((p.name, k) for p, k in x.items())}
    if isinstance(x, ProcessTree):
        out = []

        def rec(t):
            out.append([id(t), str(t.operator), t.label, id(t.parent) if t.parent is not None else None, len(t.children)])
            for c in t.children:
                rec(c)
        rec(x)
        return {"text": repr(x), "nodes": out}
    if isinstance(x, POWL):
        return {"text": str(x), "kind": type(x).__name__}
    if isinstance(x, BPMN):
        return {"nodes": sorted(repr([n.get_id(), type(n).__name__, n.get_name(), len(n.get_in_arcs()), len(n.get_out_arcs())]) for n in x.get_nodes()),
                "flows": sorted(repr([str(e.get_id()), e.get_name(), e.source.get_id(), e.target.get_id()]) for e in x.get_flows()), "name": x.get_name(), "id": x.get_process_id()}
    if isinstance(x, DFG):
        return {"graph": repr(sorted(x.graph.items())), "start": repr(sorted(x.start_activities.items())), "end": repr(sorted(x.end_activities.items()))}
    if isinstance(x, HeuristicsNet):
        return {"graph": repr(canon(x)), "nodes": sorted(map(repr, ([n, len(v.input_connections), len(v.output_connections)] for n, v in x.nodes.items())))}
    if isinstance(x, nx.Graph):
        return {"nodes": sorted(repr(n) for n in x.nodes(data=True)), "edges": sorted(repr(n) for n in x.edges(data=True))}
    if isinstance(x, dict):
        return {"items": [[repr(k), snap(v) if isinstance(v, (dict, list, set)) else repr(v)] for k, v in x.items()], "type": type(x).__name__}
    if isinstance(x, (list, tuple)):
        return {"items": [snap(v) for v in x]}
    if isinstance(x, (set, frozenset)):
        return {"items": sorted(map(repr, x))}
    return {"value": repr(x)}


def diff(a, b):
    for k in a:
        if a[k] != b[k]:
            return "%s: %s -> %s" % (k, str(a[k])[:300], str(b[k])[:300])


def call(fn, env):
    random.seed(7)
    np.random.seed(7)
    try:
        r = fn(env)
        if isinstance(r, types.GeneratorType):
            r = list(r)
        return canon(r)
    except Exception as e:
        return "raises " + type(e).__name__


# ------------------------------------------------------------------ logs
def mklog(L, rep):
    rows = []
    for k, t in enumerate(L):
        for j, a in enumerate(t):
            rows.append({C: "c%d" % k, "case:kind": "k%d" % (k % 2), A: "ab c"[a] if a < 2 else "c", T: T0 + dtm.timedelta(hours=2 * j + k), S: T0 + dtm.timedelta(hours=2 * j + k - 1),
                         R: "rs"[(j + k) % 2], "org:group": "g%d" % (j % 2), "cost": float(j), "tag": "t%d" % ((j + k) % 2)})
    if rep == "event log":
        log = EventLog(attributes={"concept:name": "L"}, classifiers={"Activity": ["concept:name"]})
        for k, t in enumerate(L):
            tr = Trace(attributes={"concept:name": "c%d" % k, "kind": "k%d" % (k % 2)})
            for r in rows:
                if r[C] == "c%d" % k:
                    tr.append(Event({x: v for x, v in r.items() if not x.startswith("case:")}))
            log.append(tr)
        return log
    if rep == "event stream":
        return EventStream(sorted(rows, key=lambda r: r[T]), attributes={"concept:name": "L"})
    rows2 = sorted(rows, key=lambda r: (r[T], r[C])) if rep == "dataframe" else rows
    df = pd.DataFrame(rows2)
    if rep == "dataframe":
        df.index = [3 * i + 1 for i in range(len(df))]
        df["start_timestamp"] = df["start_timestamp"]
    else:
        df = pm4py.format_dataframe(df)
    return df


def log_ops():
    o = {}
    a = "a"
    add = lambda n, f: o.__setitem__(n, f)
    for n in ("discover_dfg", "discover_directly_follows_graph", "discover_dfg_typed", "discover_performance_dfg", "discover_petri_net_alpha", "discover_petri_net_alpha_plus", "discover_petri_net_inductive", "discover_petri_net_heuristics", "discover_petri_net_ilp",
              "discover_process_tree_inductive", "discover_heuristics_net", "derive_minimum_self_distance", "discover_footprints", "discover_eventually_follows_graph", "discover_bpmn_inductive", "discover_transition_system", "discover_prefix_tree",
              "discover_temporal_profile", "discover_log_skeleton", "discover_declare", "discover_powl", "discover_batches",
              "get_start_activities", "get_end_activities", "get_event_attributes", "get_trace_attributes", "get_variants", "get_variants_as_tuples", "split_by_process_variant", "get_variants_paths_duration", "get_stochastic_language",
              "get_minimum_self_distances", "get_minimum_self_distance_witnesses", "get_case_arrival_average", "get_rework_cases_per_activity", "get_case_overlap", "get_cycle_time", "get_service_time", "get_all_case_durations",
              "discover_handover_of_work_network", "discover_working_together_network", "discover_activity_based_resource_similarity", "discover_subcontracting_network", "discover_organizational_roles",
              "extract_features_dataframe", "extract_outcome_enriched_dataframe", "extract_temporal_features_dataframe", "convert_to_event_log", "convert_to_event_stream", "convert_to_dataframe", "convert_log_to_ocel", "convert_log_to_networkx",
              "convert_log_to_time_intervals", "split_train_test", "project_on_event_attribute", "insert_artificial_start_end", "insert_case_service_waiting_time", "insert_case_arrival_finish_rate", "discover_process_tree_inductive"):
        add(n, lambda e, n=n: getattr(pm4py, n)(e["log"]) if hasattr(pm4py, n) else getattr(pm4py.stats, n)(e["log"]))
    P = lambda n, /, *args, **kw: add("%s%s" % (n, list(map(str, args)) + sorted(map(str, kw.items()))), lambda e: getattr(pm4py, n)(e["log"], *args, **kw))
    P("discover_performance_dfg", business_hours=True)
    P("discover_petri_net_inductive", noise_threshold=0.3)
    P("discover_petri_net_inductive", disable_fallthroughs=True)
    P("discover_service_time", ) if hasattr(pm4py, "discover_service_time") else None
    P("get_event_attribute_values", A)
    P("get_event_attribute_values", A, count_once_per_case=True)
    P("get_trace_attribute_values", "case:kind")
    P("get_trace_attribute_values", "kind")
    P("get_service_time", start_timestamp_key=S)
    P("get_service_time", aggregation_measure="max", start_timestamp_key=S)
    P("get_all_case_durations", business_hours=True)
    P("get_case_duration", "c0")
    P("get_activity_position_summary", a)
    add("get_frequent_trace_segments", lambda e: pm4py.stats.get_frequent_trace_segments(e["log"], min_occ=1))
    P("filter_log_relative_occurrence_event_attribute", 0.4)
    P("filter_log_relative_occurrence_event_attribute", 0.4, level="events")
    for keep in (True, False):
        P("filter_start_activities", {a}, retain=keep)
        P("filter_end_activities", {a}, retain=keep)
        P("filter_event_attribute_values", A, {a}, level="event", retain=keep)
        P("filter_event_attribute_values", A, {a}, level="case", retain=keep)
        P("filter_trace_attribute_values", "case:kind", {"k0"}, retain=keep)
        P("filter_trace_attribute_values", "kind", {"k0"}, retain=keep)
        P("filter_variants", [("a", "b")], retain=keep)
        P("filter_directly_follows_relation", [("a", "b")], retain=keep)
        P("filter_eventually_follows_relation", [("a", "b")], retain=keep)
        P("filter_paths_performance", ("a", "b"), 0, 10000, keep=keep)
        P("filter_trace_segments", [["...", "a", "..."]], positive=keep)
    for m in ("events", "traces_contained", "traces_intersecting"):
        P("filter_time_range", "2022-03-07 08:00:00", "2022-03-07 11:00:00", mode=m)
    P("filter_between", "a", "b")
    P("filter_case_size", 1, 2)
    P("filter_case_performance", 0, 8000)
    P("filter_activities_rework", "a", 2)
    P("filter_variants_top_k", 1)
    P("filter_variants_by_coverage_percentage", 0.3)
    P("filter_variants_by_maximum_coverage_percentage", 0.6)
    for fl in ("first", "last"):
        P("filter_prefixes", "a", strict=fl == "first", first_or_last=fl)
        P("filter_suffixes", "a", strict=fl == "first", first_or_last=fl)
    P("filter_four_eyes_principle", "a", "b")
    P("filter_activity_done_different_resources", "a")
    P("get_prefixes_from_log", 1)
    for v in ("next_activity", "next_time", "remaining_time"):
        P("extract_target_vector", v)
    P("extract_features_dataframe", include_case_id=True, str_ev_attr=[A], enable_all=True)
    P("extract_features_dataframe", str_ev_attr=["tag"], num_ev_attr=["cost"], str_tr_attr=["kind"])
    P("extract_temporal_features_dataframe", start_timestamp_key=S)
    P("extract_outcome_enriched_dataframe", start_timestamp_key=S)
    P("discover_network_analysis", C, C, R, R, A)
    P("discover_network_analysis", C, C, R, R, A, performance=True)
    P("discover_batches", merge_distance=7200, min_batch_size=1)
    P("sample_cases", 1)
    P("sample_events", 1)
    P("cluster_log")
    P("convert_log_to_ocel", object_types=["org:resource"])
    P("convert_log_to_networkx", other_case_attributes_as_nodes=["kind"], event_attributes_as_nodes=["org:resource"])
    P("convert_log_to_time_intervals", filter_activity_couple=("a", "b"))
    P("discover_transition_system", direction="backward", window=1, view="set")
    P("discover_log_skeleton", noise_threshold=0.1)
    P("discover_subcontracting_network", n=1)
    P("discover_handover_of_work_network", beta=0.5)
    # conformance (the models are inputs as well)
    for n in ("conformance_diagnostics_token_based_replay", "conformance_diagnostics_alignments", "fitness_token_based_replay", "fitness_alignments", "precision_token_based_replay", "precision_alignments", "generalization_tbr"):
        cost = {"conformance_diagnostics_token_based_replay": ("trace_is_fit", "trace_fitness"), "conformance_diagnostics_alignments": ("cost", "fitness")}.get(n)

        def fn(e, n=n, cost=cost):
            r = getattr(pm4py, n)(e["log"], e["net"], e["im"], e["fm"])
            return r if cost is None else [[x[c] for c in cost] for x in r]
        add(n, fn)
    add("alignments on a tree", lambda e: [x["cost"] for x in pm4py.conformance_diagnostics_alignments(e["log"], e["tree"])])
    add("footprints of a log against a tree", lambda e: pm4py.conformance_diagnostics_footprints(e["log"], e["tree"]))
    add("footprints fitness", lambda e: pm4py.fitness_footprints(e["log"], e["net"], e["im"], e["fm"]))
    add("footprints precision", lambda e: pm4py.precision_footprints(e["log"], e["net"], e["im"], e["fm"]))
    add("conformance_temporal_profile", lambda e: pm4py.conformance_temporal_profile(e["log"], e["profile"]))
    add("conformance_log_skeleton", lambda e: pm4py.conformance_log_skeleton(e["log"], e["skeleton"]))
    add("conformance_declare", lambda e: pm4py.conformance_declare(e["log"], e["declare"]))
    add("diagnostics dataframes", lambda e: [len(pm4py.conformance_temporal_profile(e["log"], e["profile"], return_diagnostics_dataframe=True)), pm4py.conformance_log_skeleton(e["log"], e["skeleton"], return_diagnostics_dataframe=True),
                                             pm4py.conformance_declare(e["log"], e["declare"], return_diagnostics_dataframe=True)])
    add("log against log", lambda e: [x["cost"] for x in ed.apply(e["log"], e["log"])])
    # deeper entry points
    from pm4py.algo.conformance.alignments.edit_distance import algorithm as ed
    from pm4py.algo.discovery.correlation_mining import algorithm as corr
    from pm4py.algo.discovery.performance_spectrum import algorithm as spectrum
    from pm4py.algo.organizational_mining.local_diagnostics import algorithm as ld
    from pm4py.algo.organizational_mining.resource_profiles import algorithm as rp
    from pm4py.algo.transformation.log_to_interval_tree import algorithm as itree
    from pm4py.algo.transformation.log_to_trie import algorithm as trie
    from pm4py.algo.transformation.log_to_features import algorithm as feats
    from pm4py.objects.log.util import interval_lifecycle, sorting, log_regex, get_log_encoded, get_class_representation, dataframe_utils, pandas_numpy_variants
    from pm4py.statistics.attributes.log import select
    from pm4py.statistics.concurrent_activities.log import get as conc_l
    from pm4py.statistics.concurrent_activities.pandas import get as conc_p
    from pm4py.statistics.service_time.log import get as soj_l
    from pm4py.statistics.service_time.pandas import get as soj_p
    from pm4py.statistics.eventually_follows.log import get as efg_l
    from pm4py.statistics.eventually_follows.pandas import get as efg_p
    from pm4py.statistics.traces.generic.log import case_statistics as cs_l
    from pm4py.statistics.traces.generic.pandas import case_statistics as cs_p
    from pm4py.statistics.traces.cycle_time.log import get as cyc_l
    from pm4py.statistics.traces.cycle_time.pandas import get as cyc_p
    from pm4py.algo.discovery.dfg import algorithm as dfgm
    from pm4py.algo.discovery.temporal_profile import algorithm as tp
    from pm4py.algo.discovery.minimum_self_distance import algorithm as msd
    from pm4py.algo.discovery.footprints import algorithm as fps
    st = {"pm4py:param:start_timestamp_key": S}
    add("correlation mining", lambda e: corr.apply(e["log"]))
    add("performance spectrum", lambda e: spectrum.apply(e["log"], ["a", "b"]))
    add("performance spectrum disconnected", lambda e: spectrum.apply(e["log"], ["a", "b"], variant=spectrum.Variants.LOG_DISCONNECTED if isinstance(e["log"], EventLog) else spectrum.Variants.DATAFRAME_DISCONNECTED))
    add("local diagnostics", lambda e: ld.apply_from_group_attribute(e["log"], parameters={}))
    add("resource profile", lambda e: [rp.distinct_activities(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r"), rp.average_workload(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r"), rp.multitasking(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r"),
                                       rp.interaction_two_resources(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r", "s"), rp.average_duration_activity(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r", "a"), rp.social_position(e["log"], "2022-03-01 00:00:00", "2022-03-30 00:00:00", "r")])
    add("interval tree", lambda e: sorted((i.begin, i.end) for i in itree.apply(e["log"])))
    add("trie", lambda e: trie.apply(e["log"]))
    add("event-based features", lambda e: feats.apply(e["log"], variant=feats.Variants.EVENT_BASED))
    for n, l, p_, kw in (("concurrent activities", conc_l, conc_p, st), ("sojourn times", soj_l, soj_p, st), ("eventually follows", efg_l, efg_p, st)):
        add(n, lambda e, l=l, p_=p_, kw=kw: (l if isinstance(e["log"], EventLog) else p_).apply(e["log"], parameters=dict(kw)))
    add("case descriptions", lambda e: (cs_l.get_cases_description if isinstance(e["log"], EventLog) else cs_p.get_cases_description)(e["log"]))
    add("variant statistics", lambda e: (cs_l if isinstance(e["log"], EventLog) else cs_p).get_variant_statistics(e["log"]))
    add("median case duration", lambda e: (cs_l if isinstance(e["log"], EventLog) else cs_p).get_median_case_duration(e["log"]))
    add("kde", lambda e: len((cs_l if isinstance(e["log"], EventLog) else cs_p).get_kde_caseduration(e["log"])[0]))
    for v in ("NATIVE", "FREQUENCY", "PERFORMANCE", "FREQUENCY_GREEDY", "PERFORMANCE_GREEDY", "FREQ_TRIPLES", "CLEAN"):
        if hasattr(dfgm.Variants, v):
            add("dfg " + v, lambda e, v=v: dfgm.apply(e["log"], variant=getattr(dfgm.Variants, v), parameters=dict(st)))
    add("dfg with starts", lambda e: dfgm.apply(e["log"], parameters=dict(st)))
    add("temporal profile with starts", lambda e: tp.apply(e["log"], parameters=dict(st)))
    add("case overlap with starts", lambda e: pm4py.statistics.overlap.cases.log.get.apply(e["log"], parameters=dict(st)) if isinstance(e["log"], EventLog) else pm4py.statistics.overlap.cases.pandas.get.apply(e["log"], parameters=dict(st)))
    add("interval lifecycle", lambda e: interval_lifecycle.to_interval(e["log"], parameters={}))
    add("encoded log", lambda e: log_regex.get_encoded_log(e["log"], log_regex.form_encoding_dictio_from_log(e["log"], parameters={}), parameters={}))
    add("class by duration", lambda e: get_class_representation.get_class_representation_by_trace_duration(e["log"], 5000))
    add("attribute selection", lambda e: select.select_attributes_from_log_for_tree(e["log"]))
    add("automatic feature selection", lambda e: sorted(dataframe_utils.automatic_feature_selection_df(e["log"]).columns))
    add("numpy variants", lambda e: pandas_numpy_variants.apply(e["log"]))
    add("activity and case tables", lambda e: dataframe_utils.dataframe_to_activity_case_table(e["log"]))
    add("rebase", lambda e: pm4py.rebase(e["log"], case_id=C, activity_key=A, timestamp_key=T))
    add("serialize", lambda e: bool(pm4py.serialize(e["log"])))
    # drawing only reads
    from pm4py.visualization.dotted_chart import visualizer as dc
    from pm4py.statistics.attributes.log import get as attl
    add("dotted chart", lambda e: len(dc.apply(e["log"], [T, C, A]).source) if hasattr(dc.apply(e["log"], [T, C, A]), "source") else 0)
    return o


_env = {}


def log_env(L, rep):
    """a fresh environment: the log and the models it is compared with"""
    net, im, fm = line_net()
    base = mklog([(0, 1), (0, 1, 0)], "event log")
    if "m" not in _env:
        _env["m"] = (pm4py.discover_temporal_profile(base), pm4py.discover_log_skeleton(base), pm4py.discover_declare(base))
    import copy
    p, s, d = copy.deepcopy(_env["m"])
    return {"log": mklog(L, rep), "net": net, "im": im, "fm": fm, "tree": pm4py.parse_process_tree("->('a', X('b', tau), *('c', 'a'))"), "profile": p, "skeleton": s, "declare": d}


def line_net():
    """a -> (b + skip) with a loop back, one silent transition"""
    from pm4py.objects.petri_net.utils import petri_utils as pu
    net = PetriNet("n")
    pl = [PetriNet.Place("p%d" % i) for i in range(3)]
    for p in pl:
        net.places.add(p)
    for n, l, s, t in (("ta", "a", 0, 1), ("tb", "b", 1, 2), ("ts", None, 1, 2), ("tc", "c", 1, 1)):
        tr = PetriNet.Transition(n, l)
        net.transitions.add(tr)
        pu.add_arc_from_to(pl[s], tr, net)
        pu.add_arc_from_to(tr, pl[t], net)
    return net, Marking({pl[0]: 1}), Marking({pl[2]: 1})


# ------------------------------------------------------------------ models
NETS = {"line": None, "tree1": "->('a', +('b', 'c'), X('d', tau))", "loop": "*('a', 'b')", "conc": "+(->('a','b'), X('c', tau))", "skip": "X(->('a','a'), tau)"}


def net_env(k):
    if k == "line":
        net, im, fm = line_net()
    else:
        net, im, fm = pm4py.convert_to_petri_net(pm4py.parse_process_tree(NETS[k]))
    log = mklog([(0, 1), (0, 0)], "event log")
    return {"net": net, "im": im, "fm": fm, "log": log, "trace": log[0]}


def net_ops():
    o = {}
    N = lambda f: (lambda e: f(e["net"], e["im"], e["fm"]))
    from pm4py.objects.petri_net.exporter import exporter as pnml
    from pm4py.objects.petri_net.utils import (petri_utils, incidence_matrix, check_soundness as cs, explore_path, reachability_graph, align_utils, networkx_graph, decomposition, murata, synchronous_product as sp, embed_stochastic_map, obj_marking, performance_map)
    from pm4py.visualization.petri_net import visualizer as vis
    from pm4py.algo.simulation.playout.petri_net import algorithm as po
    from pm4py.algo.conformance.footprints import algorithm as fpc
    from pm4py.algo.evaluation.simplicity import algorithm as simp
    from pm4py.algo.analysis.woflan import algorithm as woflan
    from pm4py.algo.analysis.workflow_net import algorithm as wf
    from pm4py.algo.conformance.alignments.petri_net import algorithm as al
    from pm4py.algo.conformance.tokenreplay import algorithm as tbr
    from pm4py.objects.stochastic_petri import ctmc, utils as sutils
    for n in ("convert_to_bpmn", "convert_to_process_tree", "convert_to_reachability_graph", "convert_petri_net_to_networkx", "discover_footprints", "check_soundness", "simplicity_petri_net", "solve_marking_equation", "serialize"):
        o[n] = lambda e, n=n: (lambda r: bool(r) if n == "serialize" else r)(getattr(pm4py, n)(e["net"], e["im"], e["fm"]))
    o["check_soundness"] = lambda e: pm4py.check_soundness(e["net"], e["im"], e["fm"])[0]
    for v in ("arc_degree", "cardoso", "extended_cardoso"):
        o["simplicity " + v] = lambda e, v=v: pm4py.simplicity_petri_net(e["net"], e["im"], e["fm"], variant=v)
    for t in ("classic", "reset", "inhibitor", "reset_inhibitor"):
        o["convert_petri_net_type " + t] = lambda e, t=t: pm4py.convert_petri_net_type(e["net"], e["im"], e["fm"], type=t)
    o["maximal_decomposition"] = lambda e: sorted((canon(x) for x in pm4py.maximal_decomposition(e["net"], e["im"], e["fm"])), key=repr)
    o["check_is_workflow_net"] = lambda e: pm4py.check_is_workflow_net(e["net"])
    o["get_enabled_transitions"] = lambda e: pm4py.get_enabled_transitions(e["net"], e["im"])
    o["play_out"] = lambda e: len(po.apply(e["net"], e["im"], e["fm"], variant=po.Variants.EXTENSIVE, parameters={"maxTraceLength": 4}))
    o["basic playout"] = lambda e: len(po.apply(e["net"], e["im"], e["fm"], parameters={"noTraces": 3}))
    o["pnml text"] = lambda e: len(pnml.serialize(e["net"], e["im"], e["fm"])) > 0 if hasattr(pnml, "serialize") else 0
    o["drawing"] = lambda e: len(vis.apply(e["net"], e["im"], e["fm"]).source) > 0
    o["incidence matrix"] = lambda e: sorted(map(sum, incidence_matrix.construct(e["net"]).a_matrix))
    o["decorate"] = lambda e: pm4py.generate_marking(e["net"], "p0") if any(p.name == "p0" for p in e["net"].places) else 0
    o["shortest paths by hidden"] = lambda e: len(petri_utils.get_places_shortest_path_by_hidden(e["net"], 3))
    o["construct_synchronous_product_net"] = lambda e: pm4py.construct_synchronous_product_net(e["trace"], e["net"], e["im"], e["fm"])
    o["extended marking equation"] = lambda e: (lambda p: pm4py.solve_extended_marking_equation(e["trace"], *p))(pm4py.construct_synchronous_product_net(e["trace"], e["net"], e["im"], e["fm"]))
    for n in ("conformance_diagnostics_token_based_replay", "conformance_diagnostics_alignments", "fitness_token_based_replay", "fitness_alignments", "precision_token_based_replay", "precision_alignments", "generalization_tbr"):
        cost = {"conformance_diagnostics_token_based_replay": ("trace_is_fit", "trace_fitness"), "conformance_diagnostics_alignments": ("cost", "fitness")}.get(n)

        def fn(e, n=n, cost=cost):
            r = getattr(pm4py, n)(e["log"], e["net"], e["im"], e["fm"])
            return r if cost is None else [[x[c] for c in cost] for x in r]
        o[n] = fn
    for v in ("DIJKSTRA_LESS_MEMORY", "DIJKSTRA_NO_HEURISTICS"):
        if hasattr(al.Variants, v):
            o["alignments " + v] = lambda e, v=v: [x["cost"] for x in al.apply_log(e["log"], e["net"], e["im"], e["fm"], variant=getattr(al.Variants, v))]
    o["alignments of one trace"] = lambda e: al.apply_trace(e["trace"], e["net"], e["im"], e["fm"])["cost"]
    o["alignments of one variant"] = lambda e: al.apply_trace(e["trace"], e["net"], e["im"], e["fm"], parameters={"ret_tuple_as_trans_desc": True})["cost"]
    o["token replay backwards"] = lambda e: [x["trace_is_fit"] for x in tbr.apply(e["log"], e["net"], e["im"], e["fm"], parameters={"consider_remaining_in_fitness": False})]
    o["replay_prefix_tbr"] = lambda e: pm4py.conformance.replay_prefix_tbr(["a"], e["net"], e["im"], e["fm"])
    o["is fitting"] = lambda e: pm4py.check_is_fitting(e["trace"], e["net"], e["im"], e["fm"])
    o["woflan"] = lambda e: woflan.apply(e["net"], e["im"], e["fm"], parameters={"print_diagnostics": False, "return_asap_when_not_sound": True})
    o["convert_to_petri_net of the tree"] = lambda e: pm4py.convert_to_petri_net(pm4py.convert_to_process_tree(e["net"], e["im"], e["fm"]))
    from pm4py.objects.petri_net.utils import final_marking, initial_marking
    o["discover markings"] = lambda e: [initial_marking.discover_initial_marking(e["net"]), final_marking.discover_final_marking(e["net"])]
    import copy
    o["copy"] = lambda e: copy.deepcopy(e["net"])
    return o


TREES = ["->('a', +('b', 'c'), X('d', tau))", "*('a', 'b')", "X('a', ->('b', tau))", "+('a', 'b', *(tau, 'c'))", "->('a', ->('b', X('c', X('d'))))", "'a'"]


def tree_env(k):
    return {"tree": pm4py.parse_process_tree(TREES[k]), "log": mklog([(0, 1), (0, 0)], "event log")}


def tree_ops():
    from pm4py.objects.process_tree.utils import generic as g
    from pm4py.objects.process_tree.exporter import exporter as ptml
    from pm4py.visualization.process_tree import visualizer as vis
    from pm4py.algo.simulation.playout.process_tree import algorithm as po
    from pm4py.algo.discovery.footprints import algorithm as fp
    from pm4py.algo.conformance.alignments.process_tree import algorithm as al
    from pm4py.objects.conversion.process_tree import converter as conv
    o = {}
    for n in ("convert_to_petri_net", "convert_to_bpmn", "discover_footprints", "convert_to_reachability_graph", "serialize"):
        o[n] = lambda e, n=n: (lambda r: bool(r) if n == "serialize" else r)(getattr(pm4py, n)(e["tree"]))
    o["powl"] = lambda e: conv.apply(e["tree"], variant=conv.Variants.TO_POWL) if hasattr(conv.Variants, "TO_POWL") else 0
    o["bordered net"] = lambda e: conv.apply(e["tree"], variant=conv.Variants.TO_PETRI_NET_TRANSITION_BORDERED)
    o["play_out"] = lambda e: len(pm4py.play_out(e["tree"]))
    o["extensive"] = lambda e: sorted(set(tuple(x[A] for x in t) for t in po.apply(e["tree"], variant=po.Variants.EXTENSIVE, parameters={"max_trace_length": 4})))
    o["top-bottom"] = lambda e: len(po.apply(e["tree"], variant=po.Variants.TOPBOTTOM, parameters={"num_traces": 3}))
    o["alignments"] = lambda e: [x["cost"] for x in pm4py.conformance_diagnostics_alignments(e["log"], e["tree"])]
    o["is fitting"] = lambda e: pm4py.check_is_fitting(e["log"][0], e["tree"])
    o["footprints"] = lambda e: pm4py.conformance_diagnostics_footprints(e["log"], e["tree"])
    o["fold"] = lambda e: g.fold(e["tree"])
    o["height"] = lambda e: [g.get_process_tree_height(e["tree"]), len(g.get_leaves(e["tree"])), sorted(str(x[-1]) for x in g.get_leaves_as_tuples(e["tree"]))]
    o["language equal"] = lambda e: g.structurally_language_equal(e["tree"], e["tree"])
    o["text"] = lambda e: str(e["tree"])
    o["ptml"] = lambda e: len(ptml.serialize(e["tree"])) > 0 if hasattr(ptml, "serialize") else 0
    o["drawing"] = lambda e: len(vis.apply(e["tree"]).source) > 0
    return o


def bpmn_env(k):
    return {"bpmn": pm4py.convert_to_bpmn(pm4py.parse_process_tree(TREES[k]))}


def bpmn_ops():
    from pm4py.objects.bpmn.util import sorting
    from pm4py.visualization.bpmn import visualizer as vis
    from pm4py.objects.conversion.bpmn import converter as conv
    from pm4py.objects.bpmn.exporter.variants import etree as ex
    o = {}
    for n in ("convert_to_petri_net", "convert_to_process_tree", "convert_to_reachability_graph"):
        o[n] = lambda e, n=n: getattr(pm4py, n)(e["bpmn"])
    o["drawing"] = lambda e: len(vis.apply(e["bpmn"]).source) > 0
    o["sorted"] = lambda e: [len(x) for x in sorting.get_sorted_nodes_edges(e["bpmn"])]
    o["xml"] = lambda e: len(ex.get_xml_string(e["bpmn"])) > 0
    o["net with flows"] = lambda e: conv.apply(e["bpmn"], variant=conv.Variants.TO_PETRI_NET, parameters={"use_id": True})
    return o


POWLS = ["PO=(nodes={a, b, X(c, tau)}, order={a-->b})", "*(a, b)", "X(a, PO=(nodes={b, c}, order={}))"]


def powl_env(k):
    return {"powl": pm4py.parse_powl_model_string(POWLS[k]), "log": mklog([(0, 1), (0, 0)], "event log")}


def powl_ops():
    from pm4py.visualization.powl import visualizer as vis
    o = {"convert_to_petri_net": lambda e: pm4py.convert_to_petri_net(e["powl"]), "text": lambda e: sorted(str(e["powl"])), "drawing": lambda e: len(str(vis.apply(e["powl"]))) > 0,
         "simplify": lambda e: e["powl"].simplify(), "tree": lambda e: pm4py.convert_to_process_tree(e["powl"]), "bpmn": lambda e: pm4py.convert_to_bpmn(*pm4py.convert_to_petri_net(e["powl"]))}
    return o


DFGS = [[(0, 1), (0, 0, 1)], [(0, 1, 2), (0, 2, 1), (2,)], [(0,)]]


def dfg_env(k):
    log = mklog(DFGS[k], "event log")
    d, s, e = pm4py.discover_dfg(log)
    p, _, _ = pm4py.discover_performance_dfg(log)
    return {"dfg": d, "start": s, "end": e, "perf": p, "act": dict(Counter(x[A] for t in log for x in t)), "log": log, "typed": pm4py.discover_dfg_typed(mklog(DFGS[k], "formatted dataframe"))}


def dfg_ops():
    from pm4py.algo.filtering.dfg import dfg_filtering as df_
    from pm4py.visualization.dfg import visualizer as vis
    from pm4py.algo.simulation.playout.dfg import algorithm as po
    from pm4py.algo.conformance.alignments.dfg import algorithm as al
    from pm4py.algo.discovery.footprints import algorithm as fp
    from pm4py.objects.conversion.dfg import converter as conv
    from pm4py.algo.discovery.heuristics.variants import classic as heu
    from pm4py.objects.dfg.utils import dfg_utils
    from pm4py.objects.dfg.exporter import exporter as dex
    from pm4py.algo.discovery.alpha.variants import classic as alpha
    o = {}
    D = lambda f: (lambda e: f(e["dfg"], e["start"], e["end"]))
    for p in (0.0, 0.5, 1.0):
        o["filter activities %s" % p] = lambda e, p=p: df_.filter_dfg_on_activities_percentage(e["dfg"], e["start"], e["end"], e["act"], p)
        o["filter paths %s" % p] = lambda e, p=p: df_.filter_dfg_on_paths_percentage(e["dfg"], e["start"], e["end"], e["act"], p)
    o["keep connected"] = lambda e: df_.filter_dfg_keep_connected(e["dfg"], e["start"], e["end"], e["act"], 0.5)
    o["to activity"] = lambda e: df_.filter_dfg_to_activity(e["dfg"], e["start"], e["end"], e["act"], "a")
    o["contain activity"] = lambda e: df_.filter_dfg_contain_activity(e["dfg"], e["start"], e["end"], e["act"], "a")
    o["frequencies"] = lambda e: dfg_utils.get_activities_from_dfg(e["dfg"])
    o["playout"] = lambda e: sorted(map(str, po.apply(e["dfg"], e["start"], e["end"])))
    o["play_out"] = lambda e: len(pm4py.play_out(e["dfg"], e["start"], e["end"]))
    o["alignments"] = lambda e: [x["cost"] for x in al.apply(e["log"], e["dfg"], e["start"], e["end"])]
    o["conformance alignments"] = lambda e: [x["cost"] for x in pm4py.conformance_diagnostics_alignments(e["log"], e["dfg"], e["start"], e["end"])]
    o["footprints"] = lambda e: fp.apply(e["dfg"], variant=fp.Variants.DFG)
    o["net"] = lambda e: conv.apply(e["dfg"], parameters={"start_activities": e["start"], "end_activities": e["end"]})
    o["drawing"] = lambda e: len(vis.apply(e["dfg"], parameters={"start_activities": e["start"], "end_activities": e["end"]}, activities_count=e["act"]).source) > 0
    o["drawing performance"] = lambda e: len(vis.apply(e["perf"], variant=vis.Variants.PERFORMANCE, parameters={"start_activities": e["start"], "end_activities": e["end"]}, activities_count=e["act"]).source) > 0
    o["inductive"] = lambda e: pm4py.discover_process_tree_inductive(e["typed"])
    o["inductive noise"] = lambda e: pm4py.discover_process_tree_inductive(e["typed"], noise_threshold=0.3)
    o["bpmn inductive"] = lambda e: pm4py.discover_bpmn_inductive(e["typed"])
    o["heuristics"] = lambda e: heu.apply_heu_dfg(e["dfg"], start_activities=e["start"], end_activities=e["end"], activities=list(e["act"]), activities_occurrences=e["act"])
    o["alpha"] = lambda e: alpha.apply_dfg(e["dfg"], parameters={"start_activities": e["start"], "end_activities": e["end"]}) if hasattr(alpha, "apply_dfg") else 0
    o["text"] = lambda e: len(dex.serialize(e["dfg"], parameters={"start_activities": e["start"], "end_activities": e["end"]})) > 0 if hasattr(dex, "serialize") else 0
    o["serialize"] = lambda e: len(pm4py.serialize(e["dfg"], e["start"], e["end"]))
    o["convert_to_petri_net"] = lambda e: pm4py.convert_to_petri_net(e["dfg"], e["start"], e["end"])
    return o


# ------------------------------------------------------------------ object-centric logs
OCELS = [([[0], [0, 1]], 1), ([[0, 1], [1], [0, 2]], 1), ([[0], [1], [0, 1]], 5), ([[0, 1], [0, 1]], 3), ([[0], [0], []], 4)]


def ocel_env(k):
    from checks import C29
    s, j = OCELS[k]
    return {"ocel": C29.mk(C29.spec(s, j))}


def ocel_ops():
    o = {}
    X = "ocel"
    for n in ("ocel_get_object_types", "ocel_get_attribute_names", "ocel_object_type_activities", "ocel_objects_ot_count", "ocel_temporal_summary", "ocel_objects_summary", "ocel_objects_interactions_summary", "discover_ocdfg",
              "discover_objects_graph", "ocel_e2o_lifecycle_enrichment", "ocel_o2o_enrichment", "ocel_drop_duplicates", "ocel_merge_duplicates", "ocel_add_index_based_timedelta", "convert_ocel_to_networkx", "sample_ocel_connected_components", "discover_oc_petri_net"):
        o[n] = lambda e, n=n: getattr(pm4py, n)(e[X])
    P = lambda n, /, *a, **kw: o.__setitem__("%s%s" % (n, list(map(str, a)) + sorted(map(str, kw.items()))), lambda e: getattr(pm4py, n)(e[X], *a, **kw))
    P("ocel_flattening", "X")
    P("ocel_merge_duplicates", have_common_object=True)
    P("ocel_sort_by_additional_column", "ocel:activity")
    P("sample_ocel_objects", 1)
    P("sample_events", 1)
    P("cluster_equivalent_ocel", "X")
    P("convert_ocel_to_networkx", variant="ocel_features_to_nx")
    P("discover_ocdfg", business_hours=True)
    for g in ("object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath"):
        P("discover_objects_graph", graph_type=g)
        P("ocel_o2o_enrichment", [g])
    for pos in (True, False):
        P("filter_ocel_event_attribute", "ocel:activity", ["a"], positive=pos)
        P("filter_ocel_object_attribute", "ocel:type", ["X"], positive=pos)
        P("filter_ocel_object_types", ["X"], positive=pos)
        P("filter_ocel_objects", ["o0"], positive=pos)
        P("filter_ocel_events", ["e0"], positive=pos)
        P("filter_ocel_cc_otype", "X", positive=pos)
    P("filter_ocel_object_types", ["X"], positive=True, level=2)
    P("filter_ocel_objects", ["o0"], positive=True, level=2)
    P("filter_ocel_object_types_allowed_activities", {"X": ["a"]})
    P("filter_ocel_object_per_type_count", {"X": 1})
    P("filter_ocel_start_events_per_object_type", "X")
    P("filter_ocel_end_events_per_object_type", "X")
    P("filter_ocel_events_timestamp", "2000-01-01 00:00:00", "2100-01-01 00:00:00")
    P("filter_ocel_cc_object", "o0")
    P("filter_ocel_cc_length", 1, 3)
    P("filter_ocel_cc_activity", "a")
    P("extract_ocel_features", "X")
    P("extract_ocel_features", "X", include_obj_id=True, enable_object_work_in_progress=True)
    from pm4py.objects.ocel.util import (attributes_names, attributes_per_type, convergence_divergence_diagnostics as cdd, e2o_qualification, event_prefix_suffix_per_obj as eps, events_per_object_type as ept, events_per_type_per_activity as etpa, explode, extended_table,
                                         flattening, log_ocel, objects_per_type_per_activity as opta, ocel_consistency, ocel_iterator, ocel_to_dict_types_rel, parent_children_ref, related_events, related_objects, rename_objs_ot_tim_lex, ocel_type_renaming, ev_att_to_obj_type, names_stripping)
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
    from pm4py.algo.transformation.ocel.description import algorithm as desc
    from pm4py.algo.transformation.ocel.features.events import algorithm as fev
    from pm4py.algo.transformation.ocel.features.objects import algorithm as fob
    from pm4py.algo.transformation.ocel.features.events_objects import algorithm as feo
    from pm4py.algo.transformation.ocel.graphs import ocel20_computation
    for n, f in (("attribute names", lambda c: attributes_names.get_attribute_names(c)), ("attributes per type", lambda c: attributes_per_type.get(c)), ("convergence", lambda c: cdd.apply(c)), ("prefixes and suffixes", lambda c: eps.apply(c) if hasattr(eps, "apply") else 0),
                 ("related events", lambda c: related_events.related_events_dct(c)), ("related objects", lambda c: [related_objects.related_objects_dct_overall(c), related_objects.related_objects_dct_per_type(c)]), ("explode", lambda c: explode.apply(c)), ("extended table", lambda c: c.get_extended_table()),
                 ("consistency", lambda c: ocel_consistency.apply(c)), ("iterator", lambda c: list(ocel_iterator.apply(c))), ("dictionary", lambda c: ocel_to_dict_types_rel.apply(c) if hasattr(ocel_to_dict_types_rel, "apply") else 0),
                 ("parent children", lambda c: parent_children_ref.apply(c, "X", "Y")), ("renamed objects", lambda c: rename_objs_ot_tim_lex.apply(c)), ("renamed types", lambda c: ocel_type_renaming.remove_spaces_non_alphanumeric_characters_from_types(c)), ("abbreviated types", lambda c: ocel_type_renaming.abbreviate_event_types(c)),
                 ("event attribute to type", lambda c: ev_att_to_obj_type.apply(c, "k")), ("split by components", lambda c: list(split.apply(c, variant=split.Variants.CONNECTED_COMPONENTS))),
                 ("description", lambda c: desc.apply(c)), ("event features", lambda c: fev.apply(c)), ("object features", lambda c: fob.apply(c)), ("event-object features", lambda c: feo.apply(c)), ("summary", lambda c: str(c) and c.get_summary()), ("copy", lambda c: __import__("copy").deepcopy(c))):
        o[n] = lambda e, f=f: f(e[X])
    return o


KINDS = {"net": (net_env, net_ops), "tree": (tree_env, tree_ops), "bpmn": (bpmn_env, bpmn_ops), "powl": (powl_env, powl_ops), "dfg": (dfg_env, dfg_ops), "ocel": (ocel_env, ocel_ops)}
REPS = ["event log", "dataframe", "formatted dataframe", "event stream"]
_ops = {}


def ops(kind):
    if kind not in _ops:
        _ops[kind] = log_ops() if kind == "log" else KINDS[kind][1]()
    return _ops[kind]


def make(kind, arg):
    return log_env(*arg) if kind == "log" else KINDS[kind][0](arg)


def where(kind, arg):
    return {"kind": kind, "input": str(arg)}


# operations that work in place by contract
INPLACE = {}


def unchanged(env, before, name, kind, arg):
    for k, v in env.items():
        b, a = before[k], snap(v)
        if a != b:
            raise Violation("%s changes its input" % name.split("[")[0], key="%s|%s" % (name, k), changed=k, difference=diff(b, a), **where(kind, arg))


def args(kind, tier):
    if kind == "log":
        base = [[(0, 1), (0, 1)], [(0, 1, 0), (1,)], [(0, 0), (0, 1, 2)], [(0, 1, 2), (0, 2, 1), (0,)]]
        if tier == "thorough":
            trs = list(gen.traces(range(2), 3, 1))
            base += [[list(x), list(y)] for x, y in itertools.product(trs, repeat=2)]
        return [[L, r] for L in base for r in REPS]
    return {"net": list(NETS), "tree": list(range(len(TREES))), "bpmn": list(range(len(TREES))), "powl": list(range(len(POWLS))), "dfg": list(range(len(DFGS))), "ocel": list(range(len(OCELS)))}[kind]


def s_gen(tier):
    for kind in ["log"] + list(KINDS):
        for arg in args(kind, tier):
            for name in ops(kind):
                yield {"kind": kind, "arg": arg, "op": name}


def s_run(case, ctx):
    kind, arg, name = case["kind"], case["arg"], case["op"]
    env = make(kind, arg)
    before = {k: snap(v) for k, v in env.items()}
    ctx.state((kind, str(arg), name))
    r1 = call(ops(kind)[name], env)
    ctx.step()
    unchanged(env, before, name, kind, arg)
    r2 = call(ops(kind)[name], env)
    unchanged(env, before, name, kind, arg)
    if r1 != r2:
        raise Violation("%s gives another result when called again" % name, first=str(r1)[:400], second=str(r2)[:400], **where(kind, arg))
    ctx.step()
    ctx.trace()
    ctx.outcome(r1 if isinstance(r1, str) and r1.startswith("raises") else "result")


def h_gen(tier):
    for kind in ["log"] + list(KINDS):
        for arg in ((args(kind, tier)[:16] if tier == "thorough" else args(kind, tier)[4:7:2]) if kind == "log" else args(kind, tier)[:(2 if tier == "quick" else 9)]):
            for name in ops(kind):
                yield {"kind": kind, "arg": arg, "op": name}


_fresh = {}


def h_run(case, ctx):
    kind, arg, first = case["kind"], case["arg"], case["op"]
    ctx.state((kind, str(arg), first))
    O = ops(kind)
    for second in O:
        if second == first:
            continue
        key = (kind, str(arg), second)
        if key not in _fresh:
            _fresh[key] = call(O[second], make(kind, arg))
        env = make(kind, arg)
        call(O[first], env)
        r = call(O[second], env)
        ctx.step(2)
        ctx.trace()
        if r != _fresh[key]:
            raise Violation("%s gives another result after %s" % (second.split("[")[0], first.split("[")[0]), fresh=str(_fresh[key])[:400], after=str(r)[:400], **where(kind, arg))
    ctx.outcome(kind)


def families(tier):
    return [("single", s_gen, s_run), ("histories", h_gen, h_run)]
