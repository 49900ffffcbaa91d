"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), note=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), note=note, technique=technique, na=na))


p("C01", "Petri net token game and reachability graph are exact",
  "For every Petri net (arc weights included, and inhibitor and reset arcs in nets that have them) and every marking, the transitions reported as enabled are exactly those the firing rule allows, and firing one yields exactly the marking the rule prescribes without altering the marking it was given. The reachability graph built from an initial marking of a bounded net has exactly one state per reachable marking and exactly one edge per firing. Marking equality, containment, sum and difference agree with multiset arithmetic.",
  ["inputs", "histories"], "all nets, markings and firing sequences",
  "the unit tests construct reachability graphs of a couple of sound nets and never compare the state set with an independent exploration",
  ["pm4py/objects/petri_net/semantics.py", "pm4py/objects/petri_net/obj.py", "pm4py/objects/petri_net/inhibitor_reset/semantics.py", "pm4py/objects/petri_net/utils/reachability_graph.py", "pm4py/analysis.py", "pm4py/convert.py"],
  [("firing rule", "objects/petri_net/semantics.py"), ("marking exploration", "objects/petri_net/utils/reachability_graph.py")])
p("C02", "Process-tree playout produces exactly the tree's language",
  "Every trace produced by playing out a process tree belongs to the language of the tree (sequence, exclusive choice, inclusive choice, parallel, interleaving and loop operators, silent leaves), whatever random choices the playout makes. The extensive playout returns exactly the traces of that language within the requested trace-length and loop bounds.",
  ["inputs", "schedules"], "all trees, and all resolutions of the playout's random choices",
  "tests run a handful of playouts with whatever the random generator yields; they cannot reach every choice sequence",
  ["pm4py/objects/process_tree/semantics.py", "pm4py/algo/simulation/playout/process_tree/variants/extensive.py", "pm4py/algo/simulation/playout/process_tree/variants/basic_playout.py", "pm4py/algo/simulation/playout/process_tree/variants/topbottom.py", "pm4py/sim.py"],
  [("execution states of nodes", "objects/process_tree/semantics.py"), ("top-bottom token distribution", "algo/simulation/playout/process_tree/variants/topbottom.py")])
p("C03", "Petri-net and DFG playout only produce complete model runs",
  "Every trace produced by the basic, stochastic or extensive playout of an accepting Petri net is the visible projection of a firing sequence from the initial to the final marking, whatever random choices are made (for nets whose final marking can always be reached, or when only runs reaching it are requested), and the extensive playout returns all such traces up to the length bound. Playing out a directly-follows graph only yields start-to-end walks of the graph, with probabilities equal to the product of the normalised outgoing frequencies.",
  ["inputs", "schedules"], "all bounded nets and DFGs, and all resolutions of the random choices",
  "tests only check that a playout returns a log",
  ["pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py", "pm4py/algo/simulation/playout/petri_net/variants/stochastic_playout.py", "pm4py/algo/simulation/playout/petri_net/variants/extensive.py", "pm4py/algo/simulation/playout/dfg/variants/classic.py", "pm4py/sim.py"],
  [("marking-driven walk", "algo/simulation/playout/petri_net/variants/basic_playout.py")])
p("C04", "Conversions between process models preserve the language",
  "Converting a process tree to a Petri net, to BPMN or to POWL, a POWL model to a Petri net, a BPMN diagram to a Petri net, a workflow net to BPMN, a directly-follows graph to a Petri net and a block-structured workflow net back to a process tree yields a model with exactly the same set of complete visible traces as the source. The Petri net obtained from a process tree or POWL model is a sound workflow net.",
  ["inputs", "programs"], "all models of the source notation",
  "tests convert one or two trees and check that nothing is thrown",
  ["pm4py/objects/conversion/process_tree/variants/to_petri_net.py", "pm4py/objects/conversion/process_tree/variants/to_bpmn.py", "pm4py/objects/conversion/process_tree/variants/to_powl.py", "pm4py/objects/conversion/powl/variants/to_petri_net.py", "pm4py/objects/conversion/bpmn/variants/to_petri_net.py", "pm4py/objects/conversion/wf_net/variants/to_bpmn.py", "pm4py/objects/conversion/wf_net/variants/to_process_tree.py", "pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py", "pm4py/convert.py"],
  [("operator gadgets", "objects/conversion/process_tree/variants/to_petri_net.py"), ("gateway gadgets", "objects/conversion/bpmn/variants/to_petri_net.py")])
p("C05", "Model simplifications never change the observable behaviour",
  "Folding and tau-reducing a process tree, removing invisible transitions or implicit places from an accepting Petri net (one whose final marking is the only reachable marking that covers it; for invisible transitions also: whose initially marked places have no producer and finally marked places no consumer), and simplifying a BPMN diagram leave the set of complete visible traces unchanged; removing implicit places leaves all firing sequences possible that were possible before and no others. Reducing a process tree with respect to a trace leaves unchanged whether that trace is in the language.",
  ["inputs", "programs"], "all models",
  "tests apply each reduction to one discovered model and do not compare behaviour",
  ["pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/petri_net/utils/reduction.py", "pm4py/objects/petri_net/utils/murata.py", "pm4py/algo/reduction/process_tree/variants/tree_tr_based.py", "pm4py/objects/bpmn/util/reduction.py", "pm4py/analysis.py"],
  [("fold/reduce_tau_leafs", "objects/process_tree/utils/generic.py"), ("place redundancy", "objects/petri_net/utils/murata.py")])
p("C06", "Workflow-net and soundness verdicts are exact",
  "The workflow-net check holds exactly for nets with one source place, one sink place and every node on a path between them. For every workflow net the soundness verdict is exactly classical soundness of its state space: from every reachable marking the final marking can be reached, it is the only reachable marking marking the sink, and no transition is dead (for nets whose silent transitions can all fire: dead silent transitions are deliberately not reported).",
  ["inputs"], "all nets",
  "tests call the check on a few sound nets and a handful of unsound ones; the verdict depends on the whole state space",
  ["pm4py/algo/analysis/woflan/algorithm.py", "pm4py/algo/analysis/workflow_net/variants/petri_net.py", "pm4py/algo/analysis/woflan/graphs", "pm4py/algo/analysis/woflan/place_invariants", "pm4py/analysis.py"],
  [("woflan procedure", "algo/analysis/woflan/algorithm.py")])
p("C07", "Model files and textual forms round-trip",
  "Writing a Petri net (with labels, invisible transitions, arc weights, inhibitor and reset arcs, initial and final marking), a process tree, a BPMN diagram or a directly-follows graph to its file format, or serialising it, and reading it back yields an equivalent model; parsing the text of a process tree or POWL model yields that model. This holds for every activity name the format can carry, including names with quotes, markup characters, spaces and non-ASCII characters.",
  ["inputs"], "all models and label strings",
  "tests round-trip one discovered model per format with plain labels",
  ["pm4py/objects/petri_net/exporter/variants/pnml.py", "pm4py/objects/petri_net/importer/variants/pnml.py", "pm4py/objects/process_tree/exporter/variants/ptml.py", "pm4py/objects/process_tree/importer/variants/ptml.py", "pm4py/objects/bpmn/exporter/variants/etree.py", "pm4py/objects/bpmn/importer/variants/lxml.py", "pm4py/objects/dfg/exporter/variants/classic.py", "pm4py/objects/dfg/importer/variants/classic.py", "pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/powl/parser.py", "pm4py/read.py", "pm4py/write.py", "pm4py/utils.py"],
  [("PNML/PTML/BPMN/DFG writers and readers", "objects/*/exporter, objects/*/importer")])
p("C08", "Petri-net alignments are valid and of minimal cost",
  "For every trace and every accepting Petri net whose final marking is reachable, each alignment algorithm returns a sequence of moves whose log part is the trace and whose model part is a complete firing sequence of the net, and whose cost under the cost function in use (standard, or user-supplied model, log and synchronous costs) is the minimum over all such sequences. The reported cost, best-worst cost and fitness are those of that alignment, and a trace is reported as perfectly fitting exactly when it is in the language of the net.",
  ["inputs"], "all traces, accepting nets and cost functions",
  "tests assert the fitness value of a few alignments on one model; optimality needs a comparison with every other alignment",
  ["pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py", "pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py", "pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/objects/petri_net/utils/align_utils.py", "pm4py/conformance.py"],
  [("A*/Dijkstra over the synchronous product", "algo/conformance/alignments/petri_net/variants")])
p("C09", "Process-tree, DFG and log-to-log alignments are valid and optimal",
  "For every trace, the alignment against a process tree (without interleaving and repeated activities), against a directly-follows graph and against another log has the trace as its log part and a complete run of the reference model as its model part, and the reported cost is the cost of the returned moves. Tree and DFG alignments have minimal cost (for DFGs also under user-supplied costs); a log-to-log alignment uses a reference trace of minimal edit distance; the approximate process-tree alignment is valid and never cheaper than the optimum. Fitness is 1 exactly for traces in the reference language and otherwise one minus cost over worst cost.",
  ["inputs"], "all traces and models",
  "tests only check that alignments are returned for a sample log",
  ["pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py", "pm4py/algo/conformance/alignments/process_tree/util", "pm4py/algo/conformance/alignments/process_tree/variants/approximated", "pm4py/algo/conformance/alignments/dfg/variants/classic.py", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py", "pm4py/conformance.py"],
  [("state search over tree states / DFG / other log", "algo/conformance/alignments")])
p("C10", "Token-based replay accounts for every token",
  "For every trace and accepting Petri net, the produced, consumed, missing and remaining token counts, the activated transitions and the reached marking reported by token-based replay are consistent with one another, and fitness is computed from the counts by the published formula. On nets without invisible transitions and without duplicate labels a trace (restricted to the activities of the net, which is what is replayed) is reported as fitting exactly when it is in the language of the net, and in general a trace reported as fitting is in the language; log-level figures are the sums and averages of the per-trace figures.",
  ["inputs"], "all traces and nets",
  "tests replay sample logs on discovered nets and look at a few aggregate numbers",
  ["pm4py/algo/conformance/tokenreplay/variants/token_replay.py", "pm4py/algo/conformance/tokenreplay/algorithm.py", "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py", "pm4py/conformance.py"],
  [("token counting", "algo/conformance/tokenreplay/variants/token_replay.py")])
p("C11", "Fitness, precision, generalization and simplicity match definitions",
  "For every log and accepting Petri net, alignment-based and token-based log fitness, ETC-style precision, token-based generalization, the simplicity measures and the earth mover's distance between stochastic languages equal the value obtained from their definitions by exhaustive computation, and lie between 0 and 1.",
  ["inputs"], "all logs and models",
  "tests evaluate one log/model pair and check two decimals",
  ["pm4py/algo/evaluation/replay_fitness/variants", "pm4py/algo/evaluation/precision/variants", "pm4py/algo/evaluation/precision/utils.py", "pm4py/algo/evaluation/generalization/variants/token_based.py", "pm4py/algo/evaluation/simplicity/variants", "pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py"],
  [("escaping edges", "algo/evaluation/precision"), ("metric formulas", "algo/evaluation")])
p("C12", "Footprints are exact and footprint conformance follows from them",
  "The footprints of a log, of a process tree (without interleaving) and of a bounded Petri net record exactly the directly-follows pairs split into the parallel and the sequential relation, the activities and the start activities of that log, tree or net; those of logs and trees also the end activities and the minimum trace length, and those of trees which activities always happen and whether the empty trace is possible. Footprint conformance reports exactly the deviating pairs and activities, and footprint fitness and precision are the published ratios over them.",
  ["inputs"], "all logs and models",
  "tests compute footprints of sample models without an independent enumeration of the relation",
  ["pm4py/algo/discovery/footprints", "pm4py/algo/conformance/footprints", "pm4py/conformance.py", "pm4py/discovery.py"],
  [("bottom-up tree footprints", "algo/discovery/footprints/tree/variants/bottomup.py"), ("state-space footprints", "algo/discovery/footprints/petri/variants/reach_graph.py")])
p("C13", "DECLARE discovery and conformance follow the template semantics",
  "For every log, the DECLARE model discovered lists, with exact support and confidence counts, the constraints whose template semantics meet the thresholds, and checking a log against a DECLARE model reports for each case exactly the violated constraints and the corresponding fitness. A model discovered with full confidence is satisfied by every case of its own log.",
  ["inputs"], "all logs and constraint sets",
  "tests discover one model from one sample log",
  ["pm4py/algo/discovery/declare/variants/classic.py", "pm4py/algo/conformance/declare/variants/classic.py", "pm4py/algo/discovery/declare/templates.py", "pm4py/discovery.py", "pm4py/conformance.py"],
  [("activation/fulfilment counting", "algo/discovery/declare/variants/classic.py")])
p("C14", "Log-skeleton discovery and conformance follow the definitions",
  "The log skeleton discovered from a log without noise contains exactly the equivalence, always-after, always-before, never-together and directly-follows pairs and activity-frequency sets that hold in every case, and with a noise threshold those holding in the required share of cases. Conformance checking reports exactly the violated relations of each case, its verdict and its deviation-based fitness, and every case conforms to the noise-free skeleton of its own log.",
  ["inputs"], "all logs and noise thresholds",
  "tests use a single log and noise value",
  ["pm4py/algo/discovery/log_skeleton", "pm4py/algo/conformance/log_skeleton/variants/classic.py", "pm4py/discovery.py", "pm4py/conformance.py"],
  [("relation extraction", "algo/discovery/log_skeleton/variants/classic.py")])
p("C15", "Temporal profile discovery and conformance are exact",
  "The temporal profile of a log holds, for exactly the pairs of activities occurring in eventually-follows order, the mean and standard deviation of the elapsed times, regardless of whether the log is an event log object or a dataframe and, if requested, measured in business hours only. Conformance reports exactly the pairs whose elapsed time is more than zeta standard deviations from the mean.",
  ["inputs"], "all logs, timestamps and thresholds",
  "tests use one log and only check that a result is produced",
  ["pm4py/algo/discovery/temporal_profile", "pm4py/algo/conformance/temporal_profile", "pm4py/util/business_hours.py"],
  [("pair statistics", "algo/discovery/temporal_profile/variants")])
p("C16", "Directly-follows and eventually-follows graphs count exactly",
  "For every log, whatever its representation (event log object, dataframe or event stream), the directly-follows graph, the performance directly-follows graph with each aggregation, the eventually-follows graph, the start and end activities and the minimum self-distance equal the counts and times obtained by walking each case in order. The order of cases in the log and the interleaving of cases in a dataframe sorted by time make no difference.",
  ["inputs", "histories"], "all logs, representations and case interleavings",
  "tests compare a few dictionary entries on the sample logs",
  ["pm4py/algo/discovery/dfg", "pm4py/statistics/eventually_follows", "pm4py/statistics/start_activities", "pm4py/statistics/end_activities", "pm4py/algo/discovery/minimum_self_distance", "pm4py/discovery.py", "pm4py/stats.py"],
  [("per-case counting / shifted dataframe merge", "algo/discovery/dfg")])
p("C17", "Inductive miner models replay their log and are sound",
  "For every log, the process tree discovered by the inductive miner without noise filtering accepts every trace of the log, uses exactly the activities of the log, and gives the same language whether the log is given as event log, dataframe or variants. Every inductive-miner variant, with any noise threshold, produces a block-structured (hence sound) model over a subset of the activities of the log, and a log that is directly-follows complete for a sequence, choice, parallel or loop tree without duplicate or silent leaves is rediscovered with the language of that tree.",
  ["inputs"], "all logs",
  "tests mine a few logs and check one fitness value; fitness must hold for every log shape and cut/fall-through combination",
  ["pm4py/algo/discovery/inductive", "pm4py/discovery.py"],
  [("cuts", "algo/discovery/inductive/cuts"), ("fall-throughs", "algo/discovery/inductive/fall_through")])
p("C18", "Alpha miners produce the net the algorithm prescribes",
  "For every log the net returned by the alpha miner has one visible transition per activity, a place for exactly each maximal pair of activity sets related by causality and internally unrelated, plus a source and a sink connected to the start and end activities. The alpha-plus miner handles length-one loops as prescribed and on logs without short loops agrees with the classic algorithm.",
  ["inputs"], "all logs",
  "tests check one example's fitness",
  ["pm4py/algo/discovery/alpha/variants/classic.py", "pm4py/algo/discovery/alpha/variants/plus.py", "pm4py/algo/discovery/alpha/data_structures/alpha_classic_abstraction.py", "pm4py/algo/discovery/causal"],
  [("pair expansion and maximality", "algo/discovery/alpha/variants/classic.py")])
p("C19", "Heuristics miner measures and thresholds are exact",
  "For every log the heuristics net contains exactly the dependencies whose frequency and dependency measure (including length-one and length-two loop measures) satisfy the thresholds, with the measure values given by the published formulas, over the activities and arcs that meet the minimum counts. The net does not depend on the log representation, and its Petri-net conversion has exactly its activities as visible labels and exactly the runs given by the net's AND and XOR bindings.",
  ["inputs", "configurations"], "all logs and thresholds",
  "tests check that mining a sample log returns a net",
  ["pm4py/algo/discovery/heuristics/variants/classic.py", "pm4py/algo/discovery/heuristics/variants/plusplus.py", "pm4py/objects/heuristics_net", "pm4py/objects/conversion/heuristics_net/variants/to_petri_net.py"],
  [("dependency matrix", "objects/heuristics_net/obj.py")])
p("C20", "ILP, POWL and region-style miners give models fitting the log",
  "The ILP miner without filtering returns a net on which every trace of the log can be replayed completely. Every POWL miner variant without filtering returns a model whose language contains every trace of the log and whose activities are those of the log.",
  ["inputs"], "all logs",
  "tests check at most one log per miner",
  ["pm4py/algo/discovery/ilp/variants/classic.py", "pm4py/algo/discovery/powl", "pm4py/objects/powl", "pm4py/discovery.py"],
  [("region constraints", "algo/discovery/ilp/variants/classic.py"), ("partial-order cuts", "algo/discovery/powl/inductive/variants")])
p("C21", "Prefix trees and transition systems represent exactly the log",
  "The prefix tree of a log has exactly one node per distinct prefix, with final nodes exactly at complete variants, and the view-based transition system has exactly the states and edges obtained by applying the chosen view to every prefix of every trace. Variants, their counts and the stochastic language of a log are exact for event logs and dataframes alike.",
  ["inputs"], "all logs and view settings",
  "tests check sizes on one sample log",
  ["pm4py/algo/transformation/log_to_trie/algorithm.py", "pm4py/objects/trie/obj.py", "pm4py/algo/discovery/transition_system/variants/view_based.py", "pm4py/statistics/variants", "pm4py/stats.py", "pm4py/discovery.py"],
  [("prefix insertion", "algo/transformation/log_to_trie/algorithm.py")])
p("C22", "XES import and export round-trip, and all importers agree",
  "Writing a log to XES, plain or compressed, and reading it back yields the same traces, events, attribute names, values and types (strings, integers, floats, booleans, timestamps, nested attributes), extensions, classifiers and global declarations. Every XES importer variant reads the same document to the same log, whatever attribute strings the document contains and wherever its read buffers end (the streamlined importers read the flat attributes they are documented for: chunk_regex without the children of nested attributes, line_by_line and rustxes only traces and events).",
  ["inputs"], "all logs and attribute values",
  "tests import sample files and compare lengths",
  ["pm4py/objects/log/exporter/xes/variants", "pm4py/objects/log/importer/xes/variants", "pm4py/read.py", "pm4py/write.py"],
  [("etree and line-by-line writers", "objects/log/exporter/xes/variants"), ("five readers", "objects/log/importer/xes/variants")])
p("C23", "Log representations convert without loss",
  "Converting a log between event log, event stream and dataframe, in any order and through any chain of conversions, preserves the cases, the order of events within each case, and every event and case attribute. The conversion never modifies the source unless asked to, and grouping works for every interleaving of cases in the source. Formatting a dataframe orders its rows by case and time and lets any column take any role, interval and lifecycle logs convert into one another, and the sequence views of a dataframe (iterators, wrappers, projections) show the same cases.",
  ["inputs", "histories"], "all logs, conversion chains and case interleavings",
  "tests convert one sample log each way",
  ["pm4py/objects/conversion/log/variants", "pm4py/objects/log/obj.py", "pm4py/convert.py", "pm4py/utils.py", "pm4py/objects/log/util/dataframe_utils.py"],
  [("grouping by case", "objects/conversion/log/variants/to_event_log.py")])
p("C24", "Log filters keep exactly the matching cases or events",
  "Each log filter (start and end activities, attribute values at case or event level, variants and top-k or coverage variants, directly- and eventually-follows paths, path performance, rework, case size, case duration, time ranges, between, prefixes, suffixes, trace segments) keeps exactly the cases or events that satisfy its documented predicate, unchanged and in order, for both event logs and dataframes. The positive and negative form of a case filter partition the log.",
  ["inputs", "configurations"], "all logs and filter arguments",
  "tests filter sample logs with one or two arguments",
  ["pm4py/filtering.py", "pm4py/algo/filtering/log", "pm4py/algo/filtering/pandas"],
  [("filter predicates", "algo/filtering")])
p("C25", "LTL-style and four-eyes filters follow their formula",
  "The rule filters (A eventually B, A eventually B eventually C and so on, with minimum and maximum time gaps, A next B next C, four-eyes principle, attribute value performed by different persons, and attribute-value repetition) keep exactly the cases satisfying the formula, for event logs and dataframes, and their negated form keeps exactly the others (for the four-eyes principle: the others among the cases in which both activities have known resources).",
  ["inputs", "configurations"], "all logs and formula parameters",
  "tests call each rule once on a sample log",
  ["pm4py/algo/filtering/log/ltl/ltl_checker.py", "pm4py/algo/filtering/pandas/ltl/ltl_checker.py", "pm4py/algo/filtering/log/attr_value_repetition/filter.py", "pm4py/algo/filtering/pandas/attr_value_repetition/filter.py", "pm4py/filtering.py"],
  [("rule evaluation", "algo/filtering/*/ltl/ltl_checker.py")])
p("C26", "Case and event statistics equal their definitions",
  "Case durations, case arrival averages, rework cases, case overlap, cycle time, service time, sojourn time, concurrent activities, attribute values, activity positions, event distributions over the calendar and passed-time figures equal the values obtained by direct computation from the events, and event-log and dataframe variants agree.",
  ["inputs"], "all logs with all relative orders of timestamps",
  "tests compare with constants on one log",
  ["pm4py/stats.py", "pm4py/statistics"],
  [("statistics", "statistics")])
p("C27", "Business-hours durations are exact",
  "The business-hours duration between two instants equals the length of the intersection of that interval with the weekly business-hour slots, for every position of the two instants relative to day and week boundaries and for any set of disjoint or overlapping slots, including slots ending at midnight. Durations are additive over adjacent intervals and monotone.",
  ["inputs", "configurations"], "all pairs of instants and slot sets",
  "tests check one or two intervals",
  ["pm4py/util/business_hours.py"],
  [("slot unification and week walk", "util/business_hours.py")])
p("C28", "Object-centric logs round-trip through every format",
  "Writing an object-centric event log to JSON, XML, SQLite or CSV in the OCEL 1.0 or 2.0 flavours and reading it back preserves events, objects, event-object relations with qualifiers, object-object relations, object attribute changes over time, attribute values with their types, and object and event types, to the extent the format carries them.",
  ["inputs"], "all object-centric logs",
  "tests round-trip one or two example files and compare counts",
  ["pm4py/objects/ocel/exporter", "pm4py/objects/ocel/importer", "pm4py/read.py", "pm4py/write.py", "pm4py/objects/ocel/util/ocel_consistency.py"],
  [("per-format writers and readers", "objects/ocel/exporter, objects/ocel/importer")])
p("C29", "Object-centric filters keep exactly the matching, consistent sub-log",
  "Each object-centric filter (event and object attributes, object types and their allowed activities, objects per type count, start and end events per type, time range, objects, events, connected components by object, length, type or activity) keeps exactly the events, objects and relations its predicate selects, in positive and negative form. The result is referentially consistent: every relation, object link and object change refers to an event or object that is still present.",
  ["inputs", "configurations"], "all object-centric logs and filter arguments",
  "tests call each filter on one example and look at lengths",
  ["pm4py/filtering.py", "pm4py/algo/filtering/ocel", "pm4py/objects/ocel/util/filtering_utils.py"],
  [("propagation of filtered tables", "objects/ocel/util/filtering_utils.py")])
p("C30", "Object-centric discovery and summaries are exact",
  "Flattening an object-centric log on an object type yields exactly one case per object with its events in time order. The object-centric directly-follows graph, object-type activities, per-event object counts, object summaries and interactions, object graphs, interleavings, conversions of traditional logs, and duplicate removal and merging equal the values computed directly from the relations, and each per-type net of an object-centric Petri net replays the flattened log of its type.",
  ["inputs"], "all object-centric logs",
  "tests check counts on one example",
  ["pm4py/ocel.py", "pm4py/objects/ocel/util/flattening.py", "pm4py/algo/discovery/ocel", "pm4py/algo/transformation/ocel", "pm4py/statistics/ocel", "pm4py/objects/ocel/util"],
  [("relation joins", "objects/ocel/util")])
p("C31", "Streaming algorithms agree with their batch counterparts",
  "Feeding the events of a log to the streaming directly-follows discovery, footprint conformance, token-based replay conformance or temporal-profile conformance, in any interleaving that keeps the order within each case, gives after every event the same result as the batch definition applied to the events received so far. Malformed events without case or activity are ignored without affecting other cases, and importing a stored log as a stream delivers exactly its events or traces in order.",
  ["histories", "inputs"], "all interleavings of the cases of all logs",
  "tests push one log in one order",
  ["pm4py/streaming/algo", "pm4py/streaming/importer", "pm4py/streaming/conversion", "pm4py/streaming/util"],
  [("incremental state", "streaming/algo")])
p("C32", "Live streams deliver every accepted event once under all schedules",
  "Under every interleaving of producers, the delivery thread, worker threads, registration and stopping, each event accepted by a live stream is handed exactly once to each algorithm registered when it is dispatched, a started stream that is stopped terminates without deadlock after delivering what it accepted, and algorithm state is only updated under mutual exclusion. Events reach each algorithm in the order of the stream, whatever the number of delivery workers; results read while the stream goes on are those of a beginning of the stream, and operations on the thread-safe dictionary have the effect of some order of them.",
  ["schedules"], "all thread interleavings up to a preemption bound",
  "tests run whatever schedule the operating system produces",
  ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/stream/live_trace_stream.py", "pm4py/streaming/algo/interface.py", "pm4py/streaming/util/dictio/versions/thread_safe.py"],
  [("condition variable protocol", "streaming/stream/live_event_stream.py"), ("algorithm lock", "streaming/algo/interface.py")])
p("C33", "Monte Carlo simulation is schedule-independent in its guarantees",
  "Under every interleaving of the simulated cases and every resolution of the random choices, each case of the simulated log is a complete run of the net with non-decreasing timestamps, never more cases occupy a place at once (in simulated time) than it has resources, every acquired resource is given back exactly once, the simulation ends, and all cases complete unless they block each other for want of resources until the time-out. The reported case durations, their median, the total time and the occupation intervals of the places are those of the simulated log.",
  ["schedules"], "all thread interleavings up to a preemption bound and all random choices",
  "tests run one simulation under the operating system's schedule",
  ["pm4py/algo/simulation/montecarlo/variants/petri_semaph_fifo.py"],
  [("place semaphores", "algo/simulation/montecarlo/variants/petri_semaph_fifo.py")])
p("C34", "Organizational networks and roles are exact",
  "Handover of work, subcontracting, working together and joint-activities similarity networks, and organisational roles, contain exactly the resource pairs and values given by their definitions over the cases of the log, and the event-log and dataframe variants agree. Resource profile indicators, local diagnostics of groups and network analysis count exactly the events, cases, activities and links they are defined over, within the requested time window.",
  ["inputs"], "all logs with resources",
  "tests check that networks are computed on one log",
  ["pm4py/org.py", "pm4py/algo/organizational_mining"],
  [("pair metrics", "algo/organizational_mining/sna/variants")])
p("C35", "Feature tables, prefixes, targets and splits are exact",
  "Every cell of a feature table extracted from a log equals the value its column stands for, row by row in case order; prefix extraction yields exactly the prefixes requested; target vectors, outcome-enriched dataframes, waiting and service times and arrival and finish rates are aligned with the events they describe; train-test splitting, case sampling and event sampling partition or select whole units without duplication or loss for every random outcome. Log utilities (artificial start and end events, indexes, activity and case tables, letter encodings, prefix trees, attribute lifting, case classes) keep every event and are faithful encodings.",
  ["inputs", "schedules"], "all logs, options and random outcomes",
  "tests check that a table is produced",
  ["pm4py/ml.py", "pm4py/algo/transformation/log_to_features", "pm4py/algo/transformation/log_to_target", "pm4py/objects/log/util", "pm4py/analysis.py", "pm4py/utils.py"],
  [("feature encoders", "algo/transformation/log_to_features/variants")])
p("C36", "Filtering a directly-follows graph keeps it connected and consistent",
  "Filtering a directly-follows graph by activity or path percentage, keeping or discarding given nodes or edges, or keeping the nodes that reach or are reached, returns a sub-graph in which every remaining activity lies on a path from a start to an end activity, start and end activities are among the remaining ones, frequencies of what remains are those of the original, the most frequent elements that were asked for stay, the less frequent ones go wherever they can, and at 100 percent nothing goes. The reachability and counting utilities on directly-follows graphs return exactly what they stand for.",
  ["inputs", "configurations"], "all directly-follows graphs and thresholds",
  "tests filter one graph at one or two thresholds",
  ["pm4py/algo/filtering/dfg/dfg_filtering.py", "pm4py/objects/dfg/utils/dfg_utils.py", "pm4py/objects/dfg/filtering/dfg_filtering.py"],
  [("iterative removal with reachability check", "algo/filtering/dfg/dfg_filtering.py")])
p("C37", "Analyses leave their inputs unchanged",
  "Discovery, conformance checking, statistics, filtering, conversion, feature extraction and model analysis functions leave the log, the object-centric log and the model they were given exactly as they were, and calling them twice in a row gives the same result. The only exceptions are operations documented to work in place.",
  ["inputs", "histories"], "all functions, inputs and call sequences",
  "tests call each function once on a fresh input and never compare the input afterwards",
  ["pm4py/discovery.py", "pm4py/conformance.py", "pm4py/stats.py", "pm4py/filtering.py", "pm4py/convert.py", "pm4py/ml.py", "pm4py/org.py", "pm4py/ocel.py", "pm4py/analysis.py"],
  [("defensive copies", "throughout pm4py/algo")])
p("C38", "Marking equation, invariants and decompositions are sound",
  "The marking-equation value for two markings is a lower bound on the cost of every firing sequence between them and exists whenever such a sequence exists, and the extended marking equation is at least as tight. The maximal decomposition covers the net with components that share only places and transitions as allowed, and place invariants found are invariants of every firing.",
  ["inputs"], "all nets and marking pairs",
  "tests evaluate the equation on one net",
  ["pm4py/algo/analysis/marking_equation", "pm4py/algo/analysis/extended_marking_equation", "pm4py/objects/petri_net/utils/incidence_matrix.py", "pm4py/objects/petri_net/utils/decomposition.py", "pm4py/algo/analysis/woflan/place_invariants"],
  [("linear programs", "algo/analysis/marking_equation/variants/classic.py")])
p("C39", "Interval, overlap and batch detection are exact",
  "Lifecycle-to-interval conversion pairs each completion with the matching start, interval-based overlap and concurrency counts equal the number of truly intersecting intervals, and batch detection returns exactly the maximal groups of touching or close intervals per activity and resource with the right batch type.",
  ["inputs"], "all relative orders of interval end points",
  "tests cover one log",
  ["pm4py/objects/log/util/interval_lifecycle.py", "pm4py/statistics/overlap", "pm4py/statistics/concurrent_activities", "pm4py/algo/discovery/batches", "pm4py/algo/transformation/log_to_interval_tree"],
  [("interval merging", "algo/discovery/batches/utils/detection.py")])


def main():
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": q["observe"] or ["public pm4py API"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for q in P:
        if os.path.exists(os.path.join(R, "checks", q["id"] + ".py")) and not q["na"]:
            checks.append({"property": q["id"], "quick_cmd": "./run " + q["id"], "thorough_cmd": "env VERIF_TIER=thorough ./run " + q["id"],
                           "technique": q["technique"] or "bounded exhaustive model checking of the real code against an executable reference model",
                           "level": "model_checking",
                           "level_note": q["note"] or "Every case within the stated bounds is executed on the real code and compared with an independent reference model; nothing is claimed beyond the bounds (listed in the evidence file) and the reference model is trusted."})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "VERIF_TIER selects the bounds (quick is the default)."}
    json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
