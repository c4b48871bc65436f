#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (committed) from the table below and the headers of mc/checks"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LPO = "hadar/optimizer/lp/optimizer.py"
MAP = "hadar/optimizer/lp/mapper.py"
DOM = "hadar/optimizer/lp/domain.py"
INP = "hadar/optimizer/domain/input.py"
OUT = "hadar/optimizer/domain/output.py"
NUM = "hadar/optimizer/domain/numeric.py"
UTL = "hadar/optimizer/utils.py"
ANA = "hadar/analyzer/result.py"
ABC = "hadar/viewer/abc.py"
HTM = "hadar/viewer/html.py"
PIP = "hadar/workflow/pipeline.py"
SHU = "hadar/workflow/shuffler.py"
REM = "hadar/optimizer/remote/optimizer.py"

P = []


def prop(id, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


prop("C01",
     "For every solvable study, scenario and time step, the dispatch returned by the local optimizer uses each production, each link and each "
     "served consumption between zero and the quantity the study gives for that cell. At each node of each network, production plus imports plus "
     "storage outflow plus converter output equals served consumption plus exports plus storage inflow plus converter input. The answer holds one "
     "(scenario, time) matrix for each element of the study, under the same names and in the same order, and nothing else.",
     ["inputs", "configurations"],
     "all studies: any graph of nodes and links in any number of networks, any mix of elements, costs and quantities given as number, row, column or matrix, any horizon and number of scenarios",
     "the tests solve about a dozen fixed studies and compare with literals; a wrong sign, bound, index or mixed-up element in another topology, size or cell is not reached",
     [LPO, MAP, DOM], [("adequacy constraint per node", LPO + " AdequacyBuilder"), ("variable bounds", MAP + " InputMapper"), ("read back of the variables", MAP + " OutputMapper")],
     "explicit enumeration of bounded study families, every answer replayed through the model's transition relation",
     "Every study of the families within the bounds is solved by the real code (controlled and genuine pool) and each (scenario, t) cell is checked; trusts numpy arithmetic and a 1e-5 tolerance.",
     ["Result returned by LPOptimizer.solve"])
prop("C02",
     "For every storage of every node and every scenario of a solved study, the level at each step equals the previous level (the initial capacity "
     "at the first step) plus efficiency times the inflow minus the outflow. Levels, inflows and outflows stay between zero and the capacity and "
     "flow limits the study gives for that storage, scenario and step. This holds for any number of storages on a node.",
     ["inputs", "histories"],
     "all studies with storages, any horizon, any varying capacity, flow limit, efficiency, holding cost and initial level",
     "tests use one storage, three steps and constant data; a coupling lost between two steps, two storages or two nodes gives no failing test",
     [LPO, MAP, DOM], [("storage coupling constraint", LPO + " StorageBuilder"), ("bounds of storage variables", MAP + " InputMapper")],
     "trace validation of every answer against the storage automaton, on enumerated study families",
     "Each scenario answered is a trace of the storage automaton checked step by step; bounded horizons, values and at most three storages per node.",
     ["Result returned by LPOptimizer.solve"])
prop("C03",
     "For every converter, scenario and time step of a solved study, the output delivered to the destination equals, for each source separately, "
     "the energy taken from this source times its ratio. The output stays between zero and the maximum of the converter for that cell. "
     "This holds whatever the number of sources, for converters sharing a source or a destination, chained, or inside one network.",
     ["inputs", "configurations"],
     "all studies with converters, any ratio, maximum, cost varying with scenario and time",
     "tests solve one converter with two sources and constant ratios",
     [LPO, MAP, DOM], [("converter mix constraint", LPO + " ConverterMixBuilder"), ("bounds of converter variables", MAP + " ConverterMapper")],
     "explicit enumeration of bounded converter studies, every answer checked against the converter relation",
     "Every converter study of the families is solved by the real code and every (converter, source, scenario, t) checked.",
     ["Result returned by LPOptimizer.solve"])
prop("C04",
     "The dispatch returned for each scenario has the least total cost among all admissible dispatches: cost of consumption not served, use of "
     "productions, links and converter outputs, and holding cost of storage levels, each weighted by the cost the study gives for that scenario and "
     "time step. In particular load is shed only when serving it costs more or is impossible, and storages anticipate the whole horizon.",
     ["inputs", "histories"],
     "all studies and all alternative dispatches (link flows, converter outputs, storage flows over the whole horizon)",
     "tests compare a few studies with literals computed by the same solver; they never compare with the other admissible dispatches",
     [LPO, MAP, DOM], [("objective", LPO + " ObjectiveBuilder"), ("linear solver", LPO + " solve_batch")],
     "explicit-state model checking: all dispatch paths on a lattice (dynamic programming over storage levels), cheapest path against the answer of the real code",
     "The reference model enumerates every state (t, levels) and dispatch of each study; where data are integral the optimum is exact, so both directions are decided.",
     ["Result returned by LPOptimizer.solve"])
prop("C05",
     "The answer for a scenario only depends on the data of this scenario: it is the same when the scenario is solved alone, at another rank, or "
     "together with any others. It does not depend on how scenarios are distributed over worker processes nor on the order in which they finish.",
     ["schedules", "inputs"],
     "every distribution of scenarios to workers, every order of execution and completion, every permutation of scenarios",
     "tests use one or two scenarios and whatever schedule the machine gives",
     [LPO, MAP], [("distribution to a process pool", LPO + " solve_lp"), ("merge by scenario", LPO + " solve_lp / OutputMapper")],
     "exhaustive exploration of pool schedules on the real code (controlled pool), answers compared with solo runs",
     "All assignments, orders and completions up to 4 (quick) or 5 scenarios; larger ones with the genuine pool and 1..8 workers. Workers interact only through pickled messages.",
     ["Result returned by LPOptimizer.solve"])
prop("C06",
     "When at least one scenario of a study has no admissible dispatch, solving raises an error instead of returning a result. When every scenario "
     "has one, solving returns a result. This does not depend on the rank of the scenario nor on the worker schedule.",
     ["inputs", "schedules", "fault_sequences"],
     "all studies where stored energy may have nowhere to go, every placement of infeasible scenarios",
     "no test solves an infeasible study",
     [LPO], [("status of the solver", LPO + " solve_batch")],
     "explicit-state reachability decides feasibility of each enumerated study; the real solve must raise iff no path exists",
     "Integer data without losses make the lattice exact; only infeasibility created by storages exists in this model (loads can be shed).",
     ["LPOptimizer.solve"])
prop("C07",
     "Solving never alters the study it is given. Solving the same study again, with the same or another optimizer, after other solves, refused "
     "solves, analyses, copies or JSON round trips gives the same answer as in a fresh program. Extending a study between two solves is taken "
     "into account entirely and only for that study. The timings of a result are those of its own solve, one of modelling and one of solving per scenario.",
     ["histories"],
     "every sequence of solve, extend, copy, round trip, analyse and refused solve up to the bound",
     "each test solves one fresh study once",
     [LPO, MAP, INP], [("variables built anew for each solve", LPO + " solve_lp"), ("no shared state in builders", LPO)],
     "exhaustive enumeration of operation histories on the real code, content and answers compared with a reference model after each step",
     "Every history up to depth 3 (quick) / 4 (thorough) over 4 studies with a unique optimum.",
     ["Study, Result"])
prop("C08",
     "A study holds exactly the networks, nodes, elements and values named by the chained building calls made so far, in call order, each in the "
     "network and node selected at that point of the chain. Selecting an existing network or node resumes it without loss, a selector kept aside keeps "
     "denoting its own place, two studies never mix, and every chain can be closed into the study it began with. Parameters left out take their documented default.",
     ["histories", "programs"],
     "every sequence of building calls, selectors reused in any order, two interleaved studies",
     "tests build half a dozen linear chains",
     [INP], [("selectors", INP + " NetworkFluentAPISelector, NodeFluentAPISelector"), ("registration", INP + " Study._add_*")],
     "exhaustive enumeration of call histories replayed on the real builder and on a reference model (state machine conformance)",
     "All histories to depth 6/7 over a 14 call alphabet, breadth-first on model states beyond.",
     ["content of Study"])
prop("C09",
     "A building call with a negative quantity, capacity, flow or initial level, an efficiency below 0 or above 1, data of wrong shape or type (values of a study of another size included), "
     "a name already used in its place, or an unknown node is refused with a ValueError, wherever the faulty entry lies in the data. A refused call leaves "
     "the study exactly as it was, and the corrected call is then accepted. Valid data are never refused.",
     ["inputs", "fault_sequences"],
     "every call, parameter, accepted form, position of the bad entry and bad value",
     "tests try one scalar per validation rule and never look at the study after a refusal",
     [INP, NUM], [("validation", INP + " Study._add_*"), ("shape and type validation", NUM + " NumericalValueFactory")],
     "exhaustive enumeration of single faults over calls x parameters x forms x positions, state compared before and after",
     "All single bad entries in all accepted forms up to 3x3 cells.",
     ["ValueError, content of Study"])
prop("C10",
     "A number, a row of one value per time step, a column of one value per scenario and a full matrix, given as list, array of any numeric type or "
     "layout, or pandas object, mean respectively the same value everywhere, the same row for each scenario, the same column for each time step, and "
     "each cell its own. Every element and every attribute reads it this way, in the study, in the analyzer and in the solver. It compares (<, >, <=, >=) with a number as all of its values do. The caller's data are not altered, and what the caller does to them afterwards does not change the study.",
     ["inputs", "configurations"],
     "all horizons and numbers of scenarios, all forms, types, elements and attributes",
     "tests read single cells of fixed small arrays",
     [NUM, INP, MAP], [("broadcast", NUM + " NumericalValue*"), ("factory", NUM + " NumericalValueFactory.create")],
     "exhaustive enumeration of sizes x forms x attributes with distinct cells, compared with the documented broadcast",
     "All sizes up to the bound, including the ambiguous square and one-line cases.",
     ["value[scn, t], analyzer tables, solver answers"])
prop("C11",
     "Writing a study to JSON and reading it back, directly or through text, any number of times, gives a study with the same content and form, equal to "
     "the first one and solved the same way. Neither the study nor the JSON document is altered by writing or reading.",
     ["inputs", "histories"],
     "all studies, all forms of values, repeated round trips",
     "tests round trip one small study per class",
     [INP, NUM, UTL], [("to_json/from_json", UTL + " JSON, " + INP), ("numeric forms", NUM)],
     "exhaustive enumeration of bounded studies, content compared after every round trip",
     "All subsets of element kinds and forms within bounds.",
     ["to_json, from_json"])
prop("C12",
     "Writing a result to JSON and reading it back, directly or through text, any number of times and twice from the same document, gives a result with "
     "the same content, equal to the first one and analysed the same way. Neither the result nor the document is altered.",
     ["inputs", "histories"],
     "all results, synthetic and computed, repeated round trips",
     "tests round trip one small result",
     [OUT, UTL], [("to_json/from_json", UTL + " JSON, " + OUT)],
     "exhaustive enumeration of bounded results, content compared after every round trip",
     "All subsets of element kinds within bounds, every cell different, and the answers of the solver on the study families.",
     ["to_json, from_json"])
prop("C13",
     "Two studies, or two results, built with the same content are equal, both ways, and copies are equal to their original. Changing one value of one "
     "attribute, one name, one size, adding or removing one element makes them different, both ways.",
     ["inputs"],
     "all studies and results and all single changes",
     "tests use equality to compare small objects, never to tell near-equal ones apart",
     [UTL, INP, OUT, NUM], [("equality", UTL + " DTO.__eq__"), ("numeric equality", NUM)],
     "exhaustive enumeration of single mutations of bounded studies and results",
     "Every single-cell, name, size and structure mutation of the bounded family.",
     ["=="])
prop("C14",
     "For each kind of element (consumption, production, storage, link, converter input and output), a query on the analyzer gives one row per network, "
     "node, element, scenario and time step of the study, holding the inputs of the study and the outcomes of the result for precisely that cell. Homonyms in other nodes "
     "or networks, several converters sharing nodes, and the order of entries in the result do not matter; node and element counts are those of the study.",
     ["inputs", "configurations"],
     "all studies and results: any subset of element kinds, any sizes, homonyms, several converters",
     "tests check one table per kind with two elements and constant cells",
     [ANA], [("tables", ANA + " _build_*"), ("filters", ANA + " filter")],
     "exhaustive enumeration of (study, result) pairs with a different number in every cell, each table compared with a reference table",
     "All subsets of element kinds up to two of each, sizes up to 12x11, plus a rich two-network pair.",
     ["ResultAnalyzer queries"])
prop("C15",
     "The answer of an analyzer query holds exactly the rows kept by its filters (single value, list, slice, or no filter), indexed by the levels in call "
     "order, single-value leading levels removed, and sorted. It does not depend on queries made before, and a partial query can be kept and "
     "continued several times in different ways. Changing an answer does not change the following ones.",
     ["histories", "inputs", "programs"],
     "every order of the query calls, every combination of filters, every reuse of a partial query",
     "tests run one order and one filter per query",
     [ANA], [("selector", ANA + " NetworkFluentAPISelector"), ("index filters", ANA + " Index, IntIndex"), ("pivot", ANA + " filter")],
     "exhaustive enumeration of call orders x filter combinations and of query histories, compared with a reference query over rows",
     "All 24 orders x 6 kinds, all combinations of two (quick) or three (thorough) filters, all prefix reuses.",
     ["ResultAnalyzer queries"])
prop("C16",
     "The cost the analyzer reports for a node is the shed-load cost of its consumptions plus the cost of its productions, outgoing links, stored "
     "levels and incoming converters, by scenario and time step. The cost of a network is the sum over its nodes and the cost of the study the sum over its "
     "networks. On a solved study the total over time is the optimum reached for each scenario.",
     ["inputs", "configurations"],
     "all studies and results, all nodes and networks",
     "tests check two nodes of one study",
     [ANA], [("get_cost", ANA), ("get_elements_inside", ANA)],
     "exhaustive enumeration of (study, result) pairs and of solved bounded studies, compared with the documented cost and with the explicit-state optimum",
     "All subsets of element kinds; solved families compared with the optimum of the reference model.",
     ["get_cost"])
prop("C17",
     "The balance of a node is the energy it exports minus the energy it imports over links in its own network, and balances of a network sum to zero. The remaining available "
     "capacity of a network is its unused production minus its unserved consumption, by scenario and time step, zero where it has neither. "
     "Analyses and plots never alter the study or the result and their answers do not depend on those made before.",
     ["inputs", "histories"],
     "all graphs, all results, every sequence of analysis operations up to the bound",
     "tests check two nodes of one study, one call each",
     [ANA, ABC, HTM], [("get_balance, get_rac", ANA)],
     "exhaustive enumeration of link graphs and of analysis histories on the real analyzer",
     "All 64 directed graphs on 3 nodes with a homonym network, all element subsets; histories to depth 2/3 over 14 operations.",
     ["get_balance, get_rac"])
prop("C18",
     "The timeline, monotone, gaussian and storage candle plots of an element draw exactly the values of the selected network, node, element and kind (asked, given, available, used): "
     "one curve per scenario, decreasing values for the monotone of one time step or one scenario, points split into passed and failed by the sign of the remaining "
     "capacity of the network at the same cell, opening and closing levels for candles. Time axes run evenly from the given start to the given end, or are step ranks when neither is given. "
     "Asking both a time step and a scenario, or giving only one end of the time axis, is refused with a ValueError.",
     ["inputs", "configurations"],
     "every element, kind, scenario, time step and sign pattern of the remaining capacity",
     "tests check calls on a mock or hash one figure",
     [ABC, HTM], [("element selectors", ABC + " *FluentAPISelector"), ("figures", HTM + " HTMLElementPlotting")],
     "exhaustive enumeration of elements x kinds x cells x sign patterns, figure data compared with a reference reading",
     "Every element of a two-network pair with distinct cells; all 81 sign patterns on 2x2 cells. Colors and layout are not judged.",
     ["plotly figures of HTMLPlotting"])
prop("C19",
     "The stack of a node draws its productions, storage outflows, converter outputs and net imports as stacked areas and its consumptions, storage "
     "inflows, converter inputs and net exports as stacked lines, for the asked scenario and kinds. The exchange map draws each node with its balance and one arrow per linked pair in the direction "
     "and with the amount of the net flow at the asked scenario and time. The remaining capacity matrix shows each cell, scaled by sign, with the percentage of non-negative cells.",
     ["inputs", "configurations"],
     "every node, subset of elements, graph of links, flow combination, scenario and time",
     "tests check calls on a mock or hash one figure",
     [ABC, HTM, ANA], [("stack", ABC + " NodeFluentAPISelector.stack"), ("map, rac_matrix", ABC + " NetworkFluentAPISelector"), ("figures", HTM)],
     "exhaustive enumeration of element subsets, link graphs, flow and sign patterns, figure data compared with a reference reading",
     "All subsets of element kinds, all 64 graphs on 3 nodes, all flows in {0,1,2} on opposite links, all sign patterns on 2x2 cells.",
     ["plotly figures of HTMLPlotting"])
prop("C20",
     "A stage can be appended to a pipeline exactly when the columns it needs are among those announced by what precedes (always, if all that precedes accepts any columns); otherwise a ValueError "
     "is raised at link time, however the pipeline is assembled. An accepted pipeline refuses with a ValueError a frame lacking a column it needs and otherwise runs all its stages in order and delivers the announced "
     "columns. Assembling never alters stages or pipelines used as operands.",
     ["programs", "histories", "inputs"],
     "every sequence of stages up to the bound, assembled in every way, on every set of columns",
     "tests link pairs of mock stages",
     [PIP], [("plug algebra", PIP + " FreePlug, RestrictedPlug"), ("assembly", PIP + " Pipeline, Stage.__add__")],
     "exhaustive enumeration of stage sequences and assemblies on the real code against the plug automaton",
     "All sequences to depth 4/5 over 14 shared stage objects, run on all column subsets to depth 3/4.",
     ["Pipeline, +"])
prop("C21",
     "Clip, Rename, Drop, RepeatScenario, ToShuffler and user stages transform each scenario of a frame as documented whatever its scenario labels, column order, extra columns, "
     "number types and time index; values of other columns and the time index pass through. A frame without scenarios is read as scenario zero. "
     "The frame given by the caller is never altered, and a pipeline gives what its stages give one after the other.",
     ["inputs", "programs"],
     "every stage and parameter x every layout of frame",
     "tests run each stage on one frame with a plain index",
     [PIP], [("stages", PIP + " Clip, Rename, Drop, RepeatScenario, FocusStage"), ("standardization", PIP + " Stage.standardize_column")],
     "exhaustive enumeration of stages x parameters x frame layouts against reference stages",
     "5 time indexes x 4 column sets x 5 scenario layouts x interleaving x dtype; all pairs of stages on a slice of them (all in thorough).",
     ["DataFrame returned"])
prop("C22",
     "Fault lowers the quantity of each scenario by the loss over faults which begin anywhere in the horizon and last between the minimal and the maximal downtime (cut at the horizon), "
     "overlapping faults adding up, at most one per time step drawn with the given probability: none at 0, one per time step at 1. Other columns and the time index are unchanged. The same seed, including 0, always gives "
     "the same faults whatever happened before; without seed, runs are independent.",
     ["inputs", "schedules", "histories"],
     "every answer of the random generator, every parameter of the grid, every seed and history of draws",
     "the test runs one seed",
     [PIP], [("Fault", PIP + " Fault._process_scenarios"), ("reseed", PIP + " Stage.__call__")],
     "stateless exploration of all random answers under a controlled generator, outcomes checked in the reachable set of a fault automaton",
     "All answers for horizons up to 3 (4 on some cases), plus seeds of a range with the genuine generator.",
     ["DataFrame returned"])
prop("C23",
     "Shuffling gives, for each registered timeline, as many rows as asked, each a whole row of this timeline's data (raw, or the output of its pipeline), precisely the rows its sampler, any callable, named. "
     "It does not depend on the order of registration, worker schedule or previous shuffles; sources are not altered and a name registered again is replaced. With the default sampler, timelines and successive shuffles are "
     "drawn independently; a pipeline which cannot feed the shuffler is refused with a ValueError when added.",
     ["schedules", "inputs", "histories"],
     "every answer of the sampler, kind of source, registration history and worker schedule up to the bound",
     "tests use one mock sampler and one schedule",
     [SHU, PIP], [("compute in pool", SHU + " Shuffler.shuffle"), ("sampling", SHU + " Timeline.sample")],
     "exhaustive exploration of sampler answers, registration histories and pool schedules on the real code",
     "Up to 3 timelines, 3 scenarios; all schedules over 2 workers, inline and forked; the genuine pool and generator on one large case.",
     ["dict returned by shuffle"])
prop("C24",
     "A remote solve posts the study once with the token, then asks for the result of the job it was given, with the token, until the job is neither queued nor computing (its status alone decides), and returns the result "
     "of the server. It raises a ValueError on HTTP 404 or 403, an IOError on 500, at any request, and an error bearing the server's message when the job failed; it sends nothing more afterwards. "
     "It lets time pass between two polls, does not alter the study nor depend on earlier jobs.",
     ["fault_sequences", "histories", "inputs"],
     "every sequence of server answers up to the bound, any url prefix, token and job identifier",
     "the test plays one POST and one GET",
     [REM, "hadar/optimizer/optimizer.py"], [("protocol loop", REM + " solve_remote"), ("codes", REM + " check_code")],
     "exhaustive enumeration of server answer sequences played by a loopback server against the real client, checked by the protocol automaton",
     "All answer sequences up to 5/7 polls over 3 pending and 5 final answers; pairs of jobs.",
     ["HTTP requests received, Result or exception"])


def header(id):
    t = ast.parse(open(os.path.join(ROOT, "mc", "checks", id.lower() + ".py")).read())
    return {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TITLE", "LEVEL")}


with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        h = header(p["id"])
        assert len(h["TITLE"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=h["TITLE"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in [(m if len(m) == 2 else (m[0], m[0])) for m in p["mech"]]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd="bin/check " + p["id"], thorough_cmd="VERIF_TIER=thorough bin/check " + p["id"],
               technique=p["technique"], level=header(p["id"])["LEVEL"], level_note=p["note"]) for p in P]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
                   notes="No hooks: checks drive the public API of /repo's working tree with controlled pools, random generators and a loopback server."), f, indent=1)
    f.write("\n")
