NOTES = "One shared harness crate drives the whole of /repo, built offline with stand-ins for the crates that cannot be fetched (see DESIGN.md)."
HOOKS = {"guard": "cfg(reveaal_mc)", "enable": "RUSTFLAGS='--cfg reveaal_mc'", "source_commits": ["90614dfa2ec8dff3ebf8991d37a7a600cfe18ae1", "e889ea98e732ff8b43efdeb226140b986791473d"]}
NA = {}
TRUST = " Trusts: the stand-in crates (exact DBM federations, parsers), the region-graph reference and the bounds in DESIGN.md."
CHECKS["R01"] = ("explicit-state region-graph game on every pair of a bounded model space, verdict compared with the real query",
  "Exhaustive over the stated spaces of model pairs; the model is bound to the code by asking the real refinement query for every pair." + TRUST)
CHECKS["R02"] = ("exhaustive enumeration of alphabet and operand combinations against the precondition rules",
  "All direction assignments of three actions on both sides and all operand defects; real refinement query for each." + TRUST)
CHECKS["D01"] = ("explicit-state exploration of every component of a bounded space for overlapping transitions, two-sided comparison with the real query",
  "Exact for reachable overlaps (must reject) and for components without any overlap (must accept); components whose only overlaps are in unreachable valuations may be answered either way." + TRUST)
CHECKS["D02"] = ("greatest fixpoint over every location graph of a bounded space, compared with the real consistency query under several hash orders",
  "Exact for components whose edges reset all clocks and whose inputs are unguarded; elsewhere only that components without reachable stuck states are accepted." + TRUST)
CHECKS["R03"] = ("explicit-state exploration of the joint region graph of every failing pair until a state is found among the reported ones that fails as reported",
  "Every failing query of the R01 spaces; locations, zone, action and way of failing are judged together." + TRUST)
CHECKS["D03"] = ("exhaustive enumeration of components; the location and action every failing query reports are looked up among the overlaps and the losing states of the reference",
  "Every failing query of the D01 and D02 spaces; overlaps by all regions of the location, losing states by greatest fixpoint, their zone compared region by region in the class where D02 is exact." + TRUST)
CHECKS["T01"] = ("exhaustive enumeration of id trees and of all paths over a pool of ids, real functions compared with a reference on every one",
  "Exhaustive to the stated depth, width and path length; compiled from transition_id.rs alone, so nothing else is trusted but the reference in tid/src/main.rs.")
CHECKS["T02"] = ("exhaustive enumeration of id trees: printed form against a reference printer, and all single-leaf variants and equal-shape pairs for injectivity",
  "Exhaustive to the stated depth and width; compiled from transition_id.rs alone.")
CHECKS["A01"] = ("region-graph exploration of every model of a bounded space from every start and for every goal, compared with the real reachability query",
  "Exhaustive over the stated spaces of systems, starts and goals; every verdict compared." + TRUST)
CHECKS["A02"] = ("replay of every reported path on the region semantics of the reference product, step by step",
  "Every witness the implementation returns over the stated spaces is executed on the reference; locations, edges, instances and zones are checked per step." + TRUST)
CHECKS["O01"] = ("alphabet probes and breadth-first walk of the product through the simulation service, every state's moves compared with the reference product",
  "Exhaustive over the stated spaces of operands; alphabets read off through refinement probes, moves, guards, invariants and resets through simulation states." + TRUST)
CHECKS["M01"] = ("all decision sequences to a bounded depth through the real simulation requests, every offered set compared with the reference",
  "Exhaustive over the stated spaces and depth; deterministic systems only (taking a decision of an ambiguous system is documented to panic); edges of quotient rules without own moves are not compared." + TRUST)
CHECKS["K01"] = ("exhaustive model spaces, every query answered twice through the real service, with clock reduction disabled and enabled",
  "Exhaustive over the stated spaces (irrelevant, agreeing, blocked and shared clocks, compositions, conjunctions, quotients, both sides of a refinement); systems whose answer depends on unreachable overlaps or inexact consistency are skipped, counted by the reference explorer." + TRUST)
CHECKS["O02"] = ("exhaustive triples X, A, B from fixed catalogues: real verdicts of X <= A && B against X <= A and X <= B and against the reference product explored on regions",
  "Every triple of the stated catalogues, three-way conjunctions, all alphabets over three actions; conjunctions the consistency check may reject conservatively (see D02) are only required to be answered when no stuck state is reachable." + TRUST)
CHECKS["O03"] = ("exhaustive triples X, T, S: real verdicts of S || X <= T and X <= T // S against the reference composition explored on regions",
  "Eight ways of sharing actions, nested and composed quotients, all alphabets over three actions; X, T, S deterministic and without reachable stuck states." + TRUST)
CHECKS["G01"] = ("exhaustive enumeration of guard and update texts to a bounded size, denotation of each compared point by point with a reference evaluator on a grid that separates all their regions",
  "Every text of the stated grammar and size, both spacings and groupings; accepted texts must denote the reference set, unsupported ones must be refused; update lists and their inverse images on every zone of the space." + TRUST)
CHECKS["G02"] = ("exhaustive enumeration of expression trees, value before and after simplification, index swap, printing and re-reading compared in every valuation of a grid",
  "Every tree to the stated size; simplification of arithmetic is compared for constant arithmetic and a clock plus or minus constant arithmetic." + TRUST)
CHECKS["I01"] = ("exhaustive enumeration of components with up to three input edges; loaded component compared with the missing inputs in every valuation of a grid that separates all regions",
  "Two locations, one to three clocks, guards with disjunctions and differences, update lists, target invariants; loaded both through a request and through a container." + TRUST)
CHECKS["L01"] = ("exhaustive enumeration of all location trees to a bounded size and of all pairs of them",
  "Every shape with up to four (thorough: five) component locations, all labels including partial and special ones; invariants compared point by point." + TRUST)
CHECKS["Q01"] = ("exhaustive enumeration of token strings to a bounded length, every one read by the real parser and compared with a reference grammar, and its printed form read again",
  "All token strings of the stated alphabets and lengths with wide and tight spacing, operator chains with all parenthesisations, and all one-token edits of well-formed queries." + TRUST)
CHECKS["V01"] = ("exhaustive enumeration of request histories against one server, every answer compared with that of a freshly started server",
  "All pairs of 256 requests (2 users, 4 models, two of them broken, hashed and not, 16 kinds of which 7 fail) for two cache sizes, all triples and longer histories over smaller alphabets; in-process service object, no network transport." + TRUST)
CHECKS["V02"] = ("all operation histories of the model cache against a reference cache, and all thread interleavings of concurrent clients on the real server under a controlled scheduler (cfg reveaal_mc)",
  "Histories to length six (thorough: seven); schedules of real requests switch only where shared state is accessed, quick with at most three preemptions, thorough without bound; direct cache programs checked for an explaining order over all interleavings." + TRUST)
CHECKS["V03"] = ("all thread interleavings of concurrent token requests on the real server under a controlled scheduler (cfg reveaal_mc), and all short request histories",
  "Up to three clients and six tokens (thorough: four clients, eight tokens); sequentially consistent memory; 100000 tokens in sequence." + TRUST)
CHECKS["F01"] = ("exhaustive enumeration of declaration layouts, of small models times queries over every route into the tool, and of query histories on one loader, all answers compared",
  "Every layout of the stated grammar through the real loaders; every model and query by JSON and XML request, project folder, XML file and (for a part) the real program; all query sequences of length three (thorough: four). XML encodings and entities are not explored." + TRUST)

CHECKS["S01"] = ("exhaustive enumeration of small systems; for each the saved component is compared with a reference model of the system by timed bisimulation on their joint region graph, and questioned over three routes in scratch projects",
  "Single components, compositions, conjunctions and quotients of a catalogue (one or two locations, up to two clocks, constants up to 2, disjunctive and diagonal guards, special locations), with and without clock reduction, and all clashes of six clock names over three components. Quotients with more than three (thorough: four) clocks in total are left out." + TRUST)
CHECKS["S02"] = ("exhaustive enumeration of small systems; for each the pruned component is compared with a reference model of the system by timed bisimulation on their joint region graph",
  "The same space as S01. Removing inconsistent parts is not covered: the combined component forgets which locations are inconsistent, so that nothing is ever pruned." + TRUST)
