import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
TS="src/TransitionSystems/"; SY="src/System/"
p("R01","Refinement verdicts equal the timed simulation game",
 "For components that are deterministic and consistent, the query `refinement: S <= T` succeeds exactly when every state reachable in the joint behaviour satisfies: each output of S is an output T can match, each input of T can be matched by S, and T never cuts a delay S can make (including from the initial state). The verdict must not depend on clock constants, strictness of bounds, resets, order of edges, or naming.",
 ["programs","inputs"],"all pairs of small timed I/O components over a bounded alphabet of guards, invariants, resets and actions",
 "The repository's tests ask about a fixed set of sample models; a wrong guard, delay or extrapolation treatment shows only for particular combinations of bounds, resets and locations.",
 [SY+"refine.rs","src/ModelObjects/statepair.rs","src/DataTypes/passed_state_list.rs"],
 [("pairwise zone exploration with passed/waiting lists",SY+"refine.rs check_refinement"),("delay cut check",SY+"refine.rs build_state_pair")],
 ["gRPC QueryResponse for refinement queries"])
p("R02","Refinement requires compatible alphabets and sound operands",
 "A refinement query is rejected before exploration exactly when an operand is inconsistent or nondeterministic or the alphabets are incompatible (S's inputs must be among T's inputs, T's outputs among S's outputs, and no action may be input on one side and output on the other); the response then names the offending action sets with the right system and direction. Actions only T listens to, or only S emits, are ignored by the side that lacks them.",
 ["programs","configurations"],"all pairs of input/output alphabets over three actions, and operands that fail each precondition",
 "Tests cover five hand-picked alphabets; the rule quantifies over every assignment of actions to sides and directions.",
 [SY+"refine.rs",SY+"query_failures.rs"],[("check_preconditions",SY+"refine.rs"),("extra inputs/outputs",SY+"refine.rs extra_actions")],["gRPC QueryResponse"])
p("D01","Determinism verdicts",
 "The determinism query rejects a system whenever some reachable state enables two different same-action transitions at the same clock valuation, and accepts it whenever no location has two same-action transitions that can be enabled by one valuation satisfying the location's invariant and leading to satisfied target invariants. The reported action is one for which such an overlap exists.",
 ["programs"],"all small components with up to three edges over guard, invariant, reset and target combinations, alone and composed",
 "Overlap depends on strictness, invariants and resets of both edges; tests use a handful of sample automata.",
 [SY+"local_consistency.rs"],[("is_deterministic_helper",SY+"local_consistency.rs")],["gRPC QueryResponse"])
p("D02","Consistency verdicts",
 "A component whose edges reset all clocks and whose inputs are unguarded is reported consistent exactly when it has an implementation: no state reachable under some choice of outputs and all choices of inputs is stuck (bounded by its invariant with no output leading to a good state), regardless of which other states were visited before. A component whose initial invariant admits no valuation has no initial state and is inconsistent. A component without outputs is consistent exactly when no location with a bounded invariant is reachable. A composition or quotient is reported consistent exactly when every component it is made from is.",
 ["programs"],"all small components with cyclic and acyclic output/input structure, bounded and unbounded invariants",
 "The result depends on the order in which shared successor states are visited and on hash iteration order; samples contain no such sharing.",
 [SY+"local_consistency.rs"],[("consistency_least_helper",SY+"local_consistency.rs")],["gRPC QueryResponse"])
p("R03","A failed refinement shows where it fails",
 "When a refinement query S <= T of usable operands with fitting alphabets fails, the response names the refinement, one location of every component instance on both sides, a set of clock valuations over the clocks of these instances, and an action; some state with these locations and one of these valuations can be reached in the joint behaviour of S and T and fails as the response says: the action is an output of S that T cannot match or an input of T that S cannot match there, or both sides can take it and then S can delay where T's invariant forbids it (an empty action: this happens from the initial state).",
 ["programs","inputs"],"every refinement query of the R01 space that fails",
 "Tests look at the kind of failure of a few sample models, never at whether the reported state can be reached or fails in the reported way.",
 [SY+"refine.rs",SY+"specifics.rs",SY+"query_failures.rs","src/ProtobufServer/proto_conversions.rs"],[("check / build_state_pair",SY+"refine.rs"),("from_state_pair",SY+"specifics.rs")],["gRPC QueryResponse"])
p("D03","Failed determinism and consistency queries show where they fail",
 "When a determinism query fails, the response names a component of the system by its instance, a location of it that a sequence of its edges leads to, and an action of which two transitions can be enabled together within that location's invariant. When a consistency query fails, it names a component that has no initial state, or a component and a location of it that a sequence of its edges leads to and from which being stuck cannot be avoided (for the components for which the verdict is exact), together with the valuations that the component can have in that location.",
 ["programs"],"every determinism and consistency query of the D01 and D02 spaces that fails",
 "Tests look at the kind of failure only; the location named depends on which alternatives were tried before.",
 [SY+"local_consistency.rs",SY+"query_failures.rs",SY+"specifics.rs"],[("is_deterministic_helper, consistency_least_helper",SY+"local_consistency.rs"),("from_state",SY+"specifics.rs")],["gRPC QueryResponse"])
p("A01","Reachability verdicts",
 "A reachability query answers positively exactly when some finite sequence of delays and transitions from the given start state (or the initial state) meets the goal state's locations and clock constraints, for single components, compositions, conjunctions and quotients (whose goals name at least one location), with the goal fully or partially specified and constrained by conjunctions and disjunctions of clock bounds and clock differences, also where they are written as sums on either side. Disjunctions over locations, negations, locations or clocks of components or instances the system does not have, and two locations of one instance are refused, never read as something else; names are told apart exactly.",
 ["programs","inputs"],"all small (compositions of) components, start states and goal states with clock constraints in a bounded alphabet",
 "Depends on extrapolation bounds, subsumption of visited zones and partial-location matching for every model and goal.",
 [SY+"reachability.rs",SY+"extract_state.rs"],[("find_path/search_algorithm",SY+"reachability.rs"),("get_state",SY+"extract_state.rs")],["gRPC QueryResponse"])
p("A02","Reachability witnesses are executable",
 "When a reachability query succeeds, the returned path starts in the start state, each step's edges are edges of the named component instances that together perform the step's action between the step's source and destination locations, consecutive steps connect, every step is executable with suitable delays, and the last state meets the goal; a goal met at the start gives an empty path.",
 ["programs","inputs"],"every positive answer of the A01 space",
 "Tests compare edge names of a few sample paths; the property is about every step of every witness.",
 [SY+"reachability.rs",SY+"specifics.rs",TS+"transition_id.rs"],[("make_path",SY+"reachability.rs"),("edge attribution",SY+"specifics.rs")],["gRPC ReachabilityPath"])
p("O01","Composition is the synchronised product",
 "The behaviour of `A || B` is the synchronised product: shared actions (output with input, or input with input) move both sides under the conjunction of guards, other actions move one side and leave the other's location and clocks unchanged, invariants are conjoined, an action is an output if either side outputs it, and clocks of different instances are independent; two sides that output the same action are rejected.",
 ["programs","configurations"],"all pairs (and triples) of small components and of alphabets",
 "Correctness is about every reachable joint state and action; tests look at a few alphabets and samples.",
 [TS+"composition.rs",TS+"transition_system.rs",SY+"extract_system_rep.rs"],[("next_transitions",TS+"composition.rs"),("clock numbering",SY+"extract_system_rep.rs get_system_recipe")],["simulation responses","saved component"])
p("O02","Conjunction is the greatest lower bound",
 "`A && B` allows exactly the behaviour both sides allow: X <= A && B holds exactly when X <= A and X <= B, for operands over the same alphabet whose conjunction is accepted as consistent, and A && B refines both; a conjunction no reachable state of which is stuck is accepted, and one whose sides disagree on directions or whose transitions reset all clocks and that has no consistent behaviour is rejected as such.",
 ["programs","configurations"],"all triples of small components",
 "Universally quantified over X; tests check a few refinements of sample models.",
 [TS+"conjunction.rs"],[("next_transitions/new_ts",TS+"conjunction.rs")],["gRPC QueryResponse"])
p("O03","Quotient is adjoint to composition",
 "For deterministic, consistent T and S for which `T // S` is defined, S || X <= T holds exactly when X <= T // S, for every deterministic, input-enabled consistent X over the quotient's alphabet; the quotient's inputs and outputs and, state by state, its transitions (those to the universal and the inconsistent location and the additional input included) are those prescribed by the theory, and incompatible alphabets are rejected.",
 ["programs","configurations"],"all triples of small components",
 "The law quantifies over all X, S and T; tests evaluate fixed samples.",
 [TS+"quotient.rs"],[("quotient rules",TS+"quotient.rs next_transitions")],["gRPC QueryResponse"])
p("K01","Clock reduction never changes an answer",
 "Refinement, consistency and determinism queries give the same answer with clock reduction enabled and disabled, for every model, including models with unused clocks, clocks that always agree, clocks used on one side only, several instances of a component, and quotients. Which of several reasons a failed refinement names may differ; answers are compared where D01 and D02 determine them.",
 ["programs","configurations"],"all small models with two or three clocks per query, with and without redundant clocks",
 "Equivalence of two clocks depends on all updates of all components; tests check the removed clocks of a few samples.",
 [SY+"extract_system_rep.rs",TS+"transition_system.rs","src/ModelObjects/component.rs"],[("clock_reduction",SY+"extract_system_rep.rs"),("find_redundant_clocks",TS+"transition_system.rs")],["gRPC QueryResponse"])
p("I01","Input-enabling completes without altering",
 "After loading, in every location and every valuation allowed by its invariant every declared input of the component is enabled; the component's own transitions are unchanged; a transition added for an input is a self-loop that changes no clock and is enabled only where none of the component's own edges for that input was enabled, so determinism is preserved.",
 ["programs"],"all small components over guard, invariant, reset and target-invariant combinations for up to three edges per input",
 "Complement of a union of guard, target invariant and update; tests use three sample files.",
 [SY+"input_enabler.rs"],[("make_input_enabled",SY+"input_enabler.rs")],["component after load"])
p("S01","Saved components behave like the system saved",
 "The component returned by a get-component query (`get-component: X save-as N`), read again, has the same reachable behaviour as the system expression it was made from: the same actions and directions, the same initial state, and at every state the same delays and transitions; only inputs the system cannot take may be ignored by the component instead. This holds with and without clock reduction and whatever the names of clocks and the grouping of the expression. In a project the saved file holds that component, and later questions about it are answered alike by the loader that saved it, by the project opened again and by a request that sends the component.",
 ["programs"],"all small components and binary system expressions with disjunctive guards and clashing clock names, saved and questioned in projects",
 "Combines invariants, guards, updates, clock renaming and text encoding; tests compare counts and refinements of samples in memory.",
 [SY+"save_component.rs","src/DataReader/serialization.rs","src/ModelObjects/Expressions/bool_expression.rs"],[("combine_components",SY+"save_component.rs"),("encode_guard/encode_updates","src/DataReader/serialization.rs")],["gRPC Component result","project file"])
p("S02","Pruning keeps the behaviour of consistent systems",
 "A prune query (`prune: X save-as N`) on a system whose components are deterministic and consistent yields a component that, read again, has the same reachable behaviour as the system, exactly as for get-component; a system with a nondeterministic or inconsistent component may be refused with an error, never with a crash.",
 ["programs"],"all small components and binary system expressions without reachable inconsistency in their components",
 "Pruning rewrites guards, invariants and edges of the combined component; no test runs a prune query.",
 [SY+"pruning.rs"],[("prune_system",SY+"pruning.rs"),("prune",SY+"pruning.rs")],["gRPC Component result","project file"])
p("G01","Guards and updates mean what they say",
 "Every guard or invariant text accepted by the loader denotes exactly the set of clock valuations obtained by evaluating it with the usual grouping (`&&` binds tighter than `||`; `*`, `/` and `%` bind tighter than `+` and `-`, operators of equal strength group to the left, parentheses override) and ordinary integer arithmetic; a text that is not a boolean combination of bounds on a clock or on a difference of two clocks is rejected rather than given another meaning, and a blank guard is true; an update list assigns the written non-negative values in order, and its inverse images (as guard and as free) denote exactly the pre-images.",
 ["inputs"],"all guard and update texts up to a bounded size over two clocks, integer constants and all operators",
 "Space of expressions; tests check single comparisons.",
 ["src/DataReader/parse_edge.rs","src/DataReader/grammars/edge_grammar.pest","src/EdgeEval/constraint_applyer.rs","src/EdgeEval/updater.rs"],[("parse_guard/parse_updates","src/DataReader/parse_edge.rs"),("apply_constraints_to_state","src/EdgeEval/constraint_applyer.rs"),("CompiledUpdate","src/EdgeEval/updater.rs")],["federation of a guard"])
p("G02","Expressions survive simplification and re-encoding",
 "Swapping an expression's variable names for clock indices, or writing it out as text and reading it back, never changes the set of valuations it accepts (or the value it computes); nor does simplifying a boolean combination of comparisons, constant arithmetic, or a clock plus or minus constant arithmetic.",
 ["inputs"],"all boolean and arithmetic expression trees up to a bounded size",
 "Tests pin ten simplifications; the law is about every tree.",
 ["src/ModelObjects/Expressions/bool_expression.rs","src/ModelObjects/Expressions/arith_expression.rs"],[("simplify","src/ModelObjects/Expressions/"),("encode_expr","src/ModelObjects/Expressions/")],["expression values"])
p("Q01","Query texts parse to the query they denote",
 "Every well-formed query text parses to the query with the usual grouping (`&&` binds tighter than `||`, which in systems binds tighter than the quotient; in states `!` applies to the next location, comparison or parenthesis; sums and differences group to the left; parentheses override), keeps component, location and clock names, instance tags and bounds, and printing a parsed system, state or query and parsing it again yields the same; malformed texts, including well-formed ones with trailing text, are refused.",
 ["inputs"],"all system expressions and queries up to a bounded number of operators",
 "Tests fix a few dozen strings.",
 ["src/DataReader/parse_queries.rs","src/DataReader/grammars/query_grammar.pest","src/ModelObjects/Expressions/query_expression.rs"],[("parse_to_query","src/DataReader/parse_queries.rs")],["parsed query"])
p("T01","Transition ids attribute edges to component instances",
 "The component instances of a transition id are, from left to right: for a conjunction or composition those of its left part, then those of its right part; for a quotient those of its left side, then those of its right side, where all ids listed on one side describe the same instances (an id with fewer instances describes the first ones) and a side that lists no id counts as one absent id; a single edge or an absent id is one instance. `get_leaves` returns for every instance, in this order, exactly the edges and absent ids at its position, in the order they are listed. `split_into_component_lists` returns for each instance the step-by-step lists of its edges in path order, leaving out absent ids but keeping the (empty) step; an empty path gives no instances; it reports an error exactly when some id of the path has a different number of instances than the first. No id and no path makes either of them panic.",
 ["programs","inputs"],"all id trees up to a bounded depth with all combinations of absent parts and quotient sides of any length, and all paths of such ids up to a bounded length",
 "Trees with empty quotient sides, nested operators and mixed paths are not among the dozen tested examples.",
 [TS+"transition_id.rs",TS+"quotient.rs"],[("get_leaves/split_into_component_lists",TS+"transition_id.rs")],["leaves","component paths"])
p("T02","Transition ids print unambiguously",
 "The printed form of a transition id shows exactly its structure: the parts of a conjunction, composition and quotient are joined by `&&`, `||` and `\\\\`; a part that is a single edge is printed bare, a part of a conjunction (composition) that is itself a conjunction (composition) without parentheses, and every other part in parentheses; the ids listed on a quotient side follow each other without separator; an absent id prints `NoID`. Ids of the same structure whose edge names have equal lengths print alike, and compare equal, exactly when they are the same.",
 ["inputs"],"all id trees up to a bounded depth",
 "No test prints an id.",
 [TS+"transition_id.rs"],[("Display",TS+"transition_id.rs")],["Display"])
p("L01","Location identity and partial matching",
 "Two locations of a system are equal, and print equally, exactly when they are the same combination of component locations (or the same special location of a quotient); a partial location matches exactly the locations of the same composition structure that agree with it wherever it is specified (`_` stands for any location of one component), symmetrically, and is reported partial exactly when some part is unspecified; the invariant of a composed or conjoined location is the intersection of its parts' invariants, and it is initial exactly when all its parts are.",
 ["inputs"],"all location trees up to a bounded depth",
 "Tests list a dozen pairs.",
 [TS+"location_id.rs",TS+"location_tree.rs"],[("compare_partial_locations",TS+"location_tree.rs"),("Display",TS+"location_id.rs")],["LocationID","LocationTree"])
p("M01","Simulation offers exactly the possible steps",
 "For a deterministic system, starting a simulation returns the initial state and exactly one decision for each action and transition that some state in it can take, with the edges involved and the zone from which it can be taken; taking an offered decision returns its destination and exactly the decisions possible from there, for every sequence of decisions; offered and accepted states keep their locations and zones across the wire.",
 ["programs","histories"],"all decision sequences to a bounded depth over small systems including compositions, conjunctions and quotients",
 "Tests only check that a response is Ok for two steps.",
 ["src/Simulation/decision.rs","src/ProtobufServer/ecdar_requests/simulation_requests.rs","src/DataReader/proto_reader.rs","src/ProtobufServer/proto_conversions.rs"],[("Decision","src/Simulation/decision.rs"),("proto conversions","src/ProtobufServer/proto_conversions.rs")],["SimulationStepResponse"])
p("V01","A server answer depends only on its request",
 "The response to a request is the one a freshly started server would give, whatever requests (valid, malformed, panicking, of the same or other users, with the same or other components, hashes and settings) were served before, up to the documented identification of models by user and hash and the cache capacity; a failing request yields an error status and never ends the server.",
 ["histories","fault_sequences"],"all request sequences to a bounded length over a small alphabet of users, hashes, models, settings and faults",
 "Order and history dependence; tests send one kind of failing request followed by a good one.",
 ["src/ProtobufServer/ecdar_backend.rs","src/ProtobufServer/ecdar_requests/","src/DataReader/component_loader.rs"],[("catch_unwind","src/ProtobufServer/ecdar_backend.rs"),("ModelCache","src/DataReader/component_loader.rs")],["gRPC responses"])
p("V02","The model cache is a correct LRU cache under concurrency",
 "A lookup returns a model only if the last model stored for that user has that hash, never for hash zero, and never another user's model; the most recently used users up to the capacity keep their model; and every interleaving of clients looking up and storing models gives each client the components belonging to its own user and hash.",
 ["histories","schedules"],"all operation sequences up to a bounded length, and all interleavings of two or three clients",
 "Interleavings and eviction orders are not exercised by tests at all.",
 ["src/DataReader/component_loader.rs","src/ProtobufServer/ecdar_requests/request_util.rs"],[("ModelCache","src/DataReader/component_loader.rs"),("get_or_insert_model","src/ProtobufServer/ecdar_requests/request_util.rs")],["ModelCache"],"scheduling points at the cache lock and the token counter (cfg reveaal_mc)")
p("V03","User tokens are unique",
 "No two token requests served by one server, sequentially or concurrently, return the same user id, and ids are positive.",
 ["schedules"],"all interleavings of up to three concurrent token requests",
 "A race shows only under particular interleavings; no test requests two tokens.",
 ["src/ProtobufServer/ecdar_backend.rs"],[("atomic counter","src/ProtobufServer/ecdar_backend.rs get_user_token")],["UserTokenResponse"],"scheduling points at the token counter (cfg reveaal_mc)")
p("F01","Projects load the same from JSON, XML and the wire",
 "A model described as a JSON project, as an XML project, or sent over gRPC as JSON or XML gives the same components (locations, edges, directions, clocks, guards, updates) and the same answers, with and without clock reduction; declarations of clocks and integers, and the system's list of components and their actions, mean the same however they are spaced, broken into lines, split into several declarations and commented; the command line chooses the XML loader exactly for files with the xml extension and prints for every query of a list, in order, the verdict the server gives; a query is answered the same whatever was asked of the same loader before.",
 ["configurations","inputs","histories"],"all layouts of declarations, all small components and query lists, rendered in each format",
 "Tests load a few samples in one format each.",
 ["src/DataReader/component_loader.rs","src/DataReader/xml_parser.rs","src/DataReader/serialization.rs","src/ModelObjects/system_declarations.rs","src/main.rs"],[("loaders","src/DataReader/component_loader.rs"),("parse_xml","src/DataReader/xml_parser.rs")],["loaded components","answers","printed verdicts"])
open('properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
