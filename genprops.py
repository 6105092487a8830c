#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "src/"
TEN = "The existing tests run plain realizability checking on ten fixed specifications"

prop("C01", "Realizability verdict equals the true winner of the GR(1) game",
 "For every specification the tool reports 'realizable' exactly if for every initial input valuation allowed by the environment initialisation there is an output valuation satisfying the system initialisation from which the system can force, against every environment behaviour, that its safety guarantees hold as long as the environment's safety assumptions have held, and that every liveness guarantee holds infinitely often whenever every liveness assumption does. Otherwise it reports 'unrealizable'. Absent liveness lists count as the single condition TRUE, and liveness conditions may refer to current and next values of all variables.",
 ["inputs"], "all specifications: any number of inputs, outputs, constraint lines, liveness assumptions and guarantees (including none of each), unsatisfiable constraints, deadlocks for either player",
 TEN + " and compare only one word; no test varies the number of goals/assumptions, uses deadlocks, or compares with an independent game solution.",
 [S+"synthesisAlgorithm.cpp", S+"synthesisContextBasics.cpp", S+"gr1context.hpp"],
 [("triple nested fixed point over the enforceable-predecessor operator", "src/synthesisAlgorithm.cpp computeWinningPositions"),
  ("initial position quantification", "src/synthesisAlgorithm.cpp checkRealizability")],
 ["RESULT line on stderr"])

prop("C02", "Robotics-initialisation verdict quantifies over all initial positions",
 "With the robotics initialisation semantics, the verdict is 'realizable' exactly if every position that satisfies both the environment and the system initialisation conditions is winning for the system in the same game that the standard semantics uses. This holds alone and in combination with every strategy extraction option, and explicit strategies computed under it have an initial state for every such position.",
 ["inputs", "configurations"], "all specifications, all option combinations that include the robotics initialisation semantics",
 "No existing test passes any option to the tool.",
 [S+"extensionRoboticsSemantics.hpp", S+"extensionExtractExplicitStrategy.hpp", S+"main.cpp"],
 [("universal check over the initial positions", "src/extensionRoboticsSemantics.hpp checkRealizability")],
 ["RESULT line on stderr", "explicit strategy initial states"])

prop("C03", "Verdicts do not depend on accelerating or shaping options or on presentation",
 "Fixed-point recycling, action bias, recovery transitions and strategy output options never change the realizability verdict of a specification. Neither does reordering lines or variable declarations, renaming variables, repeating a line, splitting a conjunction over several lines, replacing a formula by an equivalent one, or adding comments and blank space. Strengthening guarantees or weakening assumptions never turns an unrealizable specification realizable.",
 ["inputs", "configurations"], "all specifications (including ones too large for explicit solving), all legal option combinations that keep the synthesis semantics, all semantics-preserving rewrites of the input file",
 TEN + " without options; no test ever compares two runs.",
 [S+"extensionFixedPointRecycling.hpp", S+"extensionBiasForAction.hpp", S+"synthesisContextBasics.cpp", S+"main.cpp"],
 [("recycled inner fixed points", "src/extensionFixedPointRecycling.hpp"), ("biased strategy computation", "src/extensionBiasForAction.hpp"), ("option table", "src/main.cpp optionCombinations")],
 ["RESULT line on stderr of paired runs"])

prop("C04", "Explicit strategies start everywhere, answer every move and stay safe",
 "Whenever an explicit strategy is produced, every initial input valuation allowed by the environment has an initial state that also satisfies the system initialisation; every state has, for each next input valuation that the safety assumptions allow there, exactly one successor with that input, whose transition satisfies the safety guarantees; and no successor number refers to a missing state. A strategy is produced exactly when the specification is realizable. All of this holds for every legal combination of the strategy options.",
 ["inputs", "configurations"], "all realizable specifications and all option combinations that produce explicit strategies",
 "No existing test extracts a strategy.",
 [S+"extensionExtractExplicitStrategy.hpp", S+"tools.cpp", S+"extensionBiasForAction.hpp", S+"extensionFixedPointRecycling.hpp"],
 [("breadth-first exploration of the positional strategies", "src/extensionExtractExplicitStrategy.hpp computeAndPrintExplicitStateStrategy"), ("determinisation", "src/tools.cpp determinize")],
 ["strategy text on stdout or in the output file"])

prop("C05", "Every infinite run of an explicit strategy meets its liveness guarantees",
 "Along every infinite run of an extracted explicit strategy on which every liveness assumption holds infinitely often, every liveness guarantee holds infinitely often. The goal number attached to a state is the index of a liveness guarantee, and it only changes along a transition that satisfies the goal it leaves.",
 ["inputs", "histories"], "all realizable specifications, all infinite runs (decided by searching the strategy graph for reachable cycles that satisfy all assumptions and miss a guarantee), all strategy options except cooperative synthesis and cost optimisation",
 "No existing test extracts a strategy, and liveness over infinite runs cannot be sampled by finite tests.",
 [S+"extensionExtractExplicitStrategy.hpp", S+"synthesisAlgorithm.cpp", S+"extensionBiasForAction.hpp", S+"extensionFixedPointRecycling.hpp"],
 [("per-goal positional strategies built from the stored preferred transitions", "src/extensionExtractExplicitStrategy.hpp"), ("order of the preferred transitions", "src/synthesisAlgorithm.cpp strategyDumpingData")],
 ["strategy text on stdout or in the output file"])

prop("C06", "Text, JSON, stdout and file renderings describe the same automaton",
 "For every specification the JSON rendering of an explicit strategy is well-formed JSON whose variable list, nodes, valuations, goal numbers and successor lists describe exactly the automaton of the text rendering. Giving an output file name moves the same rendering to that file and leaves standard output without it. The post-processing scripts (graph conversion and integer decoding) preserve states, values and successors.",
 ["inputs", "configurations"], "all realizable specifications, both renderings, both destinations, integer-encoded variables of any range",
 "No existing test produces or parses a strategy file or runs the post-processing scripts.",
 [S+"extensionExtractExplicitStrategy.hpp", "tools/explicitStrategyToGraphviz.py", "tools/explicitImplementationIntegerDecoder.py"],
 [("JSON printer", "src/extensionExtractExplicitStrategy.hpp"), ("text printer", "src/extensionExtractExplicitStrategy.hpp")],
 ["stdout", "output file", "script output"])

prop("C07", "Recovery transitions are extra, safe and never lose a winning position",
 "With simple recovery, the extracted explicit strategy still has all guarantees of an ordinary one for inputs that respect the safety assumptions, and additionally answers an input that violates the safety assumptions whenever some reaction to it satisfies the safety guarantees and leads to a winning position. Every such added transition satisfies the safety guarantees and leads to a winning position.",
 ["inputs", "fault_sequences"], "all realizable specifications, all inputs that violate the safety assumptions, at any point and any number of times",
 "No existing test uses the option.",
 [S+"extensionExtractExplicitStrategy.hpp"],
 [("skipping the restriction to allowed inputs", "src/extensionExtractExplicitStrategy.hpp isSimpleRecovery branches")],
 ["strategy text on stdout"])

prop("C08", "The symbolic strategy file encodes a correct winning strategy",
 "The decision diagram written for a symbolic strategy is readable with the tool's own loader using the variable list in its header, and read as a relation over current values, next values and the current goal it contains, from winning positions, only safe transitions to winning positions and offers, for every winning position, goal and allowed next input, some next output. A transition is marked as a goal transition exactly if it satisfies the current goal, and following the unmarked ones while respecting the assumptions cannot go on forever without some assumption being violated.",
 ["inputs"], "all realizable specifications with any number of goals, with and without recovery, action bias and fixed-point recycling",
 "No existing test writes a symbolic strategy.",
 [S+"extensionExtractSymbolicStrategy.hpp", S+"BFAbstractionLibrary/BFCuddManager.cpp", "lib/cudd-3.0.0/dddmp/dddmpStoreBdd.c", "lib/cudd-3.0.0/dddmp/dddmpLoad.c"],
 [("goal counter encoding", "src/extensionExtractSymbolicStrategy.hpp"), ("header and BDD writing", "src/BFAbstractionLibrary/BFCuddManager.cpp writeBDDToFile")],
 ["strategy file"])

prop("C09", "The flattened symbolic strategy advances goals correctly and is winning",
 "In the flattened symbolic strategy file the next goal number equals the current one on ordinary transitions and is the cyclically next one exactly on transitions that reach the current goal. From every winning position, goal number and allowed next input the file offers a reaction, every offered reaction is safe and stays winning, and every fair run that follows it changes the goal number infinitely often.",
 ["inputs"], "all realizable specifications with any number of goals, with and without recovery",
 "No existing test writes a symbolic strategy.",
 [S+"extensionExtractSymbolicStrategy.hpp"],
 [("pre/post goal counters", "src/extensionExtractSymbolicStrategy.hpp")],
 ["strategy file"])

prop("C10", "The explicit permissive strategy is exactly the reachable winning region",
 "The permissive strategy lists, for the first goal, every winning position that satisfies the initialisation conditions, and otherwise only winning positions reached by its own successor lists, whose transitions respect the safety assumptions and guarantees and stay winning. Every next input that the safety assumptions allow is answered, every safe winning transition that reaches the current goal is offered, everything that the deterministic explicit strategy does is contained in it, and every fair run meets all guarantees infinitely often.",
 ["inputs"], "all realizable specifications under standard and robotics initialisation, with every combinable option",
 "No existing test uses the option.",
 [S+"extensionPermissiveExplicitStrategy.hpp"],
 [("exploration over all allowed successors", "src/extensionPermissiveExplicitStrategy.hpp")],
 ["strategy text on stdout or in the output file"])

prop("C11", "Counter-strategies exist exactly for unrealizable specifications and win",
 "The counter-strategy mode reports the environment as winner exactly for the specifications that are unrealizable, under both initialisation semantics. An extracted explicit counter-strategy starts in an allowed initial position from which the system cannot win, always chooses inputs allowed by the safety assumptions, and answers every system move that satisfies the safety guarantees. On every infinite run of it all liveness assumptions hold infinitely often and some liveness guarantee is eventually never satisfied again.",
 ["inputs", "histories"], "all specifications, all system behaviours against the extracted counter-strategy",
 "No existing test computes a counter-strategy.",
 [S+"extensionCounterstrategy.hpp", S+"extensionExtractExplicitCounterstrategy.hpp"],
 [("dual triple fixed point", "src/extensionCounterstrategy.hpp computeWinningPositions"), ("exploration of the environment's choices", "src/extensionExtractExplicitCounterstrategy.hpp")],
 ["RESULT line", "counter-strategy text"])

prop("C12", "Input formulas denote their documented Boolean functions",
 "Every line of an input file denotes the Boolean function given by prefix negation, conjunction, disjunction, exclusive or, the constants, variables and next-value variables, with memory buffers evaluating to their last element and recall operators standing for the already stored element of the innermost enclosing buffer. Lines of one initialisation or safety section are conjoined, each liveness line is a separate condition, and sections may be empty, repeated or in any order in which variables are declared before use. Comments, blank lines and surrounding white space are ignored.",
 ["inputs"], "all well-formed input files: any formula depth and operator nesting, any buffer size and nesting, any variable names, any section order",
 TEN + "; none of them checks the function a formula denotes, and buffers appear only in compiler-generated shapes.",
 [S+"synthesisContextBasics.cpp", S+"variableManager.cpp", S+"BFAbstractionLibrary/BFCudd.h"],
 [("recursive-descent formula parser with buffers", "src/synthesisContextBasics.cpp parseBooleanFormulaRecurse"), ("section handling", "src/synthesisContextBasics.cpp init")],
 ["explicit and permissive strategies, CNF export and verdicts computed from the parsed file"])

prop("C13", "Ill-formed inputs and illegal invocations are rejected without a verdict",
 "If an input file uses an unknown section, an undeclared variable, a variable in a section that does not allow its kind, a formula with missing or stray parts or an unavailable buffer element, a constraint outside any section, or the same variable name twice, or if an option or option combination is unsupported, or a file is missing or superfluous, the tool prints an error message, exits with a non-zero code and reports no verdict and no strategy. Well-formed input with a supported combination of options exits with code zero.",
 ["inputs", "configurations"], "all malformed input files obtained by breaking any line of a well-formed one, all subsets of the documented options, all numbers of file arguments",
 "No existing test feeds a malformed file or any command line option.",
 [S+"synthesisContextBasics.cpp", S+"main.cpp", S+"variableManager.cpp"],
 [("parser error exceptions", "src/synthesisContextBasics.cpp"), ("option combination lookup and file count check", "src/main.cpp main")],
 ["exit code, stderr, stdout"])

prop("C14", "No input or option combination causes memory errors or abnormal termination",
 "Whatever files and options the tool is given, it never reads or writes memory out of bounds or after it was released, never executes undefined behaviour, and always ends by itself with exit code zero or one, never by a signal or an uncaught exception. On success no decision-diagram references are left behind at exit. Formula nesting is within what the stack allows; binary diagram files come from the diagram library, possibly truncated or replaced by other text.",
 ["inputs", "configurations"], "all option combinations in the supported table, all well-formed and malformed inputs including truncated, mutated and extreme ones, all interactive command sequences",
 "The existing tests run ten well-formed files without sanitizers and without options.",
 [S+"main.cpp", S+"synthesisContextBasics.cpp", S+"extensionInteractiveStrategy.hpp", S+"BFAbstractionLibrary/BFCudd.h", S+"BFAbstractionLibrary/BFCuddVarVector.h"],
 [("reference-counted wrapper", "src/BFAbstractionLibrary/BFCudd.h"), ("bounds checks in the parsers", "src/synthesisContextBasics.cpp")],
 ["sanitizer reports, exit status, manager warnings on stderr"])

prop("C15", "Results do not depend on garbage collection or variable reordering",
 "Verdicts, strategies and reports computed by the tool are semantically the same whenever and however often the decision-diagram library collects garbage, resizes its tables, drops cached results or reorders variables during the run. At every such point the diagram manager is structurally consistent, and after the run every node reference has been given back.",
 ["schedules", "inputs"], "all points at which garbage collection, cache loss or variable reordering can strike during a run",
 "With the small test inputs these events hardly ever happen, and never under control.",
 [S+"BFAbstractionLibrary/BFCudd.h", S+"BFAbstractionLibrary/BFCuddManager.cpp", "lib/cudd-3.0.0/cudd/cuddReorder.c", "lib/cudd-3.0.0/cudd/cuddTable.c", "lib/cudd-3.0.0/cudd/cuddGroup.c"],
 [("reference counting in the wrapper", "src/BFAbstractionLibrary/BFCudd.h"), ("restart of operations interrupted by reordering", "lib/cudd-3.0.0/cudd/*.c")],
 ["outputs of runs with forced events", "manager consistency checks at the events"], "link-time wrapper around manager creation; no change to the repository")

prop("C16", "The exported CNF form is equivalent to the specification",
 "The conjunctive normal form export describes the same initial conditions, safety assumptions, safety guarantees and liveness conditions as the input: over the exported variable numbering, the conjunction of the clauses of each safety and initialisation part has exactly the models of that part, and each exported liveness line denotes its condition. The numbering lists every variable once with its current and next index.",
 ["inputs"], "all specifications",
 "No existing test uses the export.",
 [S+"extensionComputeCNFFormOfTheSpecification.hpp"],
 [("greedy clause extraction", "src/extensionComputeCNFFormOfTheSpecification.hpp")],
 ["export on stdout"])

prop("C17", "Weakened safety assumptions are implied, sufficient and minimal",
 "For a realizable specification the assumption weakening prints a list of clauses each implied by the original safety assumptions such that the specification stays realizable when its safety assumptions are replaced by the list. No clause has a literal that can be removed without the clause ceasing to be implied, and no clause can be dropped without losing realizability when the remaining ones are kept at the strength they need.",
 ["inputs"], "all specifications with safety assumptions",
 "No existing test uses the option.",
 [S+"extensionWeakenSafetyAssumptions.hpp"],
 [("clause extraction and greedy removal", "src/extensionWeakenSafetyAssumptions.hpp")],
 ["clause list on stdout or stderr"])

prop("C18", "Initial-position analysis counts and covers positions exactly",
 "The initial-position analysis reports the true numbers of positions and of winning positions, within all positions or within the reachable ones when asked, for all combinations of initialisation conditions, and respects declared variable limits. Every cube it prints as winning or losing contains only positions of that kind within the analysed set, and it says that there are none, or that all positions belong, exactly when that is so.",
 ["inputs"], "all specifications, with and without restriction to reachable positions",
 "No existing test uses the analysis.",
 [S+"extensionAnalyzeInitialPositions.hpp", S+"BFAbstractionLibrary/BFCuddMintermEnumerator.cpp", S+"BFAbstractionLibrary/BFCudd.cpp"],
 [("model counting", "src/BFAbstractionLibrary/BFCudd.cpp"), ("cube enumeration", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp")],
 ["report on stdout or stderr"])

prop("C19", "Assumption analysis names exactly the superfluous assumptions",
 "For a realizable specification the assumption analysis marks a safety or liveness assumption as needed exactly if the specification becomes unrealizable when that assumption alone is dropped and everything else is kept. Otherwise it says that the assumption makes more positions winning exactly if fewer positions are winning without it, that a safety assumption is redundant exactly if the others imply it, and that it makes reaching a goal easier exactly if without it some position needs more rounds to reach that goal. Every assumption is listed once, in order and by its name.",
 ["inputs"], "all specifications with any number of safety and liveness assumption lines",
 "No existing test uses the analysis.",
 [S+"extensionAnalyzeAssumptions.hpp"],
 [("re-checking with one assumption left out", "src/extensionAnalyzeAssumptions.hpp")],
 ["report on stdout or stderr"])

prop("C20", "The safety/liveness interaction table matches sixteen independent verdicts",
 "Each row of the safety/liveness interaction table states whether the specification consisting of the parts selected by that row (environment safety, environment liveness, system safety, system liveness; all others trivial) is realizable in the standard and in the robotics semantics. The note on non-strict implication tells whether the specification becomes realizable when the system may violate its safety guarantees once the liveness assumptions are not met, and the notes on falsification give the true number of steps in which one side can force the other into a deadlock in the safety-only game.",
 ["inputs"], "all specifications",
 "No existing test uses the analysis.",
 [S+"extensionAnalyzeSafetyLivenessInteraction.hpp"],
 [("sixteen re-checks with parts removed", "src/extensionAnalyzeSafetyLivenessInteraction.hpp")],
 ["table on stdout or stderr"])

prop("C21", "Interleaving analysis lists exactly the outputs that can be decided early",
 "For a realizable specification the interleaving analysis lists a set of outputs such that the specification stays realizable when, from the first step on, these outputs are chosen before the inputs of the same step are known, and no further output can be added to the set. It lists none exactly if no output can be chosen early, and it makes no claim for unrealizable specifications.",
 ["inputs"], "all specifications",
 "No existing test uses the analysis.",
 [S+"extensionInterleave.hpp"],
 [("modified enforceable predecessor", "src/extensionInterleave.hpp")],
 ["report on stdout or stderr"])

prop("C22", "Printed runs and abstract traces are executions of the specification",
 "Every run printed by the interesting-run generator starts in an allowed winning initial position, each of its steps respects the safety assumptions and guarantees while staying winning for the system, its goal numbers and reached-goal marks are those of the transitions taken, and no endless run meets all assumptions without the guarantee it waits for. Every abstract trace printed for the winning player is one on which that player does win with the printed values.",
 ["inputs", "histories"], "all specifications, both winners",
 "No existing test prints a run.",
 [S+"extensionComputeInterestingRunOfTheSystem.hpp", S+"extensionAbstractWinningTraceGenerator.hpp"],
 [("random resolution of choices inside the winning strategy", "src/extensionComputeInterestingRunOfTheSystem.hpp")],
 ["table on stdout"])

prop("C23", "An interactive session behaves like the game and its winning strategy",
 "In an interactive session, after any sequence of commands (well-formed or not), a starting or completed initial position that is offered is initial, winning and as forced, a transition check answers according to the safety parts, the liveness parts and the winning region, a strategy move is a safe move to a position winning for the winner with the requested input and is offered whenever one is due, and queries about variables and goals return the declared ones. The letters shown for forced values name the first requirement that leaves no choice. Moves followed goal by goal satisfy each liveness guarantee infinitely often on fair input sequences, and for unrealizable specifications the environment's moves satisfy all liveness assumptions while preventing some guarantee.",
 ["histories", "inputs"], "all command sequences on all specifications, realizable or not",
 "No existing test opens a session.",
 [S+"extensionInteractiveStrategy.hpp"],
 [("positional strategies per goal", "src/extensionInteractiveStrategy.hpp"), ("command loop", "src/extensionInteractiveStrategy.hpp execute")],
 ["answers on stdout"])

prop("C24", "Cooperative strategies are winning and never trap the assumptions needlessly",
 "Cooperative synthesis reports realizable exactly if the system can win while, from every position of the play, some continuation of the environment satisfies all liveness assumptions. The strategies it extracts are winning like ordinary ones, and from each state of an explicit strategy some run of it fulfils all liveness assumptions infinitely often.",
 ["inputs", "histories"], "all specifications",
 "No existing test uses the option.",
 [S+"extensionCooperativeGR1Strategy.hpp"],
 [("extended fixed point", "src/extensionCooperativeGR1Strategy.hpp")],
 ["RESULT line", "strategy text"])

prop("C25", "Cost-optimising synthesis keeps the verdict and rejects inconsistent costs",
 "With two-dimensional cost optimisation the verdict equals the one of ordinary synthesis under the same initialisation semantics for every well-formed cost file, while files with overlapping cost classes or malformed lines are rejected with an error. Every explicit strategy extracted starts in winning initial positions and only takes safe transitions between winning positions, with correctly advanced goals. If every guarantee can be enforced without waiting for the environment's liveness assumptions and there are none or the weights in the cost file make waiting once dearer than all the actions then needed, it also answers every allowed input, satisfies the liveness guarantees on all fair runs, and, without liveness assumptions, reaches each goal with the least possible worst-case action cost, starting (standard semantics) in a cheapest allowed position for each initial input.",
 ["inputs"], "all specifications and cost files",
 "No existing test uses the option.",
 [S+"extensionTwoDimensionalCost.hpp"],
 [("cost class iteration", "src/extensionTwoDimensionalCost.hpp computeCostOptimalStrategy")],
 ["RESULT line", "strategy text", "exit code"])

prop("C26", "Non-deterministic motion synthesis solves the game with adversarial motion",
 "With a non-deterministic motion abstraction the verdict is 'realizable' exactly if the system wins the game in which it chooses controller and other outputs after seeing the input, the environment then chooses any motion outcome that the abstraction allows, the controller may only choose commands with at least one outcome, and the environment must infinitely often really move when the chosen command can move. With the standard semantics every initial input for which ENV_INIT can be met needs a winning position that meets ENV_INIT and SYS_INIT; with the robotics semantics every position that meets ENV_INIT must be winning. Missing, unreadable or unsuitable abstraction files end with an error message.",
 ["inputs"], "all specifications and motion abstraction files",
 "No existing test uses the option.",
 [S+"extensionNondeterministicMotion.hpp", "lib/cudd-3.0.0/dddmp/dddmpLoad.c"],
 [("universal quantification over motion outcomes", "src/extensionNondeterministicMotion.hpp checkRealizability")],
 ["RESULT line"])

prop("C27", "Fast/slow synthesis only admits transitions with safe intermediate positions",
 "With the fast/slow option the verdict equals the true winner of the game in which a system transition is only available if, in addition to meeting the safety guarantees, the intermediate position with the new inputs, the new fast outputs and the old slow outputs has both a predecessor and a successor under the safety guarantees. Explicit, permissive and symbolic strategies extracted with the option are winning in that game and only use such transitions, with the standard and the robotics semantics.",
 ["inputs"], "all specifications in the fast/slow format",
 "No existing test uses the option.",
 [S+"extensionIROSfastslow.hpp"],
 [("strengthened safety relation", "src/extensionIROSfastslow.hpp computeWinningPositions")],
 ["RESULT line", "strategy text"])

prop("C28", "Belief-space estimator constraints are sound for every hidden behaviour",
 "The estimator abstraction's printed system constraint allows an estimate update exactly if the original estimate condition holds for every unobservable behaviour compatible with a reachable situation (and takes the tightest value for min_/max_ variables), and its printed environment constraint allows exactly the observable steps that some reachable hidden situation with the same estimate can take. Dead-end and empty-initialisation warnings appear exactly when the abstraction has such situations, and the difference table gives the exact extreme differences of the integer-coded variables over its transitions.",
 ["inputs"], "all estimator models",
 "No existing test uses the option.",
 [S+"extensionIncompleteInformationEstimatorSynthesis.hpp"],
 [("universal abstraction of unobservables over reachable states", "src/extensionIncompleteInformationEstimatorSynthesis.hpp execute")],
 ["constraints on stdout"])

prop("C29", "The structured-slugs compiler preserves meaning, ranges and comparisons",
 "Every structured specification is translated into an input file in which each integer variable is represented in binary relative to its lower bound, each infix formula denotes the documented function of the variables' values (all Boolean connectives with their precedence, next operators, comparisons of sums of variables and numerals, for variables that cannot be negative), and no integer ever leaves its declared range initially or in any next step. Inputs it does not support are rejected with an error and a non-zero exit code, by the compiler itself or, for lines already in slugs' prefix notation that it passes on, by slugs, and the translation always terminates.",
 ["inputs", "programs"], "all structured specifications: all ranges, all operator nestings, all comparison operators, primed and next-operator uses",
 "Two of the existing tests go through the compiler and compare only the final verdict.",
 ["tools/StructuredSlugsParser/compiler.py", "tools/StructuredSlugsParser/Parser.py", "tools/StructuredSlugsParser/grammar.wi"],
 [("binary adder and comparator generation", "tools/StructuredSlugsParser/compiler.py computeCalculationSubformula"), ("range constraints", "tools/StructuredSlugsParser/compiler.py performConversion")],
 ["translated file on stdout", "exit code"])

CU = "lib/cudd-3.0.0/cudd/"
prop("C30", "Decision-diagram operations compute the right Boolean functions",
 "Every Boolean operation offered by the decision-diagram library and its wrappers (connectives, if-then-else, quantification, conjunction with quantification, variable exchange, composition, cofactors, containment, minimisation with don't-cares, minterm counts and cube enumeration) returns a diagram of the mathematically defined function, for any operands, variable order and operation history. Equal functions have the identical representation.",
 ["inputs", "histories"], "all sequences of operations over any number of variables, interleaved with reordering and garbage collection",
 "The library's own tests replay a handful of fixed netlists and compare their printed output.",
 [CU+"cuddBddIte.c", CU+"cuddBddAbs.c", CU+"cuddAndAbs.c", CU+"cuddCompose.c", CU+"cuddGenCof.c", CU+"cuddCof.c", CU+"cuddUtil.c", S+"BFAbstractionLibrary/BFCudd.h", S+"BFAbstractionLibrary/BFCudd.cpp", S+"BFAbstractionLibrary/BFCuddMintermEnumerator.cpp"],
 [("recursive apply with computed table", CU+"cuddBddIte.c"), ("unique table", CU+"cuddTable.c")],
 ["evaluation of the returned diagrams on all assignments"])

prop("C31", "The diagram manager stays consistent and leak-free through any history",
 "After any sequence of operations, reorderings with any method, garbage collections, variable additions at any position, grouping, symmetry grouping and table resizing, the manager's own consistency checks find no error, all held diagrams still denote the same functions, and once all user references are released no referenced node remains. An operation that is abandoned because of a node limit, a time limit or a termination callback returns no result, leaves every held diagram, the reference counts and the cache intact, and gives its regular result when it is repeated.",
 ["histories", "schedules"], "all operation histories, all reordering methods, all group trees, reordering and collection at any point",
 "The library's tests use a few fixed reordering configurations on a few netlists.",
 [CU+"cuddReorder.c", CU+"cuddTable.c", CU+"cuddGroup.c", CU+"cuddSymmetry.c", CU+"cuddLinear.c", CU+"cuddWindow.c", CU+"cuddAnneal.c", CU+"cuddGenetic.c", CU+"cuddExact.c", CU+"cuddRef.c", CU+"cuddCache.c"],
 [("in-place level swaps", CU+"cuddReorder.c cuddSwapInPlace"), ("saturating reference counts and dead nodes", CU+"cuddRef.c")],
 ["consistency check functions, evaluation of held diagrams, reference check at the end"])

prop("C32", "Arithmetic and zero-suppressed diagrams follow their mathematical definitions",
 "Every operation on arithmetic diagrams (arithmetic, comparison, threshold, abstraction, matrix product, composition and permutation, residues, distances, diagrams read from matrix files, conversion from and to Boolean diagrams) and on zero-suppressed diagrams (union, intersection, difference, product, subsets, division, complement, conversion and cover computation) returns the diagram of the mathematically defined function or set family, for any operands, order and history.",
 ["inputs", "histories"], "all operands, variable orders and interleavings with garbage collection and reordering",
 "The library's tests use a handful of fixed matrices and netlists.",
 [CU+"cuddAddApply.c", CU+"cuddAddAbs.c", CU+"cuddMatMult.c", CU+"cuddBridge.c", CU+"cuddZddSetop.c", CU+"cuddZddIsop.c", CU+"cuddZddFuncs.c", CU+"cuddZddUtil.c", CU+"cuddAddWalsh.c", CU+"cuddCompose.c", CU+"cuddPriority.c", CU+"cuddRead.c", CU+"cuddHarwell.c"],
 [("apply on terminal values", CU+"cuddAddApply.c"), ("zero-suppressed node rule", CU+"cuddZddSetop.c")],
 ["evaluation on all assignments"])

DD = "lib/cudd-3.0.0/dddmp/"
prop("C33", "Stored diagrams load back as the same functions",
 "A diagram or vector of diagrams, Boolean or with numbers, stored to a file or stream in any mode (text or binary, with any variable identification, with or without names, also with missing roots) or converted between the modes, and loaded into the same or another manager, with the variables and roots matched in any of the supported ways and whatever the variable orders are, denotes the same functions over the matched variables; in the same manager it is the same node. Files that end early are refused, failed writes are reported, and neither saving nor loading changes the consistency, references or held diagrams of the managers.",
 ["inputs", "configurations"], "all functions, variable orders, storage modes and variable matching modes",
 "The library's dump tests replay fixed files.",
 [DD+"dddmpStoreBdd.c", DD+"dddmpStoreAdd.c", DD+"dddmpLoad.c", DD+"dddmpNodeBdd.c", DD+"dddmpBinary.c", DD+"dddmpConvert.c", DD+"dddmpUtil.c", S+"BFAbstractionLibrary/BFCuddManager.cpp"],
 [("node numbering and edge encoding", DD+"dddmpStoreBdd.c"), ("variable matching", DD+"dddmpLoad.c")],
 ["evaluation of loaded diagrams on all assignments"])

prop("C34", "Support containers behave like their abstract data types",
 "The hash table behaves like a finite map under any sequence of insertions, lookups, deletions, iterations and resizings; the group-tree library keeps every tree well-formed and its groups disjoint or nested; extended-exponent numbers behave like real numbers within relative rounding error over their whole range; and arbitrary-precision integers and counts are exact.",
 ["histories", "inputs"], "all operation sequences and operand values",
 "Each of these libraries has one fixed test program.",
 ["lib/cudd-3.0.0/st/st.c", "lib/cudd-3.0.0/mtr/mtrBasic.c", "lib/cudd-3.0.0/mtr/mtrGroup.c", "lib/cudd-3.0.0/epd/epd.c", CU+"cuddApa.c"],
 [("rehashing", "lib/cudd-3.0.0/st/st.c"), ("group insertion", "lib/cudd-3.0.0/mtr/mtrGroup.c"), ("normalisation", "lib/cudd-3.0.0/epd/epd.c")],
 ["API return values against models"])

prop("C35", "Diagram managers in different threads are independent",
 "Threads that each use their own diagram manager never race and obtain the same results as when run one after another, including through timeouts, termination callbacks, reordering and store/load.",
 ["schedules"], "all interleavings of threads using separate managers",
 "One existing library test runs a fixed job list on several threads without a race detector.",
 [CU+"cuddAPI.c", CU+"cuddInit.c", "lib/cudd-3.0.0/util/cpu_time.c", "lib/cudd-3.0.0/cplusplus/testmulti.cc"],
 [("all state kept in the manager structure", CU+"cuddInt.h")],
 ["race detector reports and result comparison"])

prop("C36", "Minimal unrealizable cores are unrealizable and minimal",
 "The core finder prints a sub-specification that keeps the variables, the assumptions and the initial guarantees, is unrealizable, and becomes realizable when any single one of its remaining safety or liveness guarantee lines is removed. Realizable specifications are left complete.",
 ["inputs", "programs"], "all specifications",
 "No existing test runs the script.",
 ["tools/findMinimalUnrealizableCore.py"],
 [("greedy removal with re-checking", "tools/findMinimalUnrealizableCore.py")],
 ["script output"])

prop("C37", "Failed reads and writes are reported, never answered with partial results",
 "Whenever a read or write error occurs at any point while inputs are read or results are delivered to a file or the standard output (unreadable input, full device, file size limit, unwritable target), slugs ends with exit code 1 and an error message. Exit code 0 means that the complete result has been delivered, and no verdict is based on an input that could not be read to its end.",
 ["fault_sequences", "inputs"], "all option combinations that read or write, faults at any byte",
 "No existing test injects a fault or writes to a file.",
 [S+"main.cpp", S+"extensionExtractExplicitStrategy.hpp", S+"extensionExtractExplicitCounterstrategy.hpp", S+"extensionPermissiveExplicitStrategy.hpp", S+"BFAbstractionLibrary/BFCuddManager.cpp", S+"synthesisContextBasics.cpp"],
 [("error checks after closing the output", "src/extensionExtractExplicitStrategy.hpp execute"), ("check of the read loop", "src/synthesisContextBasics.cpp GR1Context::init")],
 ["exit code, error message, written bytes"])

prop("C38", "Translated specifications keep their meaning",
 "The translator from safety specifications to circuits writes a well-formed AIGER circuit whose error output is up in exactly those rounds in which, after the assumptions held so far, a guarantee is broken, with the outputs of the specification as controllable inputs. The translators from the RATSY and LTLMoP formats write specifications whose variables and properties, section by section, denote the same as those of the input. Inputs outside of the supported language end with an error.",
 ["inputs", "programs"], "all specifications of the supported languages",
 "No existing test runs the scripts.",
 ["tools/translateSafetySlugsSpecToSyntCompAIGFormat.py", "tools/translateFromRatsyFormatToSlugsFormat.py", "tools/translateFromLTLMopLTLFormatToSlugsFormat.py", "tools/parser.py"],
 [("latches and error gate", "tools/translateSafetySlugsSpecToSyntCompAIGFormat.py produceAIGFileFromSlugsFile"), ("formula conversion", "tools/translateFromRatsyFormatToSlugsFormat.py parseSimpleFormula")],
 ["script outputs"])

prop("C39", "Strategy viewers show the strategy",
 "The graph written for a printed explicit strategy has exactly its states, with their values and ranks, and its transitions; decoding the numbers in a printed implementation replaces each encoded number by its value and leaves everything else, for all declared ranges, state counts and options that print strategies.",
 ["inputs", "programs"], "all explicit strategies and counterstrategies",
 "No existing test runs the scripts.",
 ["tools/explicitStrategyToGraphviz.py", "tools/explicitImplementationIntegerDecoder.py", S+"extensionExtractExplicitStrategy.hpp"],
 [("state and successor lines", S+"extensionExtractExplicitStrategy.hpp"), ("bit weights", "tools/explicitImplementationIntegerDecoder.py")],
 ["script outputs"])

prop("C40", "Searches over families of specifications return the exact optimum",
 "The one-parameter search reports the least (or greatest) realizable parameter of any monotone (or antitone) family and calls the script last with it; the multi-parameter search returns exactly the Pareto front; the stuck-at analysis lists, for every output of a realizable specification or input of an unrealizable one, exactly the values whose fixing leaves the verdict unchanged. A call that fails or gives no single verdict ends the search with an error.",
 ["inputs", "programs", "fault_sequences"], "all ranges, directions, families and structured specifications",
 "No existing test runs the scripts.",
 ["tools/binaryRealizabilitySearch.py", "tools/multiDimensionalRealizabilitySearch.py", "tools/analyzeStuckAtConstant.py"],
 [("interval invariant", "tools/binaryRealizabilitySearch.py"), ("dominance test", "tools/multiDimensionalRealizabilitySearch.py tupleComparator")],
 ["script outputs", "logged calls"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
