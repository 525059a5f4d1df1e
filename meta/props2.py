NA = []

prop("C09", "Permissive strategies: every resolution implements the specification",
     "For a realizable specification the permissive strategy starts in every winning initial position (resp. covers every admissible initial input), answers every legal input, and however its "
     "remaining choices are resolved, the resulting behaviour respects system safety and satisfies all guarantees whenever all assumptions hold; it offers every step that reaches the current goal within "
     "the winning region and every step the deterministic controller may take.",
     ["inputs", "histories"], "all specifications, all resolutions of the offered choices over infinite runs",
     TESTS + "nothing is ever read from the permissive output, and the claim quantifies over all resolutions.",
     ["src/extensionPermissiveExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp"],
     [("relation per goal ordered by progress", "src/extensionPermissiveExplicitStrategy.hpp: computeAndPrintExplicitStateStrategy")],
     ["stdout / output file of slugs --extractExplicitPermissiveStrategy"],
     "TLA+ controller-correctness specification over the nondeterministic graph, evaluated by TLC on permissive strategies printed by the real tool",
     "Games of up to 4 variables, with bias, recycling and both semantics; compared with the deterministic controller of the same run.")

prop("C12", "Cooperative GR(1): verdict of the cooperative game and its controllers",
     "With the cooperative option the tool reports 'realizable' if and only if the system wins while always keeping the possibility that the environment fulfils all its assumptions, and the controllers "
     "written (explicit, JSON, symbolic) implement the specification and never make it impossible for the environment to satisfy its assumptions.",
     ["inputs", "histories"], "all specifications, all runs of the cooperative controllers",
     TESTS + "the cooperative verdict and controllers are never compared with anything.",
     ["src/extensionCooperativeGR1Strategy.hpp"],
     [("additional reachability objectives per assumption", "src/extensionCooperativeGR1Strategy.hpp: computeWinningPositions")],
     ["RESULT line and controllers of slugs --cooperativeGR1Strategy"],
     "TLA+ specification of the cooperative game and controller requirement evaluated by TLC on the real tool's answers",
     "Games of up to 4 variables (explicit) and 3 (symbolic).")

prop("C13", "The interactive shell plays the specification correctly",
     "In every session of the interactive shell, each reply is what the current position and goal require: listings and counts match the specification; starting positions are winning and admissible; illegal inputs are "
     "refused and never change the position; every answer respects system safety, stays winning and advances the goal pointer only over satisfied goals; transition and initial-position queries report exactly which constraints hold, which values "
     "are forced and by whom; and the moves the shell makes, taken over infinitely long sessions, satisfy the liveness requirement (or, for unrealizable specifications, defeat the system).",
     ["inputs", "histories"], "all specifications and all command sequences",
     TESTS + "the shell keeps state across commands and no test opens it.",
     ["src/extensionInteractiveStrategy.hpp"],
     [("position and goal kept between commands", "src/extensionInteractiveStrategy.hpp: execute"),
      ("positional strategies of system and environment", "src/extensionInteractiveStrategy.hpp: execute")],
     ["standard input/output of slugs --interactiveStrategy FILE"],
     "TLA+ state machine of the shell; recorded sessions of the real shell are checked by TLC to be its behaviours (trace validation), including liveness of the moves",
     "Games of up to 4 variables; sessions of 40 to 250 commands generated adaptively; plain, bias and recycling variants.")

prop("C14", "Initial-position analysis counts and describes positions truthfully",
     "The report of the initial position analysis gives the exact numbers of (winning) positions, of admissible inputs and of inputs that doom the system, among the positions allowed by the declared variable limits "
     "(and, with the restriction option, reachable ones); every cube it lists as (non-)winning contains only such positions, the first cubes are shortest ones, and a list is empty or complete exactly when the set is.",
     ["inputs", "configurations"], "all specifications, with and without variable limits, groups of encoded numbers and the reachability restriction",
     TESTS + "no number or cube in the report is compared with the set of winning positions.",
     ["src/extensionAnalyzeInitialPositions.hpp", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp", "src/BFAbstractionLibrary/BFCudd.cpp"],
     [("counting over variable cubes", "src/BFAbstractionLibrary/BFCudd.cpp: getNofSatisfyingAssignments"),
      ("cube enumeration by a shortest path through the BDD", "src/BFAbstractionLibrary/BFCuddMintermEnumerator.cpp: getNextMinterm"),
      ("limit comments and variable groups", "src/extensionAnalyzeInitialPositions.hpp: init, printLargePreCubes")],
     ["stdout of slugs --analyzeInitialPositions [--restrictToReachableStates]"],
     "TLA+ specification of the report (counts, cube enumeration) over the solved game, evaluated by TLC on reports of the real tool",
     "Games of up to 4 variables; lists of encoded numbers are checked for soundness only.")

prop("C15", "Assumption analysis reports what dropping each assumption does",
     "For every safety and liveness assumption of a realizable specification, the assumption analysis states exactly the effect of dropping that assumption alone: whether realizability is lost, which positions stop being "
     "winning, whether it is implied by the others, and for which system goals (and whether only outside the most general strategy) reactive distances grow. Each assumption is reported once, in order, under its name.",
     ["inputs"], "all specifications, with any number of named and unnamed assumptions",
     TESTS + "no statement of the report is compared with the game without the assumption.",
     ["src/extensionAnalyzeAssumptions.hpp"],
     [("assumptions dropped one at a time and restored", "src/extensionAnalyzeAssumptions.hpp: execute"),
      ("reactive distances as fixpoint approximants", "src/extensionAnalyzeAssumptions.hpp: computeReactiveDistancesAndWinningPositions")],
     ["stdout of slugs --analyzeAssumptions FILE"],
     "TLA+ specification of the game without each assumption and of the reactive distances, evaluated by TLC on reports of the real tool",
     "Games of up to 4 variables.")

prop("C16", "The clausal form of a specification is equivalent to it",
     "The clauses printed for safety guarantees, safety assumptions and initial positions are equivalent to the specification's constraints over the printed variable numbering, and each liveness line is satisfied infinitely "
     "often by exactly the infinite runs that satisfy the corresponding liveness property (one line per property, TRUE where there is none); variables are numbered in order, each with its next-step copy.",
     ["inputs"], "all specifications",
     TESTS + "no clause list is compared with the specification.",
     ["src/extensionComputeCNFFormOfTheSpecification.hpp", "src/BFAbstractionLibrary/BFCudd.cpp"],
     [("greedy cube enlargement and enumeration", "src/extensionComputeCNFFormOfTheSpecification.hpp: execute"),
      ("translation of next-step cubes to current values", "src/extensionComputeCNFFormOfTheSpecification.hpp: execute")],
     ["stdout of slugs --computeCNFFormOfTheSpecification FILE"],
     "TLA+ denotation of the printed clauses compared with that of the input file (liveness: equivalence over infinite runs), evaluated by TLC",
     "Specifications of up to 5 variables.")

prop("C17", "Weakened safety assumptions are implied, sufficient and minimal",
     "The clauses printed by the weakening of safety assumptions are implied by the specification's safety assumptions; replacing the assumptions by them keeps a realizable specification realizable; no clause can be left out "
     "without losing realizability and no literal without changing the assumptions. For unrealizable specifications the clauses are equivalent to the assumptions.",
     ["inputs"], "all specifications",
     TESTS + "no clause list is used as assumptions.",
     ["src/extensionWeakenSafetyAssumptions.hpp"],
     [("clauses and literals removed one after the other", "src/extensionWeakenSafetyAssumptions.hpp: execute")],
     ["stdout of slugs --computeWeakenedSafetyAssumptions FILE"],
     "TLA+ specification of the requirement on the clause list over the solved games, evaluated by TLC on the real tool's lists",
     "Games of up to 4 variables.")

prop("C18", "Safety/liveness interaction report is correct",
     "The report states the exact realizability, in both initialization semantics, of all sixteen specifications obtained by dropping safety or liveness assumptions or guarantees; whether a non-strict implication makes the "
     "specification realizable; and the least number of steps in which one player can force the other to break its safety part, from an admissible start.",
     ["inputs"], "all specifications",
     TESTS + "the report is never compared with the games it talks about.",
     ["src/extensionAnalyzeSafetyLivenessInteraction.hpp"],
     [("specification parts swapped in and out", "src/extensionAnalyzeSafetyLivenessInteraction.hpp: execute"),
      ("variable added after reading the specification", "src/variableManager.cpp: computeVariableInformation")],
     ["stdout of slugs --analyzeSafetyLivenessInteraction FILE"],
     "TLA+ specification of the sixteen games, of the non-strict game (solved without the auxiliary variable) and of bounded forcing, evaluated by TLC on the real reports",
     "Games of up to 4 variables.")

prop("C19", "Outputs reported as settable before the input really are",
     "The interleaving analysis lists, in order of declaration, a set of outputs whose next values can be chosen before the next input is read without losing realizability, and no further output could be added; "
     "specifications that are unrealizable to begin with are reported as such.",
     ["inputs"], "all specifications",
     TESTS + "no list is checked against the game with that turn order.",
     ["src/extensionInterleave.hpp", "src/variableManager.cpp"],
     [("variable types changed during the analysis", "src/extensionInterleave.hpp: execute"),
      ("two-phase predecessor operator", "src/extensionInterleave.hpp: computeWinningPositions")],
     ["stdout of slugs --analyzeInterleaving FILE"],
     "TLA+ specification of the game with early outputs, evaluated by TLC on the real tool's lists",
     "Games of up to 4 variables.")

prop("C20", "Interesting run is a run of the game with correctly marked goals",
     "The printed run starts in an admissible position that is winning for the system whenever there is one, consists of allowed moves of both players until one of them has no allowed move (which is reported as that player's loss), "
     "and every row states correctly which assumption and which guarantee is waited for and whether the transition taken satisfies it.",
     ["inputs"], "all specifications, all runs printed",
     TESTS + "no run is checked against the specification.",
     ["src/extensionComputeInterestingRunOfTheSystem.hpp"],
     [("run construction", "src/extensionComputeInterestingRunOfTheSystem.hpp: execute"),
      ("encoded numbers printed as values", "src/extensionComputeInterestingRunOfTheSystem.hpp: getEnvMoveCandidates and printing")],
     ["stdout of slugs --computeInterestingRunOfTheSystem FILE"],
     "Trace validation: every printed run is checked by TLC to be a behaviour of the TLA+ game with goal counters",
     "Games of up to 4 variables.")

prop("C21", "Abstract winning trace shows how to force the opponent to break its safety part",
     "If a player can force the other one to break its safety part within finitely many steps from every admissible start, the tool prints a table whose length is the least number of rounds needed, that begins in an admissible concrete position, "
     "in which from every position of one column the player can force a position of the next one, and in which no further variable could be fixed; otherwise it prints no table for that player.",
     ["inputs"], "all specifications",
     TESTS + "no table is checked against the game.",
     ["src/extensionAbstractWinningTraceGenerator.hpp"],
     [("bounded attractor and generalization of the columns", "src/extensionAbstractWinningTraceGenerator.hpp: computeAbstractStrategyTrace")],
     ["stdout of slugs --computeAbstractWinningTrace FILE"],
     "TLA+ specification of bounded forcing and of the meaning of a table, evaluated by TLC on the real tool's tables",
     "Games of up to 4 variables.")

prop("C22", "Fast/slow synthesis keeps the position between fast and slow changes safe",
     "With --IROSfastslow, the verdict and the extracted controllers are those of the game in which, whenever fast and slow outputs change together, the intermediate position (next input, next fast outputs, old slow outputs) "
     "must also be one that the safety guarantees allow to be entered and left.",
     ["inputs"], "all specifications, divisions of the outputs, initialization semantics and explicit strategy options",
     TESTS + "no fast/slow specification is part of them.",
     ["src/extensionIROSfastslow.hpp", "src/variableTypes.hpp"],
     [("reader for two output sections", "src/extensionIROSfastslow.hpp: init"),
      ("intermediate positions", "src/extensionIROSfastslow.hpp: computeWinningPositions"),
      ("initial positions", "src/extensionIROSfastslow.hpp: checkRealizability")],
     ["verdicts and controllers of slugs --IROSfastslow [--explicitStrategy ...] FILE"],
     "TLA+ specification of the game with intermediate positions; verdicts and printed controllers checked against it by TLC",
     "Games of up to 4 variables.")

prop("C23", "Non-deterministic motion synthesis decides the game against the abstraction",
     "With --nonDeterministicMotion, the verdict is that of the game in which the system picks command and other outputs, the robot then moves to any motion state that the abstraction BDD allows for the current motion state and command "
     "(commands without successor may not be given), and motion may be assumed to happen again and again while a command allows it; abstraction region BDDs stand for sets of motion states.",
     ["inputs"], "all specifications whose assumptions mention inputs only initially and no next outputs, all robot abstractions, both initialization semantics",
     TESTS + "no motion abstraction is part of them.",
     ["src/extensionNondeterministicMotion.hpp", "src/BFAbstractionLibrary/BFCuddManager.cpp"],
     [("robot predecessor operator", "src/extensionNondeterministicMotion.hpp: checkRealizability"),
      ("automatically added liveness assumption", "src/extensionNondeterministicMotion.hpp: addAutomaticallyGeneratedLivenessAssumption"),
      ("reading BDDs from files", "src/BFAbstractionLibrary/BFCuddManager.cpp: readBDDFromFile")],
     ["verdict of slugs --nonDeterministicMotion SPEC ROBOT.bdd"],
     "TLA+ specification of the three-step game, evaluated by TLC against the real verdicts",
     "Robots of up to 3 state bits, games of up to 4 variables.")

prop("C24", "Two-dimensional cost: costs never cost correctness, and are minimized",
     "With --twoDimensionalCost, whatever the transition costs and weights, the verdict is the one of the game and the controllers implement it; cost files with overlapping cost classes are refused; and if not waiting for the environment is worth more than anything else, "
     "the controller reaches the first goal at the least worst-case sum of action costs from every initial position from which it can be reached without waiting.",
     ["inputs"], "all specifications, cost functions, weights, initialization semantics and explicit output formats",
     TESTS + "no cost file is part of them.",
     ["src/extensionTwoDimensionalCost.hpp"],
     [("cost file reader", "src/extensionTwoDimensionalCost.hpp: init"),
      ("optimal controller", "src/extensionTwoDimensionalCost.hpp: computeCostOptimalStrategy")],
     ["verdicts and controllers of slugs --twoDimensionalCost [--explicitStrategy ...] FILE COSTS"],
     "TLA+ controller-correctness specification and layered minimal-cost attractors, evaluated by TLC on the real controllers",
     "Games of up to 4 variables, up to 3 cost classes; optimality judged for the first goal where waiting avoidance dominates.")

prop("C25", "The belief space abstraction is sound and tightest",
     "--computeIncompleteInformationEstimator prints an update constraint on the estimates that mentions nothing unobservable and guarantees the estimation guarantees whatever the unobservable values are, and no update is excluded needlessly "
     "(for min_/max_ estimates: exactly the tightest ones remain); an assumption on observable inputs that every behaviour of the domain satisfies and that is the strongest such one; truthful dead-end warnings; and the exact range of differences between integer variables.",
     ["inputs", "histories"], "all domain descriptions, all behaviours of domain and estimator",
     TESTS + "none uses the estimator.",
     ["src/extensionIncompleteInformationEstimatorSynthesis.hpp"],
     [("reader of the four kinds of variables", "src/extensionIncompleteInformationEstimatorSynthesis.hpp: init"),
      ("abstraction and assumptions", "src/extensionIncompleteInformationEstimatorSynthesis.hpp: execute"),
      ("printing of a BDD as formula", "src/extensionIncompleteInformationEstimatorSynthesis.hpp: recursePrintBFAsSlugsExpression")],
     ["stdout and warnings of slugs --computeIncompleteInformationEstimator FILE"],
     "TLA+ specification of the knowledge-based abstraction; printed constraints evaluated by TLC against it and against all runs of the domain",
     "Domains of up to 4 variables.")

prop("C26", "Structured specifications are translated to equivalent ones",
     "The structured slugs compiler either refuses its input or prints a slugsin specification with the same meaning: every formula, with the documented operators and precedences, is translated to an equivalent one over the bits of the integer variables, "
     "integer variables keep to their ranges (as assumption for inputs, as guarantee for outputs), and no part of the input is lost.",
     ["inputs"], "all structured specifications",
     "The tests run the compiler on a few examples only via the realizability of the result; formulas are not compared with anything.",
     ["tools/StructuredSlugsParser/compiler.py", "tools/StructuredSlugsParser/Parser.py", "doc/input_formats.md"],
     [("precedences and parsing", "tools/StructuredSlugsParser/Parser.py, grammar.wi"),
      ("translation of arithmetics", "tools/StructuredSlugsParser/compiler.py: recurseCalculationSubformula, computeCalculationSubformula"),
      ("ranges and sections", "tools/StructuredSlugsParser/compiler.py: performConversion")],
     ["stdout and exit status of compiler.py [--thorougly] FILE"],
     "TLA+ grammar and semantics of the structured language; the real compiler's output is read and evaluated by TLC and compared formula by formula",
     "Up to 5 bits of variables; formulas of up to 45 tokens.")

prop("C27", "Boolean functions: each operation computes what its name says",
     "Every operation of the Boolean function library (conjunction ... quantification, quantified conjunction, variable exchange, simplification with a care set, comparison, counting, fixed point bookkeeping, "
     "writing to and reading from BDD files) yields the function its name says, and leaves every other function unchanged, whatever was computed, released, reordered or garbage-collected before.",
     ["inputs", "histories"], "all sequences of operations on all functions, all variable orders, all histories of the node tables",
     TESTS + "the library is exercised only through realizability of ten examples, and never after a reordering or with shared results.",
     ["src/BFCudd.h", "src/BFCuddManager.h", "src/BFCudd.cpp", "src/bddDump.cpp", "src/BFAbstractionLibrary"],
     [("operators", "src/BFAbstractionLibrary/BFCudd.h: BFBdd"),
      ("quantification and variable exchange", "src/BFAbstractionLibrary/BFCudd.h, BFCuddVarCube.h, BFCuddVarVector.h"),
      ("dump and fixed point", "src/BFAbstractionLibrary/BFCuddManager.h, BFCudd.cpp")],
     ["registers of harness/bdd_machine.cpp, a program interpreter linked with the library of the current tree"],
     "TLA+ state machine whose registers are sets of assignments; TLC replays programs step by step against the registers of the real library",
     "Functions of up to 5 variables amid up to 12 others; programs of up to 40 instructions.")

prop("C28", "Options combine: every accepted combination means what its options mean",
     "For every combination of the synthesis options that slugs accepts, given in any order, repeatedly, and with the file names anywhere between them, the verdict is the one of the game the options describe and the output in the "
     "requested format is a controller with every property the options promise.",
     ["inputs"], "all argument vectors, all specifications",
     "The tests use six combinations of options, in one order, and look at the verdict only.",
     ["src/main.cpp"],
     [("options and their normalization", "src/main.cpp: commandLineArguments, main"),
      ("supported combinations", "src/main.cpp: optionCombinations"),
      ("composition of plugins", "src/extension*.hpp: makeInstance")],
     ["exit status, stdout, stderr and files of slugs with every combination of options"],
     "TLA+ specification composed from the modules of the single options (INSTANCE); TLC judges the real runs",
     "Games of up to 4 variables; all supported combinations covered in every run.")

prop("C29", "Errors never pass for results",
     "Unknown options, unsupported combinations, and missing, unreadable, malformed or excess files are refused: exit status 1, an error message, no verdict, nothing printed, no file changed. "
     "A failure to read at any byte of the input, or to write at any byte of the output, is reported by exit status 1, whatever the options; and exit status 0 means that the requested output is complete, on the requested channel, and that only the named output file was changed.",
     ["inputs", "faults"], "all argument vectors, files, and points at which reading or writing fails",
     TESTS + "no test has a failing read or write, a wrong option or a missing file.",
     ["src/main.cpp", "src/synthesisContextBasics.cpp", "src/BFAbstractionLibrary/BFCuddManager.cpp", "src/extensionExtractExplicitStrategy.hpp"],
     [("options and combinations", "src/main.cpp: main"),
      ("consumption of file names", "src/extension*.hpp: init, src/synthesisContextBasics.cpp: init"),
      ("writing of results", "src/extensionExtract*.hpp: execute, src/BFAbstractionLibrary/BFCuddManager.cpp: writeBDDToFile")],
     ["exit status, stdout, stderr, contents of all files before and after"],
     "TLA+ state machine of arguments, files and failures; TLC walks it for every real run, with faults injected at chosen bytes, and compares where it ends",
     "2500 argument vectors quick; failures of single files.")

PYT = "No test runs any of the Python tools; "

prop("C30", "Controllers shown to people are those that slugs computed",
     "For every structured specification, what the integer decoder and the graph converter show of the controller - integers in their declared ranges, Booleans, goals, transitions, the table of variables - is "
     "a controller that implements the game of the structured specification over its own variables; both show the same states and transitions, including states without successors and the empty controller.",
     ["inputs"], "all structured specifications, all controllers",
     PYT + "the claim is about every controller and its decoding.",
     ["tools/explicitImplementationIntegerDecoder.py", "tools/explicitStrategyToGraphviz.py", "tools/StructuredSlugsParser/compiler.py"],
     [("bits to integers", "tools/explicitImplementationIntegerDecoder.py"), ("states and transitions to a graph", "tools/explicitStrategyToGraphviz.py")],
     ["output of the tools fed with the output of slugs fed with the output of the compiler"],
     "TLA+ semantics of structured specifications and of controllers (StructuredLang, GR1Game, ExplicitStrategy) evaluated by TLC on what the tools print",
     "Up to 4 bits; the standard, robotics and recovery variants.")

prop("C31", "Safety specifications become circuits with the same verdict on every run",
     "For every specification without liveness, the translated and-inverter graph has the specification's variables as inputs (outputs marked controllable) and, for every infinite sequence of their values, raises its error output for the first time in the "
     "step in which a guarantee is first violated while no assumption has been violated, and not at all if there is none; a latch whose symbol is prev_ and a variable's name holds that variable's last value; specifications with liveness are refused.",
     ["inputs", "histories"], "all safety specifications, all sequences of inputs",
     PYT + "equality of a circuit and a specification is a claim about all sequences of inputs.",
     ["tools/translateSafetySlugsSpecToSyntCompAIGFormat.py"],
     [("latches for initial step, old values and violated assumptions", "tools/translateSafetySlugsSpecToSyntCompAIGFormat.py")],
     ["the AAG file"],
     "TLA+ model of the circuit and of a monitor of the specification; TLC explores their product over all input sequences for each circuit the real tool wrote",
     "Specifications of up to 4 variables; buffers and all operators.")

prop("C32", "Minimal unrealizable cores are unrealizable and minimal",
     "From every unrealizable specification the core extractor leaves one with the same variables, assumptions and initial guarantees and a subset of the other guarantees that is unrealizable and none of whose guarantees can be dropped.",
     ["inputs"], "all unrealizable specifications",
     PYT + "minimality quantifies over all smaller specifications.",
     ["tools/findMinimalUnrealizableCore.py"],
     [("deletion of guarantees one after another", "tools/findMinimalUnrealizableCore.py")],
     ["the file with the core"],
     "TLA+ game of every candidate specification solved by TLC and compared with the core the real tool leaves",
     "Games of up to 4 variables with up to 8 guarantees.")

prop("C33", "Stuck-at analysis names exactly the harmless stuck signals",
     "For every structured specification the report states realizability truthfully and lists, for every output (input, if unrealizable), exactly the values at which it may be stuck - from the start and in every step - without changing that.",
     ["inputs"], "all structured specifications",
     PYT + "each line of the report is a verdict about another specification.",
     ["tools/StructuredSlugsParser/compiler.py", "tools/analyzeStuckAtConstant.py"],
     [("constraints added for each value", "tools/analyzeStuckAtConstant.py")],
     ["standard output of the tool"],
     "TLA+ game of the structured specification with the signal fixed, solved by TLC for every signal and value, compared with the real report",
     "Up to 4 bits of variables.")

prop("C34", "Parameter searches report exactly the optimal parameters",
     "For every monotone realizability problem the binary search reports the optimal parameter (or that none is realizable) after logarithmically many calls, the last of them for the reported value, and the multi-dimensional search reports exactly the "
     "Pareto-optimal parameters; when the script fails or gives no clear answer, they stop with an error and report nothing.",
     ["inputs", "faults"], "all ranges, directions and monotone problems; all points at which the script may fail",
     PYT + "the claim is about every monotone function and every failing call.",
     ["tools/binaryRealizabilitySearch.py", "tools/multiDimensionalRealizabilitySearch.py"],
     [("search interval", "tools/binaryRealizabilitySearch.py"), ("sets of known realizable and unrealizable corners", "tools/multiDimensionalRealizabilitySearch.py: runSearch")],
     ["standard output, exit status and the calls of the script"],
     "TLA+ specification of the answer (Pareto front) and of the calls, checked by TLC against the recorded runs of the real tools",
     "Up to three dimensions.")

prop("C35", "Imported RATSY and LTLMoP specifications keep their meaning",
     "Every RATSY or LTLMoP specification whose conjuncts are of the forms p, G p and G F p (p over current and next values) is translated to a slugsin file with the same variables, initial conditions, step constraints and recurring "
     "conditions; every other specification is refused, by the translator or by slugs.",
     ["inputs"], "all formulas, with all documented spellings of the operators, brackets, line breaks and names",
     PYT + "the claim is about every formula.",
     ["tools/translateFromRatsyFormatToSlugsFormat.py", "tools/translateFromLTLMopLTLFormatToSlugsFormat.py", "tools/grammar.wi", "tools/parser.py"],
     [("tokens", "tokenize in both tools"), ("classification of conjuncts", "buildPropertySet in both tools"), ("translation", "parseSimpleFormula in both tools")],
     ["exit status and standard output of the translators, read as slugsin"],
     "TLA+ grammar and semantics of the LTL fragment; TLC parses the original and the translated file and compares the games",
     "Up to 4 variables; formulas of up to 120 tokens.")

prop("C36", "Reported resilience levels are exactly the maximal achievable ones",
     "For every realizable specification the k-resilience checker reports exactly the Pareto-optimal achievable resilience levels (each safety assumption none/some/any, and a number k: how many violations of 'some' assumptions the system "
     "bears before it has recovered), and each specification file it writes for a level denotes that level's game; an unrealizable specification is reported as such. Assumptions marked as variable limits always hold.",
     ["inputs", "histories"], "all specifications and all resilience levels",
     PYT + "optimality quantifies over all levels, and each level over all plays of a game with a counter.",
     ["tools/kResilientRealizabilityChecker.py"],
     [("frontier search in the lattice of levels", "tools/kResilientRealizabilityChecker.py: getFrontierSetInLatticeRecurse"),
      ("resilience counter and its constraints", "tools/kResilientRealizabilityChecker.py: writeMixedRobustSpecification"),
      ("assumptions moved into the guarantees", "tools/kResilientRealizabilityChecker.py: checkInftyRobustImplementability")],
     ["exit status, standard output and the files that the tool writes"],
     "TLA+ game with an explicit violation counter, solved by TLC for all combinations of marks around the frontier that the real tool reported; written files are read back and compared with that game",
     "Specifications of up to 4 variables and 3 safety assumptions.")
