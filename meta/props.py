"""Source of properties.jsonl and MANIFEST.json: python3 meta/props.py"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state or [], hook=hook))


TESTS = ("The existing tests run slugs on ten example files and only look at whether it terminates normally (the rest are CUDD's own "
         "self-tests); ")
SRC = "src/"

prop("C01", "Realizability verdict is that of the GR(1) game (standard semantics)",
     "For every well-formed specification, the tool reports 'realizable' if and only if, for every admissible initial input, the system "
     "has an initial output from which it wins the two-player game in which system safety may be broken only after environment safety and "
     "all guarantees must recur whenever all assumptions recur. The verdict does not depend on variable names, on unrelated variables or on how "
     "large the internal representation gets.",
     ["inputs"], "all specifications (any sections, formulas, numbers of assumptions and guarantees)",
     TESTS + "no test compares a verdict with the semantics of the game, and none is a game built to need several nested fixpoint rounds.",
     ["src/synthesisAlgorithm.cpp", "src/synthesisContextBasics.cpp", "src/variableManager.cpp", "src/BFAbstractionLibrary/BFCudd.h"],
     [("nested fixpoint over goals, assumptions and waiting sets", "src/synthesisAlgorithm.cpp: GR1Context::computeWinningPositions"),
      ("initial condition check", "src/synthesisAlgorithm.cpp: GR1Context::checkRealizability")],
     ["RESULT line and exit code of slugs FILE"],
     "TLA+ specification of reader and game solved by TLC; verdicts of the real tool checked against it",
     "Every sampled file is read and solved by the TLA+ specification (declarative nested fixpoint) and the verdict compared; games of up to 5 "
     "variables, plus the same games embedded in noise of up to 30 variables (composition argument checked on the model).")

prop("C02", "Realizability verdict under the robotics initial semantics",
     "With the robotics initialisation option, the tool reports 'realizable' if and only if the system wins the game from every position that "
     "satisfies both initialisation conditions.",
     ["inputs"], "all specifications, robotics semantics selected",
     TESTS + "the two semantics are never compared on specifications where they differ.",
     ["src/extensionRoboticsSemantics.hpp", "src/synthesisAlgorithm.cpp"],
     [("initial condition check", "src/extensionRoboticsSemantics.hpp: checkRealizability")],
     ["RESULT line and exit code of slugs --sysInitRoboticsSemantics FILE"],
     "TLA+ specification of reader and game solved by TLC; verdicts of the real tool checked against it",
     "As C01 with the other initial condition.")

prop("C03", "Formulas mean what the input language says, in every section",
     "In every section, a prefix formula is true of exactly those transitions (or positions) of which its text is true: operators, constants, "
     "primed and unprimed names, and memory buffers whose elements refer to earlier elements of the innermost buffer. Comments, blanks, section "
     "order and repetition of sections do not change the meaning.",
     ["inputs"], "all formulas, in all six formula sections, all layouts",
     TESTS + "formulas with nested buffers or shadowed recalls do not occur in a checked way.",
     ["src/synthesisContextBasics.cpp", "doc/input_formats.md"],
     [("recursive descent over blank-separated tokens", "src/synthesisContextBasics.cpp: parseBooleanFormulaRecurse"),
      ("section switch and conjunction of lines", "src/synthesisContextBasics.cpp: GR1Context::init")],
     ["verdict of slugs on games that force one transition and are decided by the formula's value there"],
     "TLA+ denotational semantics of the input language evaluated by TLC; real tool probed transition by transition",
     "Up to 3 variables, formulas of depth up to 7, ten transitions per formula.")

prop("C04", "Malformed specifications are rejected cleanly",
     "A specification file that violates the input language (unknown section, line outside a section, undeclared or doubly declared name, primed name "
     "where none is allowed, missing or stray tokens, recall of an element not yet stored) makes the tool exit with code 1 and an error message, without a "
     "verdict and without writing output; a file that does not violate it is never rejected.",
     ["inputs"], "all files obtained by mutilating specifications, in many option modes",
     TESTS + "no test feeds a malformed file.",
     ["src/synthesisContextBasics.cpp", "src/main.cpp"],
     [("exceptions with line numbers", "src/synthesisContextBasics.cpp: parseBooleanFormula*, init"), ("error handler", "src/main.cpp: main")],
     ["exit code, stderr, stdout and output file of slugs"],
     "TLA+ reader state machine evaluated by TLC; real tool's acceptance compared on mutated files",
     "Random mutations of random specifications; numerals restricted to 0..400.")

prop("C05", "Explicit controllers implement the specification",
     "For a realizable specification the printed explicit controller starts in an admissible state for every admissible initial input (or position), answers every "
     "input the environment may legally choose in every reachable state with exactly one successor, never breaks system safety before the environment breaks its own, "
     "and satisfies all guarantees infinitely often in every run that satisfies all assumptions infinitely often; its goal pointer only moves past satisfied goals. "
     "For an unrealizable one nothing is printed.",
     ["inputs", "histories"], "all specifications and all infinite runs of the printed controller",
     TESTS + "controllers are not checked at all, and the liveness claim quantifies over infinite runs.",
     ["src/extensionExtractExplicitStrategy.hpp", "src/synthesisAlgorithm.cpp", "src/tools.cpp"],
     [("recorded preferred transitions per goal", "src/synthesisAlgorithm.cpp: strategyDumpingData"),
      ("positional strategies and goal pointer", "src/extensionExtractExplicitStrategy.hpp: computeAndPrintExplicitStateStrategy")],
     ["stdout / output file of slugs --explicitStrategy"],
     "TLA+ controller-correctness specification (safety, input completeness, fair-cycle liveness) evaluated by TLC on controllers printed by the real tool",
     "Games of up to 4 variables plus controllers for larger specifications judged pointwise.")

prop("C06", "All renderings of an explicit controller agree",
     "The text listing, the JSON object and the files written when an output name is given describe the same numbered states, ranks, valuations (in order of "
     "declaration) and successors; with an output file, nothing goes to standard output; the JSON is well-formed and is itself a correct controller.",
     ["inputs", "configurations"], "all specifications, all combinations of output format and destination",
     TESTS + "no JSON output is parsed by any test.",
     ["src/extensionExtractExplicitStrategy.hpp"],
     [("two printers over one exploration", "src/extensionExtractExplicitStrategy.hpp: computeAndPrintExplicitStateStrategy")],
     ["stdout and output files of slugs --explicitStrategy [--jsonOutput]"],
     "TLA+ specification of the renderings checked by TLC on real outputs",
     "Strict lexers for both formats; names with special characters included.")

prop("C07", "Recovery controllers stay correct and recover from assumption faults",
     "A controller computed with the recovery option is still a correct controller, and in every state it additionally answers every input, even one that breaks environment "
     "safety, whenever some answer respects system safety and leads back into the winning region; it also covers all winning initial positions.",
     ["inputs", "histories", "fault_sequences"], "all specifications, all runs with environment safety faults",
     TESTS + "fault transitions are not exercised.",
     ["src/extensionExtractExplicitStrategy.hpp", "src/extensionExtractSymbolicStrategy.hpp"],
     [("extra transitions for inputs outside the assumptions", "src/extensionExtractExplicitStrategy.hpp: oneStepRecovery")],
     ["stdout of slugs --explicitStrategy --simpleRecovery; symbolic strategy files"],
     "TLA+ controller-correctness specification with faulty environment moves, evaluated by TLC on real controllers",
     "Games of up to 4 variables.")

prop("C08", "Symbolic (BDD) controllers implement the specification",
     "The BDD written by both symbolic formats denotes, over the variables listed in the file header, a controller that from every admissible start answers every legal input, "
     "keeps system safety, tracks its current goal correctly, and guarantees the liveness implication on every infinite run.",
     ["inputs", "histories"], "all specifications, both formats, all runs of the denoted controller",
     TESTS + "the files are never read back.",
     ["src/extensionExtractSymbolicStrategy.hpp", "src/BFAbstractionLibrary/bddDump.cpp"],
     [("strategy relation with goal counter", "src/extensionExtractSymbolicStrategy.hpp: computeAndPrintSymbolicStrategy")],
     ["file written by slugs --symbolicStrategy / --simpleSymbolicStrategy"],
     "TLA+ interpretation of the dumped BDD and controller-correctness check by TLC",
     "Games of up to 4 variables; the BDD is evaluated by the specification node by node.")

prop("C10", "Explicit counterstrategies defeat every system",
     "For an unrealizable specification the printed counterstrategy picks, in every state, one legal input, lists exactly the answers that respect system safety (or a deadlock "
     "if there are none), covers every admissible answer to some admissible initial input, satisfies all assumptions infinitely often and violates some guarantee on every "
     "infinite run; the verdict equals that of plain realizability checking, and for a realizable specification nothing is printed.",
     ["inputs", "histories"], "all specifications and all plays against the printed counterstrategy",
     TESTS + "counterstrategies are not examined.",
     ["src/extensionCounterstrategy.hpp", "src/extensionExtractExplicitCounterstrategy.hpp"],
     [("dual fixpoint with recorded moves", "src/extensionCounterstrategy.hpp: computeWinningPositions"),
      ("goal and assumption pointers", "src/extensionExtractExplicitCounterstrategy.hpp: computeAndPrintExplicitStateStrategy")],
     ["stdout / output file of slugs --counterStrategy"],
     "TLA+ specification of winning environment strategies evaluated by TLC on printed counterstrategies",
     "Games of up to 4 variables, both semantics.")

prop("C11", "Performance and bias options preserve correctness",
     "Fixpoint recycling and bias-for-action change neither the verdict nor the correctness of the controllers: with either option the tool gives the verdict of the plain game and "
     "controllers satisfying the same requirements.",
     ["inputs", "configurations"], "all specifications, both options, both semantics",
     TESTS + "the options are not compared with the plain algorithm.",
     ["src/extensionFixedPointRecycling.hpp", "src/extensionBiasForAction.hpp"],
     [("reuse of earlier innermost fixpoints", "src/extensionFixedPointRecycling.hpp"), ("second layer of strategy recording", "src/extensionBiasForAction.hpp")],
     ["RESULT line, controllers"],
     "TLA+ game and controller-correctness specification evaluated by TLC on the optioned tool's answers",
     "Games of up to 4 variables.")

exec(open(os.path.join(R, "meta", "props2.py")).read())

done = {p["id"] for p in P if os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py"))}
with open(os.path.join(R, "properties.jsonl"), "w") as h:
    for p in sorted(P, key=lambda p: p["id"]):
        h.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": p["state"],
                                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
man = {"version": 1, "setup_cmd": "python3 lib/build.py",
       "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"], "thorough_cmd": "bin/check %s --thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                  for p in sorted(P, key=lambda p: p["id"]) if p["id"] in done],
       "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in done] + NA,
       "notes": "Specification language: TLA+ (TLC). See DESIGN.md."}
json.dump(man, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(done), "checks")
