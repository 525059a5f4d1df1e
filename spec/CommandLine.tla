------------------------------ MODULE CommandLine ------------------------------
(***************************************************************************)
(* The command line, the files and their failures as a state machine: one  *)
(* step per argument, per file consumed, and per phase.  Reading can fail  *)
(* at any byte and writing can fail at any byte; a run ends as "refused"   *)
(* (nothing was solved), "failed" (the result could not be written), or    *)
(* "done".  What the real tool is seen to do must be that end: status,     *)
(* verdict, which files changed, and whether anything was printed.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

Explicit == "--explicitStrategy"   Symbolic == "--symbolicStrategy"   Simple == "--simpleSymbolicStrategy"
Permissive == "--extractExplicitPermissiveStrategy"   Robotics == "--sysInitRoboticsSemantics"   Recovery == "--simpleRecovery"
Jsn == "--jsonOutput"   Cost == "--twoDimensionalCost"   Motion == "--nonDeterministicMotion"   Shell == "--interactiveStrategy"
Coop == "--cooperativeGR1Strategy"   Counter == "--counterStrategy"   Reach == "--restrictToReachableStates"   InitPos == "--analyzeInitialPositions"

Games == {"--IROSfastslow", "--biasForAction", "--fixedPointRecycling", Coop, Cost}
Analyses == {"--analyzeAssumptions", "--analyzeInterleaving", "--analyzeSafetyLivenessInteraction", "--computeAbstractWinningTrace", InitPos,
             "--computeCNFFormOfTheSpecification", "--computeIncompleteInformationEstimator", "--computeInterestingRunOfTheSystem", "--computeWeakenedSafetyAssumptions"}
Known == Games \cup Analyses \cup {Explicit, Symbolic, Simple, Permissive, Robotics, Recovery, Jsn, Motion, Shell, Counter, Reach}

(* which sets of options make sense together: a rule, not a table *)
Permissible(o) ==
  LET outs == o \cap {Explicit, Symbolic, Simple, Permissive}
  IN \/ \E a \in Analyses : o = {a}
     \/ o = {InitPos, Reach}
     \/ Counter \in o /\ o \subseteq {Counter, Robotics}
     \/ Motion \in o /\ (o = {Motion} \/ o = {Motion, Robotics} \/ o = {Motion, Shell})
     \/ Shell \in o /\ (o = {Shell} \/ \E g \in Games : o = {Shell, g})
     \/ /\ o \subseteq Games \cup {Explicit, Symbolic, Simple, Permissive, Robotics, Recovery, Jsn}
        /\ Cardinality(o \cap Games) <= 1
        /\ Cardinality(outs) <= 1
        /\ Recovery \in o => outs \cap {Explicit, Symbolic, Simple} # {}
        /\ Jsn \in o => outs = {Explicit}
        /\ ~ (Permissive \in o /\ Coop \in o)

SaysVerdict(o) == o \cap Analyses = {}

VARIABLES c, pc, i, opts, files, outname, solved, changed, verdict
vars == <<c, pc, i, opts, files, outname, solved, changed, verdict>>
K == Cases[c]
IsOption(a) == Len(a) > 0 /\ SubSeq(a, 1, 1) = "-"

Init == /\ c \in 1..Len(Cases)
        /\ pc = "args" /\ i = 1 /\ opts = {} /\ files = <<>> /\ outname = "" /\ solved = "none" /\ changed = {} /\ verdict = "pending"

Stay(vs) == UNCHANGED vs
Refuse == pc' = "refused" /\ UNCHANGED <<c, i, opts, files, outname, solved, changed, verdict>>
Goto(l) == pc' = l

ReadArg ==
  /\ pc = "args" /\ i <= Len(K.args)
  /\ LET a == K.args[i] IN
     IF IsOption(a) THEN (IF a \in Known THEN opts' = opts \cup {a} /\ i' = i + 1 /\ UNCHANGED <<c, pc, files, outname, solved, changed, verdict>> ELSE Refuse)
     ELSE files' = Append(files, a) /\ i' = i + 1 /\ UNCHANGED <<c, pc, opts, outname, solved, changed, verdict>>

Lookup ==
  /\ pc = "args" /\ i > Len(K.args)
  /\ IF Permissible(opts) THEN Goto("spec") /\ UNCHANGED <<c, i, opts, files, outname, solved, changed, verdict>> ELSE Refuse

(* a file that can be read to its end and has the right content *)
Readable(f, kinds) == K.kinds[f] \in kinds /\ K.rfault # f

ReadSpec ==
  /\ pc = "spec"
  /\ IF files = <<>> \/ (Motion \in opts /\ Len(files) < 2) THEN Refuse
     ELSE IF ~Readable(Head(files), {"r", "u"}) THEN Refuse
     ELSE /\ solved' = (IF K.kinds[Head(files)] = "r" THEN "realizable" ELSE "unrealizable")
          /\ files' = Tail(files) /\ Goto("second") /\ UNCHANGED <<c, i, opts, outname, changed, verdict>>

ReadSecond ==
  /\ pc = "second"
  /\ IF opts \cap {Cost, Motion} = {} THEN Goto("output") /\ UNCHANGED <<c, i, opts, files, outname, solved, changed, verdict>>
     ELSE IF files = <<>> THEN Refuse
     ELSE IF ~Readable(Head(files), {IF Cost \in opts THEN "cost" ELSE "robot"}) THEN Refuse
     ELSE files' = Tail(files) /\ Goto("output") /\ UNCHANGED <<c, i, opts, outname, solved, changed, verdict>>

OutputName ==
  /\ pc = "output"
  /\ IF opts \cap {Symbolic, Simple} # {} /\ files = <<>> THEN Refuse
     ELSE IF opts \cap {Explicit, Permissive, Counter, Symbolic, Simple} = {} \/ files = <<>>
          THEN (IF files # <<>> THEN Refuse ELSE Goto("write") /\ UNCHANGED <<c, i, opts, files, outname, solved, changed, verdict>>)
     ELSE IF Len(files) > 1 THEN Refuse
     ELSE outname' = Head(files) /\ files' = <<>> /\ Goto("write") /\ UNCHANGED <<c, i, opts, solved, changed, verdict>>

(* the output of Counter is for unrealizable specifications, that of the others for realizable ones *)
HasOutput == solved = (IF Counter \in opts THEN "unrealizable" ELSE "realizable")
Write ==
  /\ pc = "write"
  /\ IF outname # "" /\ HasOutput
     THEN IF K.kinds[outname] \in {"dir", "nodir"} THEN Goto("failed") /\ UNCHANGED changed
          ELSE changed' = {outname} /\ Goto(IF K.limit >= 0 /\ K.limit < K.full THEN "failed" ELSE "done")
     ELSE Goto(IF K.limit >= 0 /\ K.limit < K.full THEN "failed" ELSE "done") /\ UNCHANGED changed
  /\ UNCHANGED <<c, i, opts, files, outname, solved, verdict>>

(* ---- what was seen must be where the machine ended ---- *)
Seen == {K.changed[k] : k \in DOMAIN K.changed}
Judge ==
  LET o == K.observed IN
  IF o.status # (IF pc = "done" THEN 0 ELSE 1) THEN "wrong exit status after the machine " \o pc
  ELSE IF pc = "refused" /\ (o.verdict # "none" \/ o.printed) THEN "an input that must be refused was processed"
  ELSE IF pc = "refused" /\ Seen # {} THEN "refused, but files were changed"
  ELSE IF pc # "done" /\ ~o.complained THEN "no error message"
  ELSE IF pc # "refused" /\ SaysVerdict(opts) /\ o.verdict # solved THEN "wrong verdict"
  ELSE IF pc # "refused" /\ ~ (Seen \subseteq changed) THEN "files were changed that are no output"
  ELSE IF pc = "done" /\ Seen # changed THEN "the output file was not written"
  ELSE IF pc = "done" /\ K.stale THEN "old content left in the output file"
  ELSE IF pc = "done" /\ SaysVerdict(opts) /\ Shell \notin opts /\ o.printed # (outname = "" /\ HasOutput /\ opts \cap {Explicit, Permissive, Counter} # {}) THEN "output on the wrong channel"
  ELSE "ok"
End == pc \in {"refused", "failed", "done"} /\ verdict = "pending" /\ verdict' = Judge /\ UNCHANGED <<c, pc, i, opts, files, outname, solved, changed>>

Finished == verdict # "pending" /\ UNCHANGED vars
Next == Finished \/ ReadArg \/ Lookup \/ ReadSpec \/ ReadSecond \/ OutputName \/ Write \/ End
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
(* the design itself: nothing is written before everything has been read *)
NothingEarly == changed # {} => pc \in {"failed", "done"} /\ opts \subseteq Known /\ Permissible(opts) /\ files = <<>>
===============================================================================
