------------------------------ MODULE OptionMatrix ------------------------------
(***************************************************************************)
(* The command line as a language of its own: the set of options names a   *)
(* game (variants: standard, fast/slow, cooperative; action bias and       *)
(* fixed-point recycling do not change the game), an initial condition,    *)
(* and an output format.  What is printed must be judged by the meaning of *)
(* the single options, for EVERY combination the tool accepts: the judges  *)
(* of the individual formats are instantiated with the individual games.   *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
FS == INSTANCE FastSlow
EX == INSTANCE ExplicitStrategy
SY == INSTANCE SymbolicStrategy
PE == INSTANCE PermissiveStrategy

Range(s) == {s[i] : i \in DOMAIN s}
Has(cs, o) == o \in Range(cs.opts)

(* the game and the winning positions a set of options stands for *)
OptGame(cs, st) ==
  IF Has(cs, "--IROSfastslow") THEN FS!FastSlowGame(Denote(st), FS!SlowBits(st, cs.lines)) ELSE Denote(st)
WinOf(cs, g) == IF Has(cs, "--cooperativeGR1Strategy") THEN EX!CoopWin(g) ELSE SysWin(g)
Kind(cs) == IF Has(cs, "--explicitStrategy") THEN "explicit"
            ELSE IF Has(cs, "--symbolicStrategy") \/ Has(cs, "--simpleSymbolicStrategy") THEN "symbolic"
            ELSE IF Has(cs, "--extractExplicitPermissiveStrategy") THEN "permissive"
            ELSE "verdict"

(* the flags of a case as the options determine them.  The moves of a
   cooperative controller never include inputs that break the assumptions, so
   that recovery (promised "in many cases") adds initial positions only *)
Flags(cs) ==
  [cs EXCEPT !.robotics = Has(cs, "--sysInitRoboticsSemantics"), !.recovery = Has(cs, "--simpleRecovery") /\ ~Has(cs, "--cooperativeGR1Strategy"),
             !.coop = Has(cs, "--cooperativeGR1Strategy"), !.simple = Has(cs, "--simpleSymbolicStrategy"),
             !.ranks = ~Has(cs, "--cooperativeGR1Strategy")]

Judge(c0) ==
  LET cs == Flags(c0)
      lines == IF Has(cs, "--IROSfastslow") THEN FS!Std(cs.lines) ELSE cs.lines
      st == Read(lines)
  IN IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
     ELSE LET g == TLCEval(OptGame(cs, st))
              W == TLCEval(WinOf(cs, g))
          IN CASE Kind(cs) = "explicit" -> EX!JudgeGame(g, W, cs)
               [] Kind(cs) = "symbolic" -> SY!JudgeGame(st, g, W, cs)
               [] Kind(cs) = "permissive" -> PE!JudgeGame(g, W, cs)
               [] OTHER -> IF cs.observed = (IF (IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)) THEN "realizable" ELSE "unrealizable")
                           THEN "ok" ELSE "wrong verdict"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
