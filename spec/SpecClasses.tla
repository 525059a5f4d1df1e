------------------------------- MODULE SpecClasses -------------------------------
(***************************************************************************)
(* What tells the options apart: for every specification of a pool, the    *)
(* verdicts of the games that the options can stand for.  Used to choose,  *)
(* for each combination of options, specifications on which leaving out,   *)
(* or adding, one of the options would make a difference.                  *)
(*   s r: standard/robotics; S R: the same for the cooperative (or, for    *)
(*   fast/slow files, the fast/slow) game; e: some input may be forbidden  *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
FS == INSTANCE FastSlow
EX == INSTANCE ExplicitStrategy
B(x, ch) == IF x THEN ch ELSE ""
Class(cs) ==
  LET st == Read(IF cs.fs THEN FS!Std(cs.lines) ELSE cs.lines) IN
  IF st.err # "" THEN "rejected"
  ELSE LET g == TLCEval(Denote(st))
           h == IF cs.fs THEN FS!FastSlowGame(g, FS!SlowBits(st, cs.lines)) ELSE g
           W == TLCEval(SysWin(g))
           V == IF cs.fs THEN SysWin(h) ELSE EX!CoopWin(g)
       IN B(RealizableStd(g, W), "s") \o B(RealizableRobotics(g, W), "r") \o B(RealizableStd(h, V), "S") \o B(RealizableRobotics(h, V), "R")
          \o B(g.E # g.full, "e")
Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Class(Cases[c]) /\ UNCHANGED c /\ PrintT(<<"CLASS", c, verdict'>>)
Spec == Init /\ [][Next]_<<c, verdict>>
===============================================================================
