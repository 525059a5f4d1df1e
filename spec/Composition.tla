----------------------------- MODULE Composition -----------------------------
(***************************************************************************)
(* The embedding of a game into a larger one that the verdict checks use:  *)
(* a second component with variables of its own, no assumptions and a      *)
(* total transition relation changes neither who wins from where nor the   *)
(* verdict.  Checked here on embeddings small enough to be solved.         *)
(* A case: [lines, padded] (the specification without and with noise).     *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

(* bit numbers in the large game of the variables of the small one *)
BitsOf(sv, bv) ==
  LET name(vs, k) == LET i == Inputs(vs) IN IF k <= Len(i) THEN i[k].name ELSE Outputs(vs)[k - Len(i)].name
  IN [k \in 1..Len(sv) |-> CHOOSE l \in 1..Len(bv) : name(bv, l) = name(sv, k)]
RECURSIVE Proj(_, _, _)
Proj(b, p, k) == IF k > Len(b) THEN 0 ELSE ((p \div Pow2[b[k]-1]) % 2) * Pow2[k-1] + Proj(b, p, k+1)

Judge(k) ==
  LET s == Read(Cases[k].lines)  l == Read(Cases[k].padded)
      g == Denote(s)  h == Denote(l)
      W == SysWin(g)  V == SysWin(h)
      b == TLCEval(BitsOf(s.vars, l.vars))
  IN IF V # {p \in Q(h) : Proj(b, p, 1) \in W} THEN "winning positions"
     ELSE IF RealizableStd(g, W) # RealizableStd(h, V) THEN "verdict"
     ELSE IF RealizableRobotics(g, W) # RealizableRobotics(h, V) THEN "verdict (robotics)"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(c) /\ UNCHANGED c
Conforms == verdict \in {"pending", "ok"}
===============================================================================
