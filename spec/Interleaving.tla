------------------------------ MODULE Interleaving ------------------------------
(***************************************************************************)
(* The interleaving analysis: a set of outputs that can be chosen before   *)
(* the next input is read, without losing realizability, and that cannot   *)
(* be extended by any other output.                                        *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

(* Outputs are numbered 1..nO; early is the set of those chosen first.
   YE: valuations of the early outputs, given as the set of output values
   that agree with them. *)
Agree(g, early) == {{y \in Y(g) : \A k \in early : (y \div Pow2[k-1]) % 2 = (e \div Pow2[k-1]) % 2} : e \in Y(g)}

(* For every position: for every choice of the early outputs, the answers
   possible to each legal input. *)
Plans(g, early) == TLCEval([p \in Q(g) |->
  {{{q \in Q(g) : InOf(g, q) = x /\ OutOf(g, q) \in ye /\ Tr(g, p, q) \in g.S}
       : x \in {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}} : ye \in Agree(g, early)}])
CoxE(g, pl, goal, Z, Y_, live, W) ==
  {p \in Q(g) : \E plan \in pl[p] : \A M \in plan : \E q \in M :
      \/ q \in Y_
      \/ q \in Z /\ Tr(g, p, q) \in goal
      \/ q \in W /\ Tr(g, p, q) \notin live}
RECURSIVE PX(_, _, _, _, _, _, _), PI(_, _, _, _, _, _, _), PY(_, _, _, _, _), PJ(_, _, _, _, _), PZ(_, _, _)
PX(g, pl, goal, Z, Y_, i, W) == LET W2 == TLCEval(CoxE(g, pl, goal, Z, Y_, g.A[i], W)) IN IF W2 = W THEN W ELSE PX(g, pl, goal, Z, Y_, i, W2)
PI(g, pl, goal, Z, Y_, i, acc) == IF i > Len(g.A) THEN acc ELSE PI(g, pl, goal, Z, Y_, i+1, TLCEval(acc \cup PX(g, pl, goal, Z, Y_, i, Q(g))))
PY(g, pl, goal, Z, W) == LET W2 == PI(g, pl, goal, Z, W, 1, W) IN IF W2 = W THEN W ELSE PY(g, pl, goal, Z, W2)
PJ(g, pl, Z, j, acc) == IF j > Len(g.G) THEN acc ELSE PJ(g, pl, Z, j+1, TLCEval(acc \cap PY(g, pl, g.G[j], Z, {})))
PZ(g, pl, Z) == LET Z2 == PJ(g, pl, Z, 1, Q(g)) IN IF Z2 = Z THEN Z ELSE PZ(g, pl, Z2)
RealizableEarly(g, early) == RealizableStd(g, PZ(g, Plans(g, early), Q(g)))

OutNames(st) == [k \in 1..Len(Outputs(st.vars)) |-> Outputs(st.vars)[k].name]

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE LET g == Denote(st)
           nm == OutNames(st)
           early == {k \in DOMAIN nm : \E l \in DOMAIN cs.list : cs.list[l] = nm[k]}
       IN IF ~RealizableStd(g, SysWin(g)) THEN (IF cs.observed = "unrealizable" THEN "ok" ELSE "unrealizable")
          ELSE IF cs.observed # "analyzed" THEN "realizable"
          ELSE IF cs.list # SelectSeq(nm, LAMBDA x : \E l \in DOMAIN cs.list : cs.list[l] = x) THEN "not a list of outputs"
          ELSE IF ~RealizableEarly(g, early) THEN "unrealizable with these outputs chosen first"
          ELSE IF \E k \in DOMAIN nm \ early : RealizableEarly(g, early \cup {k}) THEN "could be extended"
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
