----------------------------- MODULE SafetyLiveness -----------------------------
(***************************************************************************)
(* The safety/liveness interaction report: realizability of the sixteen    *)
(* specifications obtained by dropping safety/liveness assumptions/        *)
(* guarantees; what a non-strict implication would change; and how fast a  *)
(* player can force the other one to break its safety part.                *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Variant(g, sa, la, sg, lg) ==
  [g EXCEPT !.E = IF sa THEN @ ELSE g.full, !.A = IF la THEN @ ELSE << g.full >>,
            !.S = IF sg THEN @ ELSE g.full, !.G = IF lg THEN @ ELSE << g.full >>]
B(n, k) == (n \div Pow2[k]) % 2 = 1
RowOf(g, k) == \* k = 0..15
  LET g2 == Variant(g, B(k, 3), B(k, 2), B(k, 1), B(k, 0)) W == SysWin(g2) IN
  [sa |-> B(k, 3), la |-> B(k, 2), sg |-> B(k, 1), lg |-> B(k, 0), std |-> RealizableStd(g2, W), rob |-> RealizableRobotics(g2, W)]

(* Non-strict implication: the system may break its safety part if it can
   make the environment break its assumptions afterwards (or never meet its
   liveness assumptions). *)
Blame(g) == SysWin([g EXCEPT !.S = g.full, !.G = << {} >>])
NSMoves(g, V) == TLCEval([p \in Q(g) |->
  {{q \in Q(g) : InOf(g, q) = x /\ (Tr(g, p, q) \in g.S \/ q \in V)} : x \in {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}}])
NSStep(g, mv, V, goal, Z, Y_, live, W) ==
  {p \in Q(g) : \A M \in mv[p] : \E q \in M :
      \/ Tr(g, p, q) \notin g.S  \* then q \in V by NSMoves
      \/ q \in V
      \/ q \in Y_
      \/ q \in Z /\ Tr(g, p, q) \in goal
      \/ q \in W /\ Tr(g, p, q) \notin live}
RECURSIVE NSX(_, _, _, _, _, _, _, _), NSI(_, _, _, _, _, _, _, _), NSY(_, _, _, _, _, _), NSJ(_, _, _, _, _, _), NSZ(_, _, _, _)
NSX(g, mv, V, goal, Z, Y_, i, W) ==
  LET W2 == TLCEval(NSStep(g, mv, V, goal, Z, Y_, g.A[i], W)) IN IF W2 = W THEN W ELSE NSX(g, mv, V, goal, Z, Y_, i, W2)
NSI(g, mv, V, goal, Z, Y_, i, acc) ==
  IF i > Len(g.A) THEN acc ELSE NSI(g, mv, V, goal, Z, Y_, i+1, TLCEval(acc \cup NSX(g, mv, V, goal, Z, Y_, i, Q(g))))
NSY(g, mv, V, goal, Z, W) == LET W2 == NSI(g, mv, V, goal, Z, W, 1, W) IN IF W2 = W THEN W ELSE NSY(g, mv, V, goal, Z, W2)
NSJ(g, mv, V, Z, j, acc) == IF j > Len(g.G) THEN acc ELSE NSJ(g, mv, V, Z, j+1, TLCEval(acc \cap NSY(g, mv, V, g.G[j], Z, {})))
NSZ(g, mv, V, Z) == LET Z2 == NSJ(g, mv, V, Z, 1, Q(g)) IN IF Z2 = Z THEN Z ELSE NSZ(g, mv, V, Z2)
NonStrictWin(g) == LET V == Blame(g) mv == NSMoves(g, V) IN TLCEval(NSZ(g, mv, V, Q(g)))

(* positions from which a player forces a safety violation of the other
   within k rounds *)
RECURSIVE EnvForces(_, _), SysForces(_, _)
EnvForces(g, k) == IF k = 0 THEN {} ELSE LET W == EnvForces(g, k-1) IN
  TLCEval({p \in Q(g) : \E x \in X(g) : \A y \in Y(g) : LET q == Pos(g, x, y) t == Tr(g, p, q) IN t \in g.E /\ (t \notin g.S \/ q \in W)})
SysForces(g, k) == IF k = 0 THEN {} ELSE LET W == SysForces(g, k-1) IN
  TLCEval({p \in Q(g) : \A x \in X(g) : \E y \in Y(g) : LET q == Pos(g, x, y) t == Tr(g, p, q) IN t \notin g.E \/ (t \in g.S /\ q \in W)})
EnvStart(g, W) == \E x \in X(g) : (\A y \in Y(g) : Pos(g, x, y) \in g.IE) /\ \A y \in Y(g) : Pos(g, x, y) \in g.IS => Pos(g, x, y) \in W
Rounds(g, Good(_)) == LET ks == {k \in 1..g.N+1 : Good(k)} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A l \in ks : k <= l

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE IF cs.observed # "done" THEN "no result"
  ELSE LET g == Denote(st)
           r == cs.report
           rows == TLCEval([k \in 1..16 |-> RowOf(g, k-1)])
           full == rows[16]
           nsw == NonStrictWin(g)
           ns == IF full.std /\ full.rob THEN [said |-> FALSE, std |-> FALSE, rob |-> FALSE]
                 ELSE [said |-> TRUE, std |-> ~full.std /\ RealizableStd(g, nsw), rob |-> ~full.rob /\ RealizableRobotics(g, nsw)]
           n == IF rows[11].std THEN Rounds(g, LAMBDA k : RealizableStd(g, SysForces(g, k)))
                ELSE Rounds(g, LAMBDA k : EnvStart(g, EnvForces(g, k)))
           fal == [who |-> IF rows[11].std THEN "system" ELSE "environment", steps |-> n,
                   noinit |-> ~rows[11].std /\ n > 0 /\ g.IE \cap g.IS \cap EnvForces(g, n) = {}]
       IN IF \E k \in 1..16 : r.rows[k] # rows[k] THEN "row " \o ToString(CHOOSE k \in 1..16 : r.rows[k] # rows[k])
          ELSE IF r.nonstrict # ns THEN "non-strict implication: expected " \o ToString(ns)
          ELSE IF r.falsify # fal THEN "falsification: expected " \o ToString(fal)
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
