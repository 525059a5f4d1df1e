---------------------------- MODULE CooperativeGame ----------------------------
(***************************************************************************)
(* The cooperative variant: the system may only move to positions in which *)
(* the environment still has a legal move, and must keep it possible for   *)
(* the environment to satisfy each of its liveness assumptions.            *)
(***************************************************************************)
EXTENDS StrategyCheck

Alive(g) == {p \in Q(g) : EnvInputs(g, p) # {}}
Moves(g) == TLCEval(g.E \cap g.S \cap To(g, Alive(g)))
SrcOf(g, F) == {Src(g, t) : t \in F}
From(g, W) == {t \in g.full : Src(g, t) \in W}

(* positions from which live is still reachable while the play waits in X
   for assumption i to be broken *)
CPath(g, mv, live, i, W, M) == mv \cap (live \cup (To(g, W \cap M) \ g.A[i]))
RECURSIVE CM(_, _, _, _, _, _), CNuX(_, _, _, _, _), CUnionI(_, _, _, _, _), CMuY(_, _, _, _), CInterJ(_, _, _, _, _)
CM(g, mv, live, i, W, M) ==
  LET M2 == TLCEval(M \cup SrcOf(g, CPath(g, mv, live, i, W, M))) IN
  IF M2 = M THEN M ELSE CM(g, mv, live, i, W, M2)
CNuX(g, mv, live, i, W) ==
  LET W2 == TLCEval(Cox(g, CPath(g, mv, live, i, W, CM(g, mv, live, i, W, {})))) IN
  IF W2 = W THEN W ELSE CNuX(g, mv, live, i, W2)
CUnionI(g, mv, live, i, acc) ==
  IF i > Len(g.A) THEN acc
  ELSE CUnionI(g, mv, live, i+1, TLCEval(acc \cup CNuX(g, mv, live, i, Q(g))))
CMuY(g, mv, goal, W) ==
  LET W2 == CUnionI(g, mv, TLCEval(goal \cup To(g, W)), 1, W) IN
  IF W2 = W THEN W ELSE CMuY(g, mv, goal, W2)
CInterJ(g, mv, Z, j, acc) ==
  IF j > Len(g.G) THEN acc
  ELSE CInterJ(g, mv, Z, j+1, TLCEval(acc \cap CMuY(g, mv, TLCEval(g.G[j] \cap To(g, Z)), {})))

(* positions of C from which the players together can reach an A_i step
   between positions of C *)
RECURSIVE Coop(_, _, _, _), CAssume(_, _, _, _), CNuZ(_, _, _)
Coop(g, mv, good, W) ==
  LET W2 == TLCEval(SrcOf(g, good) \cup W \cup SrcOf(g, mv \cap To(g, W))) IN
  IF W2 = W THEN W ELSE Coop(g, mv, good, W2)
CAssume(g, mv, i, C) ==
  IF i > Len(g.A) THEN C
  ELSE LET mvC == TLCEval(mv \cap From(g, C)) IN
       CAssume(g, mv, i+1, TLCEval(C \cap Coop(g, mvC, mvC \cap g.A[i] \cap To(g, C), {})))
CNuZ(g, mv, Z) ==
  LET Z2 == CAssume(g, mv, 1, CInterJ(g, mv, Z, 1, Q(g))) IN
  IF Z2 = Z THEN Z ELSE CNuZ(g, mv, Z2)
CoopWin(g) == CNuZ(g, Moves(g), Q(g))

(* the controller never strands the environment, and from every node the
   environment can, playing along, satisfy all assumptions for ever *)
NeverStrands(g, ns) == \A n \in Node(ns) : EnvInputs(g, ns[n].pos) # {}
RECURSIVE FReach(_, _, _, _, _), FAll(_, _, _, _), FNu(_, _, _)
FReach(g, ns, i, Z, R) ==
  LET R2 == TLCEval(R \cup {n \in Z : \E m \in SuccSet(ns, n) :
               LET t == EdgeTr(g, ns, n, m) IN t \in g.E /\ (m \in R \/ (m \in Z /\ t \in g.A[i]))})
  IN IF R2 = R THEN R ELSE FReach(g, ns, i, Z, R2)
FAll(g, ns, i, Z) == IF i > Len(g.A) THEN Z ELSE FAll(g, ns, i+1, FReach(g, ns, i, Z, {}))
FNu(g, ns, Z) == LET Z2 == FAll(g, ns, 1, Z) IN IF Z2 = Z THEN Z ELSE FNu(g, ns, Z2)
AssumptionsStayPossible(g, ns) == FNu(g, ns, Node(ns)) = Node(ns)
===============================================================================
