------------------------------- MODULE GR1Game -------------------------------
(***************************************************************************)
(* Two-player GR(1) games over Boolean variables, as slugs plays them: in  *)
(* every round the environment picks the next input (respecting E if it    *)
(* can), then the system picks the next output (it must respect S).  The   *)
(* system wins a play if E is violated (or the environment is stuck)       *)
(* before S is, or if neither is ever violated and                         *)
(*        ([]<>A_1 /\ .. /\ []<>A_m) => ([]<>G_1 /\ .. /\ []<>G_n).        *)
(* A game is a record as produced by SlugsInput!Denote.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q(g) == 0..(g.N - 1)
X(g) == 0..(g.NX - 1)
Y(g) == 0..(g.NY - 1)
InOf(g, p)  == p % g.NX
OutOf(g, p) == p \div g.NX
Pos(g, x, y) == x + g.NX * y
Tr(g, p, q) == p + g.N * q
Src(g, t) == t % g.N
Dst(g, t) == t \div g.N

To(g, W) == {t \in g.full : Dst(g, t) \in W}

(* controllable predecessor: the system can force the next transition to
   lie in F, unless the environment breaks E.  Anything in g.full \ g.E is
   won by the system whatever it does. *)
Cox(g, F) ==
  {p \in Q(g) : \A x \in X(g) : \E y \in Y(g) :
        LET t == Tr(g, p, Pos(g, x, y)) IN t \notin g.E \/ t \in F}

(* environment predecessor: the environment has an input such that whatever
   the system answers, E holds and the transition lies in F or breaks S. *)
EnvPre(g, F) ==
  {p \in Q(g) : \E x \in X(g) : \A y \in Y(g) :
        LET t == Tr(g, p, Pos(g, x, y)) IN t \in g.E /\ (t \in F \/ t \notin g.S)}

(***************************************************************************)
(* System winning positions:                                               *)
(*  nu Z . /\_j mu Y . \/_i nu X .                                          *)
(*     cox( S /\ ( (G_j /\ ->Z) \/ ->Y \/ (~A_i /\ ->X) ) )                 *)
(***************************************************************************)
AnswerSets(g) == TLCEval([p \in Q(g) |->
  {{q \in Q(g) : InOf(g, q) = x /\ Tr(g, p, q) \in g.S} :
      x \in {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}}])
(* As assumptions on the next step never mention the answer, the positions of
   Cox(S \cap F) are those from which every legal input has an answer in F
   (CoxM below; checked against Cox by ModelGR1.tla). *)

(* one round of the innermost step: for the transitions
   F = (goal /\ ->Z) \/ ->Y \/ (~A_i /\ ->W) *)
CoxM(g, mv, goal, Z, Y_, notlive, W) ==
  {p \in Q(g) : \A M \in mv[p] : \E q \in M :
      \/ q \in Y_
      \/ q \in Z /\ Tr(g, p, q) \in goal
      \/ q \in W /\ Tr(g, p, q) \notin notlive}

RECURSIVE NuX(_, _, _, _, _, _, _), UnionI(_, _, _, _, _, _, _), MuY(_, _, _, _, _), NuZ(_, _, _)
NuX(g, mv, goal, Z, Y_, i, W) ==
  LET W2 == TLCEval(CoxM(g, mv, goal, Z, Y_, g.A[i], W)) IN
  IF W2 = W THEN W ELSE NuX(g, mv, goal, Z, Y_, i, W2)
UnionI(g, mv, goal, Z, Y_, i, acc) ==
  IF i > Len(g.A) THEN acc
  ELSE UnionI(g, mv, goal, Z, Y_, i+1, TLCEval(acc \cup NuX(g, mv, goal, Z, Y_, i, Q(g))))
MuY(g, mv, goal, Z, W) ==
  LET W2 == UnionI(g, mv, goal, Z, W, 1, W) IN
  IF W2 = W THEN W ELSE MuY(g, mv, goal, Z, W2)
RECURSIVE InterJ(_, _, _, _, _)
InterJ(g, mv, Z, j, acc) ==
  IF j > Len(g.G) THEN acc
  ELSE InterJ(g, mv, Z, j+1, TLCEval(acc \cap MuY(g, mv, g.G[j], Z, {})))
NuZ(g, mv, Z) ==
  LET Z2 == InterJ(g, mv, Z, 1, Q(g)) IN IF Z2 = Z THEN Z ELSE NuZ(g, mv, Z2)

SysWin(g) == TLCEval(NuZ(g, AnswerSets(g), Q(g)))

(***************************************************************************)
(* Environment winning positions, by the dual formula (Rabin(1)):          *)
(*  mu Z . \/_j nu Y . /\_i mu X .                                          *)
(*     envpre( (~G_j \/ ->Z) /\ ->Y /\ (A_i \/ ->X) )                       *)
(***************************************************************************)
RECURSIVE EMuX(_, _, _, _), EInterI(_, _, _, _), ENuY(_, _, _, _), EMuZ(_, _)
EMuX(g, live, i, W) ==
  LET W2 == TLCEval(EnvPre(g, live \cap (To(g, W) \cup g.A[i]))) IN
  IF W2 = W THEN W ELSE EMuX(g, live, i, W2)
EInterI(g, live, i, acc) ==
  IF i > Len(g.A) THEN acc
  ELSE EInterI(g, live, i+1, TLCEval(acc \cap EMuX(g, live, i, {})))
ENuY(g, avoid, j, W) ==
  LET W2 == EInterI(g, TLCEval(avoid \cap To(g, W)), 1, W) IN
  IF W2 = W THEN W ELSE ENuY(g, avoid, j, W2)
RECURSIVE EUnionJ(_, _, _, _)
EUnionJ(g, Z, j, acc) ==
  IF j > Len(g.G) THEN acc
  ELSE EUnionJ(g, Z, j+1,
         TLCEval(acc \cup ENuY(g, TLCEval((g.full \ g.G[j]) \cup To(g, Z)), j, Q(g))))
EMuZ(g, Z) ==
  LET Z2 == EUnionJ(g, Z, 1, Z) IN IF Z2 = Z THEN Z ELSE EMuZ(g, Z2)

EnvWin(g) == TLCEval(EMuZ(g, {}))

(***************************************************************************)
(* Realizability, in the two initialisation semantics of slugs.            *)
(***************************************************************************)
RealizableStd(g, W) ==
  \A x \in X(g) : (\A y \in Y(g) : Pos(g, x, y) \in g.IE) =>
                  \E y \in Y(g) : Pos(g, x, y) \in g.IS \cap W
RealizableRobotics(g, W) == (g.IE \cap g.IS) \subseteq W
===============================================================================
