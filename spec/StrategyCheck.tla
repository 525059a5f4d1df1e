----------------------------- MODULE StrategyCheck -----------------------------
(***************************************************************************)
(* What it means for a finite-state controller to implement a game.  A     *)
(* controller is a sequence of nodes [pos, rank, ss]; a step moves from a  *)
(* node to one of its successors (the set ss), which carries the next      *)
(* input and the controller's answer to it.                                *)
(***************************************************************************)
EXTENDS GR1Game

Node(ns) == 1..Len(ns)
SuccSet(ns, n) == ns[n].ss
(* from the form [pos, rank, succ] with succ a sequence, as printed *)
AsNodes(raw) == TLCEval([n \in 1..Len(raw) |->
   [pos |-> raw[n].pos, rank |-> raw[n].rank, ss |-> {raw[n].succ[k] : k \in 1..Len(raw[n].succ)}]])
EdgeTr(g, ns, n, m) == Tr(g, ns[n].pos, ns[m].pos)

ValidGraph(g, ns) ==
  /\ \A n \in Node(ns) : /\ ns[n].pos \in Q(g)
                         /\ ns[n].ss \subseteq Node(ns)
  /\ \A n, m \in Node(ns) : n # m => <<ns[n].pos, ns[n].rank>> # <<ns[m].pos, ns[m].rank>>

(* inputs the environment may choose next without breaking E *)
EnvInputs(g, p) == {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}

(* every allowed input is answered, and by exactly one successor *)
InputComplete(g, ns) ==
  \A n \in Node(ns) : EnvInputs(g, ns[n].pos) \subseteq {InOf(g, ns[m].pos) : m \in SuccSet(ns, n)}
Deterministic(g, raw) ==
  \A n \in Node(raw) : \A k, l \in 1..Len(raw[n].succ) :
     k # l => InOf(g, raw[raw[n].succ[k]].pos) # InOf(g, raw[raw[n].succ[l]].pos)

(* no step breaks S *)
StepsSafe(g, ns) == \A n \in Node(ns) : \A m \in SuccSet(ns, n) : EdgeTr(g, ns, n, m) \in g.S

(* Nodes from which some infinite run stays in E, satisfies every A_i
   infinitely often but G_j only finitely often -- computed as the fair-cycle
   fixpoint restricted to the ~G_j edges (the tail of such a run). *)
EEdge(g, ns, j, n, m) == LET t == EdgeTr(g, ns, n, m) IN t \in g.E /\ t \notin g.G[j]
RECURSIVE ReachFair(_, _, _, _, _, _)
ReachFair(g, ns, j, i, Z, R) ==
  LET R2 == TLCEval(R \cup {n \in Z : \E m \in SuccSet(ns, n) :
                 EEdge(g, ns, j, n, m) /\ ((m \in R) \/ (m \in Z /\ EdgeTr(g, ns, n, m) \in g.A[i]))})
  IN IF R2 = R THEN R ELSE ReachFair(g, ns, j, i, Z, R2)
RECURSIVE FairAll(_, _, _, _, _), FairNu(_, _, _, _)
FairAll(g, ns, j, i, Z) ==
  IF i > Len(g.A) THEN Z ELSE FairAll(g, ns, j, i+1, ReachFair(g, ns, j, i, Z, {}))
FairNu(g, ns, j, Z) ==
  LET Z2 == FairAll(g, ns, j, 1, Z) IN IF Z2 = Z THEN Z ELSE FairNu(g, ns, j, Z2)
Starved(g, ns, j) == FairNu(g, ns, j, Node(ns))
LivenessHolds(g, ns) == \A j \in 1..Len(g.G) : Starved(g, ns, j) = {}

(* initial coverage *)
InitNodes(ns) == {n \in Node(ns) : ns[n].rank = 0}
InitCoverStd(g, ns) ==
  \A x \in X(g) : (\A y \in Y(g) : Pos(g, x, y) \in g.IE) =>
     \E n \in InitNodes(ns) : InOf(g, ns[n].pos) = x /\ ns[n].pos \in g.IS
InitCoverRobotics(g, ns) ==
  \A p \in g.IE \cap g.IS : \E n \in InitNodes(ns) : ns[n].pos = p

(* the goal pointer of the JTLV format: it moves from rank r to r' along an
   edge only over goals that the edge satisfies *)
RankRange(g, ns) == \A n \in Node(ns) : ns[n].rank \in 0..(Len(g.G)-1)
Between(r, s, k) == {(r + d) % k : d \in 0..(IF s = r THEN 0 ELSE ((s + k - r) % k))} 
RankSound(g, ns) ==
  LET k == Len(g.G) IN
  \A n \in Node(ns) : \A m \in SuccSet(ns, n) :
     LET r == ns[n].rank  s == ns[m].rank  t == EdgeTr(g, ns, n, m) IN
     IF r = s THEN (t \notin g.G[r+1]) \/ (\A j \in 1..k : t \in g.G[j])
     ELSE (\A d \in 0..(((s + k - r) % k) - 1) : t \in g.G[((r + d) % k) + 1]) /\ t \notin g.G[s+1]
===============================================================================
