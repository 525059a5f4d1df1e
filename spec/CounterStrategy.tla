---------------------------- MODULE CounterStrategy ----------------------------
(***************************************************************************)
(* What it means for a printed counter-strategy to defeat every system.    *)
(* Nodes: [pos, ri, rj, dead, din, succ].  A dead node stands for an input *)
(* (din) that the system cannot answer; it has no output part.             *)
(***************************************************************************)
EXTENDS SlugsInput, StrategyCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

NodesOf(raw) == TLCEval([n \in 1..Len(raw) |->
   [pos |-> raw[n].pos, dead |-> raw[n].dead, din |-> raw[n].din,
    ss |-> {raw[n].succ[k] : k \in 1..Len(raw[n].succ)}]])
Live(ns) == {n \in Node(ns) : ~ns[n].dead}
Answers(g, p, x) == {q \in Q(g) : InOf(g, q) = x /\ Tr(g, p, q) \in g.S}
LegalInput(g, p, x) == \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E

(* the one input a node plays: the input of its successors *)
NodeInputs(g, ns, n) == {IF ns[m].dead THEN ns[m].din ELSE InOf(g, ns[m].pos) : m \in ns[n].ss}

WellPlayed(g, ns) ==
  \A n \in Live(ns) :
    /\ Cardinality(NodeInputs(g, ns, n)) = 1
    /\ LET x == CHOOSE x \in NodeInputs(g, ns, n) : TRUE IN
         /\ LegalInput(g, ns[n].pos, x)
         /\ IF \E m \in ns[n].ss : ns[m].dead
            THEN Cardinality(ns[n].ss) = 1 /\ Answers(g, ns[n].pos, x) = {}
            ELSE {ns[m].pos : m \in ns[n].ss} = Answers(g, ns[n].pos, x)
  
(* infinite runs on which assumption i eventually never holds *)
RECURSIVE AvoidNu(_, _, _, _)
AvoidNu(g, ns, i, Z) ==
  LET Z2 == {n \in Z : \E m \in ns[n].ss \cap Z : EdgeTr(g, ns, n, m) \notin g.A[i]} IN
  IF Z2 = Z THEN Z ELSE AvoidNu(g, ns, i, Z2)
(* infinite runs on which all guarantees hold infinitely often *)
RECURSIVE GReach(_, _, _, _, _), GAll(_, _, _, _), GNu(_, _, _)
GReach(g, ns, j, Z, R) ==
  LET R2 == R \cup {n \in Z : \E m \in ns[n].ss \cap Z : m \in R \/ EdgeTr(g, ns, n, m) \in g.G[j]} IN
  IF R2 = R THEN R ELSE GReach(g, ns, j, Z, R2)
GAll(g, ns, j, Z) == IF j > Len(g.G) THEN Z ELSE GAll(g, ns, j+1, GReach(g, ns, j, Z, {}))
GNu(g, ns, Z) == LET Z2 == GAll(g, ns, 1, Z) IN IF Z2 = Z THEN Z ELSE GNu(g, ns, Z2)

InitStd(g, ns) ==
  \E x \in X(g) : /\ \A y \in Y(g) : Pos(g, x, y) \in g.IE
                  /\ \A y \in Y(g) : Pos(g, x, y) \in g.IS => \E n \in Live(ns) : ns[n].pos = Pos(g, x, y)
InitRobotics(g, ns) == \E n \in Live(ns) : ns[n].pos \in g.IE \cap g.IS

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE LET g == Denote(st)
           W == SysWin(g)
           real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
           ns == NodesOf(cs.nodes)
       IN IF EnvWin(g) # Q(g) \ W THEN "game not determined (model)"
          ELSE IF cs.observed # (IF real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
          ELSE IF real THEN (IF Len(ns) = 0 THEN "ok" ELSE "counterstrategy for realizable spec")
          ELSE IF \E n \in Live(ns) : ns[n].ss = {} THEN "node without a move"
          ELSE IF ~WellPlayed(g, ns) THEN "not a strategy"
          ELSE IF ~(IF cs.robotics THEN InitRobotics(g, ns) ELSE InitStd(g, ns)) THEN "initial position not covered"
          ELSE IF \E i \in 1..Len(g.A) : AvoidNu(g, ns, i, Node(ns)) # {} THEN "assumption starved"
          ELSE IF GNu(g, ns, Node(ns)) # {} THEN "all guarantees satisfied"
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
