--------------------------- MODULE ExplicitStrategy ---------------------------
(* A case: specification lines, what slugs answered, and the controller it
   printed.  flags: robotics, recovery, ranks (check the goal pointer). *)
EXTENDS SlugsInput, CooperativeGame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Recovers(g, W, ns) ==
  /\ \A n \in Node(ns) : \A x \in X(g) :
       (\E y \in Y(g) : LET q == Pos(g, x, y) IN q \in W /\ Tr(g, ns[n].pos, q) \in g.S)
          => \E m \in SuccSet(ns, n) : InOf(g, ns[m].pos) = x
  /\ \A p \in W \cap g.IS : \E n \in InitNodes(ns) : ns[n].pos = p

JudgeGame(g, W, cs) ==
  LET real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
      ns == AsNodes(cs.nodes)
  IN IF cs.observed # (IF real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
     ELSE IF ~real THEN (IF Len(ns) = 0 THEN "ok" ELSE "strategy for unrealizable spec")
     ELSE IF ~ValidGraph(g, ns) THEN "invalid graph"
     ELSE IF ~StepsSafe(g, ns) THEN "step breaks S"
     ELSE IF ~InputComplete(g, ns) THEN "input not answered"
     ELSE IF ~Deterministic(g, cs.nodes) THEN "two answers to one input"
     ELSE IF ~(IF cs.robotics THEN InitCoverRobotics(g, ns) ELSE InitCoverStd(g, ns)) THEN "initial position not covered"
     ELSE IF ~LivenessHolds(g, ns) THEN "liveness guarantee starved"
     ELSE IF cs.ranks /\ ~RankRange(g, ns) THEN "rank out of range"
     ELSE IF cs.ranks /\ ~RankSound(g, ns) THEN "goal pointer"
     ELSE IF cs.recovery /\ ~Recovers(g, W, ns) THEN "recovery move missing"
     ELSE IF cs.coop /\ ~(W \subseteq SysWin(g)) THEN "cooperative winning set too large (model)"
     ELSE IF cs.coop /\ ~NeverStrands(g, ns) THEN "environment stranded"
     ELSE IF cs.coop /\ ~AssumptionsStayPossible(g, ns) THEN "assumption became unsatisfiable"
     ELSE "ok"

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE LET g == Denote(st) IN JudgeGame(g, IF cs.coop THEN CoopWin(g) ELSE SysWin(g), cs)

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
