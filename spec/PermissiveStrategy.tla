-------------------------- MODULE PermissiveStrategy --------------------------
(***************************************************************************)
(* Permissive controllers: a node may offer several answers to an input.   *)
(* Whatever answers are picked, the controller must implement the          *)
(* specification; it starts in every winning position; it offers every     *)
(* step that reaches the current goal and stays winning; and it offers     *)
(* every step of the deterministic controller printed for the same         *)
(* specification (given as cs.det, from --explicitStrategy).               *)
(***************************************************************************)
EXTENDS SlugsInput, StrategyCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

NoDuplicates(raw) == \A n \in Node(raw) : \A k, l \in 1..Len(raw[n].succ) : k # l => raw[n].succ[k] # raw[n].succ[l]

StartsEverywhere(g, W, ns) == W = {ns[n].pos : n \in InitNodes(ns)}

OffersGoalSteps(g, W, ns) ==
  \A n \in Node(ns) : \A q \in W :
    LET t == Tr(g, ns[n].pos, q) IN
    (t \in g.E /\ t \in g.S /\ t \in g.G[ns[n].rank + 1]) => \E m \in SuccSet(ns, n) : ns[m].pos = q

OffersDeterministicSteps(ns, ds) ==
  \A d \in Node(ds) : \A n \in Node(ns) :
    (ns[n].pos = ds[d].pos /\ ns[n].rank = ds[d].rank) =>
       \A e \in SuccSet(ds, d) : \E m \in SuccSet(ns, n) : ns[m].pos = ds[e].pos /\ ns[m].rank = ds[e].rank
ContainsDeterministicNodes(ns, ds) ==
  \A d \in Node(ds) : \E n \in Node(ns) : ns[n].pos = ds[d].pos /\ ns[n].rank = ds[d].rank

EnvRespected(g, ns) == \A n \in Node(ns) : \A m \in SuccSet(ns, n) : EdgeTr(g, ns, n, m) \in g.E

JudgeGame(g, W, cs) ==
       LET real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
           ns == AsNodes(cs.nodes)
           ds == AsNodes(cs.det)
       IN IF cs.observed # (IF real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
          ELSE IF ~real THEN (IF Len(ns) = 0 THEN "ok" ELSE "strategy for unrealizable spec")
          ELSE IF ~ValidGraph(g, ns) THEN "invalid graph"
          ELSE IF ~NoDuplicates(cs.nodes) THEN "successor listed twice"
          ELSE IF ~StepsSafe(g, ns) THEN "step breaks S"
          ELSE IF ~EnvRespected(g, ns) THEN "step for an input the environment cannot choose"
          ELSE IF ~InputComplete(g, ns) THEN "input not answered"
          ELSE IF ~StartsEverywhere(g, W, ns) THEN "initial nodes are not the winning positions"
          ELSE IF ~LivenessHolds(g, ns) THEN "liveness guarantee starved"
          ELSE IF ~RankRange(g, ns) THEN "rank out of range"
          ELSE IF ~RankSound(g, ns) THEN "goal pointer"
          ELSE IF ~OffersGoalSteps(g, W, ns) THEN "goal step not offered"
          ELSE IF ~ContainsDeterministicNodes(ns, ds) \/ ~OffersDeterministicSteps(ns, ds) THEN "step of the deterministic controller not offered"
          ELSE "ok"

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE LET g == Denote(st) IN JudgeGame(g, SysWin(g), cs)

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
