------------------------------- MODULE TwoDimCost -------------------------------
(***************************************************************************)
(* Controllers optimized for action and waiting cost.  Whatever the costs,   *)
(* they implement the game.  If avoiding to wait for the environment comes   *)
(* first (cs.waitfirst), then from every initial position from which the     *)
(* first goal can be reached without waiting, the controller reaches it with *)
(* the least worst-case sum of action costs.                                 *)
(*                                                                           *)
(* costs: sequence of [cost, tok], a cost and the formula of the transitions *)
(* that have it; all other transitions cost nothing.                         *)
(***************************************************************************)
EXTENDS ExplicitStrategy

FullLits(st) ==
  LET g == Denote(st)
      bitset(k) == {t \in g.full : (t \div Pow2[k]) % 2 = 1}
      n == g.nI + g.nO
      inB  == [k \in 1..g.nI |-> Inputs(st.vars)[k].name]
      outB == [k \in 1..g.nO |-> Outputs(st.vars)[k].name]
      idx(nm) == IF \E k \in 1..g.nI : inB[k] = nm THEN (CHOOSE k \in 1..g.nI : inB[k] = nm) - 1
                 ELSE g.nI + (CHOOSE k \in 1..g.nO : outB[k] = nm) - 1
      base == {inB[k] : k \in 1..g.nI} \cup {outB[k] : k \in 1..g.nO}
  IN TLCEval([nm \in Names(st.vars) |-> IF nm \in base THEN bitset(idx(nm)) ELSE bitset(n + idx(SubSeq(nm, 1, Len(nm)-1)))])

CostSets(st, g, costs) ==
  LET lit == FullLits(st) IN TLCEval([k \in DOMAIN costs |-> Den(lit, g.full, costs[k].tok, 1, << >>).set])
Overlap(costs, sets) == \E k, l \in DOMAIN costs : costs[k].cost # costs[l].cost /\ sets[k] \cap sets[l] # {}

MaxCost(costs) == LET S == {costs[k].cost : k \in DOMAIN costs} \cup {0} IN CHOOSE m \in S : \A x \in S : x <= m

(* positions from which the goal can be reached at a total cost of at most k *)
RECURSIVE Lfp(_, _), Layers(_, _, _, _, _)
Lfp(F(_), W) == LET W2 == TLCEval(W \cup F(W)) IN IF W2 = W THEN W ELSE Lfp(F, W2)
(* acc[i+1] = positions with budget i *)
Layers(g, goal, cost, K, acc) ==
  LET k == Len(acc) IN
  IF k > K THEN acc
  ELSE LET rest == {t \in g.S : cost[t] <= k /\ (t \in goal \/ (cost[t] > 0 /\ Dst(g, t) \in acc[k - cost[t] + 1]))}
           free == {t \in g.S : cost[t] = 0}
       IN Layers(g, goal, cost, K, Append(acc, Lfp(LAMBDA W : Cox(g, rest \cup {t \in free : Dst(g, t) \in W}), IF k = 0 THEN {} ELSE acc[k])))

(* the same on the printed controller *)
RECURSIVE NodeLayers(_, _, _, _, _, _)
NodeLayers(g, ns, goal, cost, K, acc) ==
  LET k == Len(acc) IN
  IF k > K THEN acc
  ELSE LET good(n, W) == \A m \in SuccSet(ns, n) : LET t == EdgeTr(g, ns, n, m) IN
              t \notin g.E \/ (cost[t] <= k /\ (t \in goal \/ (IF cost[t] = 0 THEN m \in W ELSE m \in acc[k - cost[t] + 1])))
       IN NodeLayers(g, ns, goal, cost, K, Append(acc, Lfp(LAMBDA W : {n \in Node(ns) : good(n, W)}, IF k = 0 THEN {} ELSE acc[k])))

Least(Ls, p) == LET ks == {k \in 1..Len(Ls) : p \in Ls[k]} IN IF ks = {} THEN 1000 ELSE CHOOSE k \in ks : \A l \in ks : k <= l
MinOf(S) == CHOOSE k \in S : \A l \in S : k <= l

Optimal(g, W, ns, cs, sets) ==
  LET cost == TLCEval([t \in g.full |-> IF \E k \in DOMAIN cs.costs : t \in sets[k] THEN cs.costs[CHOOSE k \in DOMAIN cs.costs : t \in sets[k]].cost ELSE 0])
      goal == TLCEval(g.G[1] \cap To(g, W))
      K == MaxCost(cs.costs) * Cardinality(Q(g))
      Ls == Layers(g, goal, cost, IF K > 24 THEN 24 ELSE K, << >>)
      Ns == NodeLayers(g, ns, goal, cost, IF K > 24 THEN 24 ELSE K, << >>)
      okay(n, k) == k >= 1000 \/ n \in Ns[k]
  IN IF cs.robotics
     THEN \A p \in g.IE \cap g.IS : \E n \in InitNodes(ns) : ns[n].pos = p /\ okay(n, Least(Ls, p))
     ELSE \A x \in X(g) : (\A y \in Y(g) : Pos(g, x, y) \in g.IE) =>
             LET best == MinOf({Least(Ls, q) : q \in {q \in W \cap g.IS : InOf(g, q) = x}})
             IN \E n \in InitNodes(ns) : InOf(g, ns[n].pos) = x /\ ns[n].pos \in g.IS /\ okay(n, best)

(* answers to inputs that break the assumptions (printed with recovery only) *)
RecoveryStaysWinning(g, W, ns) == \A n \in Node(ns) : ns[n].pos \in W

TDJudge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE
  LET g == Denote(st)
      W == SysWin(g)
      real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
      ns == AsNodes(cs.nodes)
      sets == CostSets(st, g, cs.costs)
  IN IF ~real THEN (IF cs.observed = "unrealizable" /\ Len(ns) = 0 THEN "ok" ELSE "wrong verdict")
     ELSE IF Overlap(cs.costs, sets) THEN (IF cs.observed = "rejected" THEN "ok" ELSE "overlapping costs accepted")
     ELSE IF cs.observed # "realizable" THEN "wrong verdict"
     ELSE IF cs.plain THEN "ok"
     ELSE IF ~StepsSafe(g, ns) THEN "step breaks S"
     ELSE IF ~InputComplete(g, ns) THEN "input not answered"
     ELSE IF cs.fmt # "permissive" /\ ~Deterministic(g, cs.nodes) THEN "two answers to one input"
     ELSE IF ~(IF cs.robotics THEN InitCoverRobotics(g, ns) ELSE InitCoverStd(g, ns)) THEN "initial position not covered"
     ELSE IF ~LivenessHolds(g, ns) THEN "liveness guarantee starved"
     ELSE IF cs.fmt = "permissive" THEN "ok"
     ELSE IF cs.recovery /\ ~RecoveryStaysWinning(g, W, ns) THEN "recovery move leaves the winning positions"
     ELSE IF cs.waitfirst /\ ~Optimal(g, W, ns, cs, sets) THEN "not cost optimal"
     ELSE "ok"

TDInit == Init
TDNext == verdict = "pending" /\ verdict' = TDJudge(Cases[c]) /\ UNCHANGED c
===============================================================================
