------------------------------ MODULE AbstractTrace ------------------------------
(***************************************************************************)
(* The abstract (counter)trace: how a player drives the other one into      *)
(* breaking its safety part.  Column 0 is a concrete starting position,     *)
(* column k the part of the positions the play can be in after k rounds,    *)
(* given by values of some variables: the positions that agree with it and  *)
(* from which the player wins in the remaining number of rounds.            *)
(*                                                                          *)
(* cell = 0, 1: that value; 2: any value; 3: a number whose bits are not    *)
(* shown.                                                                   *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Force(g, env, T) ==
  IF env THEN {p \in Q(g) : \E x \in X(g) : \A y \in Y(g) : LET q == Pos(g, x, y) t == Tr(g, p, q) IN t \in g.E /\ (t \notin g.S \/ q \in T)}
  ELSE {p \in Q(g) : \A x \in X(g) : \E y \in Y(g) : LET q == Pos(g, x, y) t == Tr(g, p, q) IN t \notin g.E \/ (t \in g.S /\ q \in T)}
RECURSIVE Within(_, _, _)
Within(g, env, k) == IF k = 0 THEN {} ELSE TLCEval(Force(g, env, Within(g, env, k-1)))
StartWins(g, env, W) ==
  IF env THEN \E x \in X(g) : (\A y \in Y(g) : Pos(g, x, y) \in g.IE) /\ \A y \in Y(g) : Pos(g, x, y) \in g.IS => Pos(g, x, y) \in W
  ELSE RealizableStd(g, W)
Rounds(g, env) == LET ks == {k \in 1..(g.N+1) : StartWins(g, env, Within(g, env, k))} IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A l \in ks : k <= l

Bit(p, b) == (p \div Pow2[b-1]) % 2
(* restrictions that a column may stand for *)
Readings(col) == IF \A b \in DOMAIN col.cells : col.cells[b] # 3 THEN {col.cells}
                 ELSE {f \in [DOMAIN col.cells -> 0..2] : \A b \in DOMAIN col.cells : col.cells[b] = 3 \/ col.cells[b] = f[b]}
Restrict(W, cells) == {p \in W : \A b \in DOMAIN cells : cells[b] = 2 \/ Bit(p, b) = cells[b]}
SetsOf(col, W) == IF col.void THEN {{}} ELSE {Restrict(W, r) : r \in Readings(col)} \ {{}}

(* the sets column k may stand for, given those of the column before *)
RECURSIVE Chain(_, _, _, _, _, _)
Chain(g, env, cols, n, k, sets) ==
  IF k >= n THEN sets
  ELSE Chain(g, env, cols, n, k+1,
         TLCEval({T \in SetsOf(cols[k+1], Within(g, env, n-k)) : \E U \in sets : U \subseteq Force(g, env, T)}))

(* nothing can be added to a column *)
Concrete(g, env, cols, n, D) ==
  \A k \in 1..(n-1) : \A b \in DOMAIN cols[k+1].cells : \A v \in 0..1 :
     LET R == {p \in D[k] : Bit(p, b) = v} IN R # D[k] => ~(D[k-1] \subseteq Force(g, env, R))

(* last column: an input that wins the last round, if one input does *)
WinsNow(g, p, x) == \A y \in Y(g) : LET t == Tr(g, p, Pos(g, x, y)) IN t \in g.E /\ t \notin g.S
LastOk(g, env, col, T) ==
  IF ~env THEN col.void
  ELSE LET xs == {x \in X(g) : \A p \in T : WinsNow(g, p, x)} IN
       IF col.void THEN xs = {}
       ELSE /\ \A b \in DOMAIN col.cells : b > g.nI => col.cells[b] \in {2, 3}
            /\ \E x \in xs : \A b \in 1..g.nI : col.cells[b] = Bit(x, b)

TraceOk(g, env, tr) ==
  LET n == Rounds(g, env)
      W == Within(g, env, n)
      S0 == g.IE \cap g.IS \cap W
  IN IF n = 0 THEN (IF tr.kind = "nothing" THEN "ok" ELSE "trace although the player cannot win")
     ELSE IF S0 = {} THEN (IF tr.kind = "no start" THEN "ok" ELSE "there is no start")
     ELSE IF tr.kind # "trace" THEN "missing trace"
     ELSE IF Len(tr.cols) # n + 1 THEN "number of rounds"
     ELSE IF tr.cols[1].void \/ \E b \in DOMAIN tr.cols[1].cells : tr.cols[1].cells[b] \notin 0..1 THEN "start is not concrete"
     ELSE LET D0 == Restrict(Q(g), tr.cols[1].cells)
              sets == Chain(g, env, tr.cols, n, 1, {D0})
              grouped == \E k \in DOMAIN tr.cols : \E b \in DOMAIN tr.cols[k].cells : tr.cols[k].cells[b] = 3
              D == [k \in 0..(n-1) |-> IF k = 0 THEN D0 ELSE IF tr.cols[k+1].void THEN {} ELSE Restrict(Within(g, env, n-k), tr.cols[k+1].cells)]
          IN IF ~(D0 \subseteq S0) THEN "start"
             ELSE IF sets = {} THEN "the player cannot stay within the trace"
             ELSE IF ~\E T \in sets : LastOk(g, env, tr.cols[n+1], T) THEN "last input"
             ELSE IF ~grouped /\ ~Concrete(g, env, tr.cols, n, D) THEN "trace could be more concrete"
             ELSE "ok"

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE IF cs.observed # "done" THEN "no result"
  ELSE LET g == Denote(st)
           e == TraceOk(g, TRUE, cs.env)
           s == TraceOk(g, FALSE, cs.sys)
       IN IF e # "ok" THEN "countertrace: " \o e ELSE IF s # "ok" THEN "trace: " \o s ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
