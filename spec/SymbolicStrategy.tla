--------------------------- MODULE SymbolicStrategy ---------------------------
(***************************************************************************)
(* The symbolic strategy files.  A file denotes a Boolean function over the *)
(* variables listed in its header, given by a BDD node table:               *)
(*   bdd[k] = [v |-> header number, t |-> then, e |-> else (negative =      *)
(*   complemented)], node 1 is the constant TRUE, root may be negative.     *)
(* Two formats:                                                             *)
(*  "simple": function over (p, goal, p', goal')                            *)
(*  "ltlmop": function over (p, goal, p', strat_type); strat_type = 1 are   *)
(*            the steps on which the goal pointer advances.                 *)
(* Every resolution of the remaining choice must win the game.              *)
(***************************************************************************)
EXTENDS SlugsInput, CooperativeGame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

(* meaning of a variable name of the header: <<"t", bit of the transition>>,
   <<"g", bit of the goal index>>, <<"h", bit of the next goal index>>, type *)
BitOf(st, g, nm) ==
  LET n   == g.nI + g.nO
      ins == Inputs(st.vars)  outs == Outputs(st.vars)
      loc(x) == IF \E k \in 1..g.nI : ins[k].name = x THEN (CHOOSE k \in 1..g.nI : ins[k].name = x) - 1
                ELSE IF \E k \in 1..g.nO : outs[k].name = x THEN g.nI + (CHOOSE k \in 1..g.nO : outs[k].name = x) - 1
                ELSE -1
      prime(x) == Len(x) > 1 /\ SubSeq(x, Len(x), Len(x)) = "'"
  IN IF loc(nm) >= 0 THEN loc(nm)
     ELSE IF prime(nm) /\ loc(SubSeq(nm, 1, Len(nm)-1)) >= 0 THEN n + loc(SubSeq(nm, 1, Len(nm)-1))
     ELSE -1
StripIn(st, g, nm, simple) ==
  IF simple /\ Len(nm) > 3 /\ SubSeq(nm, 1, 3) = "in_"
     /\ BitOf(st, g, SubSeq(nm, 4, Len(nm))) >= 0 
     /\ (LET b == BitOf(st, g, SubSeq(nm, 4, Len(nm))) IN b % (g.nI+g.nO) < g.nI)
  THEN SubSeq(nm, 4, Len(nm)) ELSE nm
Role(st, g, nm, simple) ==
  LET base == StripIn(st, g, nm, simple)
      b == BitOf(st, g, base)
      cb(s) == CHOOSE k \in 0..9 : s = "_jx_b" \o ToString(k)
  IN IF b >= 0 THEN <<"t", b>>
     ELSE IF nm = "strat_type" THEN <<"y", 0>>
     ELSE IF \E k \in 0..9 : nm = "_jx_b" \o ToString(k) THEN <<"g", cb(nm)>>
     ELSE IF \E k \in 0..9 : nm = "_jx_b" \o ToString(k) \o "'" THEN <<"h", cb(SubSeq(nm, 1, Len(nm)-1))>>
     ELSE <<"?", 0>>

Bit(w, k) == (w \div Pow2[k]) % 2
RECURSIVE Ev(_, _, _, _, _, _, _, _)
(* value of the (sign, node) pair under transition t, goal a, next goal / type b *)
Ev(bdd, role, node, neg, t, a, h, y) ==
  IF node = 1 THEN ~neg
  ELSE LET nd == bdd[node]
           r  == role[nd.v + 1]
           val == CASE r[1] = "t" -> Bit(t, r[2])
                    [] r[1] = "g" -> Bit(a, r[2])
                    [] r[1] = "h" -> Bit(h, r[2])
                    [] OTHER -> y
       IN IF val = 1 THEN Ev(bdd, role, nd.t, neg, t, a, h, y)
          ELSE IF nd.e < 0 THEN Ev(bdd, role, -nd.e, ~neg, t, a, h, y)
               ELSE Ev(bdd, role, nd.e, neg, t, a, h, y)
Sat(cs, role, t, a, h, y) ==
  Ev(cs.bdd, role, IF cs.root < 0 THEN -cs.root ELSE cs.root, cs.root < 0, t, a, h, y)

(* moves from position p with goal a: set of <<q, next goal>> *)
MovesOf(cs, role, g, k, p, a) ==
  IF cs.simple
  THEN {<<q, b>> \in Q(g) \X (0..(cs.codes - 1)) : Sat(cs, role, Tr(g, p, q), a, b, 0)}
  ELSE {<<q, (a+1) % k>> : q \in {q \in Q(g) : Sat(cs, role, Tr(g, p, q), a, 0, 1)}}
       \cup {<<q, a>> : q \in {q \in Q(g) : Sat(cs, role, Tr(g, p, q), a, 0, 0) /\ ~Sat(cs, role, Tr(g, p, q), a, 0, 1)}}

RECURSIVE Explore(_, _, _, _, _, _)
(* all reachable <<p, a>> with their moves, as a function *)
Explore(cs, role, g, k, done, todo) ==
  IF todo = {} THEN done
  ELSE LET new == TLCEval([pa \in todo |-> TLCEval(MovesOf(cs, role, g, k, pa[1], pa[2]))])
           d2  == TLCEval(done @@ new)
           tgt == UNION {new[pa] : pa \in todo}
       IN Explore(cs, role, g, k, d2, TLCEval(tgt \ DOMAIN d2))

JudgeGame(st, g, W, cs) ==
       LET real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
           k == Len(g.G) + (IF cs.coop THEN Len(g.A) ELSE 0)
           role == TLCEval([j \in 1..Len(cs.names) |-> Role(st, g, cs.names[j], cs.simple)])
           start == (IF cs.recovery THEN g.IS \cap W ELSE g.IE \cap g.IS \cap W) \X {0}
       IN IF cs.observed # (IF real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
          ELSE IF ~real THEN (IF cs.written THEN "file for unrealizable spec" ELSE "ok")
          ELSE IF ~cs.written THEN "no file"
          ELSE IF \E j \in DOMAIN role : role[j][1] = "?" THEN "unknown variable in header"
          ELSE IF cs.goals # k THEN "number of goals in header"
          ELSE LET mv == Explore(cs, role, g, k, << >>, start)
                   ord == CHOOSE f \in {[z \in 1..(g.N * cs.codes) |-> <<(z-1) % g.N, (z-1) \div g.N>>]} : TRUE
                   ns == TLCEval([z \in 1..(g.N * cs.codes) |->
                          [pos |-> ord[z][1], rank |-> ord[z][2],
                           ss |-> IF ord[z] \in DOMAIN mv
                                  THEN {m[1] + g.N * m[2] + 1 : m \in mv[ord[z]]} ELSE {}]])
               IN IF \E pa \in DOMAIN mv : pa[2] >= k THEN "goal counter out of range"
                  ELSE IF ~StepsSafe(g, ns) THEN "step breaks S"
                  ELSE IF \E pa \in DOMAIN mv : ~(EnvInputs(g, pa[1]) \subseteq {InOf(g, m[1]) : m \in mv[pa]})
                       THEN "input not answered"
                  ELSE IF cs.simple /\ ~cs.coop /\ \E pa \in DOMAIN mv : \E m \in mv[pa] :
                            m[2] # (IF Tr(g, pa[1], m[1]) \in g.G[pa[2]+1] THEN (pa[2]+1) % k ELSE pa[2])
                       THEN "goal counter"
                  ELSE IF ~cs.simple /\ ~cs.coop /\ \E pa \in DOMAIN mv : \E m \in mv[pa] :
                            m[2] # (IF Tr(g, pa[1], m[1]) \in g.G[pa[2]+1] THEN (pa[2]+1) % k ELSE pa[2])
                       THEN "strat_type"
                  ELSE IF ~LivenessHolds(g, ns) THEN "liveness guarantee starved"
                  ELSE IF cs.recovery /\ \E pa \in DOMAIN mv : \E x \in X(g) :
                            /\ \E y \in Y(g) : LET q == Pos(g, x, y) IN q \in W /\ Tr(g, pa[1], q) \in g.S
                            /\ x \notin {InOf(g, m[1]) : m \in mv[pa]}
                       THEN "recovery move missing"
                  ELSE "ok"

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE LET g == Denote(st) IN JudgeGame(st, g, IF cs.coop THEN CoopWin(g) ELSE SysWin(g), cs)

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
