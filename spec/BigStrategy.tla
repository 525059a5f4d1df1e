----------------------------- MODULE BigStrategy -----------------------------
(***************************************************************************)
(* A case: a specification of any size, what slugs said about it in both   *)
(* modes, and the controller or the counterstrategy that it printed.  One  *)
(* of them has to be a correct certificate of the verdict.                 *)
(***************************************************************************)
EXTENDS BigGame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Distinct(raw) == \A n, m \in 1..Len(raw) : n < m => <<raw[n].val, raw[n].rank>> # <<raw[m].val, raw[m].rank>>

(* --- controllers --- *)
JudgeController(b, robotics, cs) ==
  LET raw == cs.nodes
      N == 1..Len(raw)
      eIn == TLCEval([n \in N |-> LegalIn(b, raw[n].val)])
      inp == TLCEval([n \in N |-> InCode(b, raw[n].val)])
      ga == Flags(b, b.G, raw)
      aa == Flags(b, b.A, raw)
      ok(j) == TLCEval([n \in N |-> {k \in EdgeIx(raw, n) : inp[raw[n].succ[k]] \in eIn[n] /\ j \notin ga[n][k]}])
      starts == {n \in N : raw[n].rank = 0}
      g == Len(b.G)
  IN IF \E n \in N : raw[n].rank \notin 0..(g-1) THEN "rank out of range"
     ELSE IF \E n \in N : \E k \in EdgeIx(raw, n) : ~AllHold(b.S, Trn(raw[n].val, raw[raw[n].succ[k]].val)) THEN "step breaks S"
     ELSE IF \E n \in N : ~(eIn[n] \subseteq {inp[raw[n].succ[k]] : k \in EdgeIx(raw, n)}) THEN "input not answered"
     ELSE IF \E n \in N : Cardinality({inp[raw[n].succ[k]] : k \in EdgeIx(raw, n)}) # Len(raw[n].succ) THEN "two answers to one input"
     ELSE IF ~robotics /\ ~(StartIn(b) \subseteq {inp[n] : n \in {n \in starts : IsStart(b, raw[n].val)}}) THEN "initial input not covered"
     ELSE IF robotics /\ \E z \in Vals(b.n) : AllHold(b.IE \o b.IS, Bits(z, b.n) \o ZeroSeq(b.n))
                                        /\ \A n \in starts : raw[n].val # Bits(z, b.n) THEN "initial position not covered"
     ELSE IF \E j \in 1..g : BNu(raw, ok(j), aa, 1..Len(b.A), N) # {} THEN "liveness guarantee starved"
     ELSE IF \E n \in N : \E k \in EdgeIx(raw, n) :
               LET r == raw[n].rank  s == raw[raw[n].succ[k]].rank IN
               IF r = s THEN r+1 \in ga[n][k] /\ ga[n][k] # 1..g
               ELSE s+1 \in ga[n][k] \/ \E d \in 0..(((s + g - r) % g) - 1) : (((r + d) % g) + 1) \notin ga[n][k]
          THEN "goal pointer"
     ELSE IF ~Distinct(raw) THEN "state printed twice"
     ELSE "ok"

(* --- counterstrategies; dead nodes have an input only --- *)
Answers(b, p, x) == {y \in Vals(b.nO) : AllHold(b.S, Trn(p, Bits(x, b.nI) \o Bits(y, b.nO)))}
JudgeCounter(b, robotics, cs) ==
  LET raw == cs.nodes
      N == 1..Len(raw)
      L == {n \in N : ~raw[n].dead}
      inp == TLCEval([n \in N |-> IF raw[n].dead THEN raw[n].din ELSE InCode(b, raw[n].val)])
      ins(n) == {inp[raw[n].succ[k]] : k \in EdgeIx(raw, n)}
      played(n) == CHOOSE x \in ins(n) : TRUE
      succ(n) == {raw[n].succ[k] : k \in EdgeIx(raw, n)}
      live == [n \in N |-> IF raw[n].dead THEN {} ELSE {k \in EdgeIx(raw, n) : ~raw[raw[n].succ[k]].dead}]
      fl(fs) == TLCEval([n \in N |-> [k \in EdgeIx(raw, n) |-> IF k \in live[n] THEN {i \in 1..Len(fs) : Holds(fs[i], Trn(raw[n].val, raw[raw[n].succ[k]].val))} ELSE {}]])
      aa == fl(b.A)
      ga == fl(b.G)
      starts == {x \in StartIn(b) : \A y \in Vals(b.nO) : LET p == Bits(x, b.nI) \o Bits(y, b.nO) IN
                    IsStart(b, p) => \E n \in L : raw[n].val = p}
  IN IF \E n \in L : Cardinality(ins(n)) # 1 THEN "not exactly one input"
     ELSE IF \E n \in L : played(n) \notin LegalIn(b, raw[n].val) THEN "illegal input"
     ELSE IF \E n \in L : LET a == TLCEval({Bits(y, b.nO) : y \in Answers(b, raw[n].val, played(n))}) IN
               IF \E m \in succ(n) : raw[m].dead THEN Cardinality(succ(n)) # 1 \/ a # {}
               ELSE {SubSeq(raw[m].val, b.nI + 1, b.n) : m \in succ(n)} # a
          THEN "answers not covered"
     ELSE IF ~robotics /\ starts = {} THEN "no initial input covered"
     ELSE IF robotics /\ ~\E n \in L : AllHold(b.IE \o b.IS, raw[n].val \o ZeroSeq(b.n)) THEN "no initial position"
     ELSE IF \E i \in 1..Len(b.A) : 
             BNu(raw, [n \in N |-> {k \in live[n] : i \notin aa[n][k]}],
                 [n \in N |-> [k \in EdgeIx(raw, n) |-> {0}]], {0}, L) # {} THEN "assumption starved"
     ELSE IF BNu(raw, live, ga, 1..Len(b.G), L) # {} THEN "all guarantees satisfied"
     ELSE "ok"

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE LET b == BigOf(st) IN
       IF cs.observed = "realizable" THEN (IF cs.counter = "realizable" THEN JudgeController(b, cs.robotics, cs) ELSE "verdicts differ")
       ELSE IF cs.observed = "unrealizable" THEN (IF cs.counter = "unrealizable" THEN JudgeCounter(b, cs.robotics, cs) ELSE "verdicts differ")
       ELSE "no verdict"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
