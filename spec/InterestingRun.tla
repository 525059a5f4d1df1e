----------------------------- MODULE InterestingRun -----------------------------
(***************************************************************************)
(* The run shown by --computeInterestingRunOfTheSystem, as a behaviour of  *)
(* a small machine: a position, the assumption the environment works       *)
(* towards and the guarantee the system works towards.                     *)
(*                                                                         *)
(* row = [end |-> "" or who loses, pos, eg, eplus, sg, splus, viol]         *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

LegalIn(g, p) == {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}
Answers(g, p, x) == {q \in Q(g) : InOf(g, q) = x /\ Tr(g, p, q) \in g.S}

(* positions from which the environment can go on forever *)
RECURSIVE Alive(_, _)
Alive(g, W) == LET W2 == TLCEval({p \in W : \E x \in LegalIn(g, p) : Answers(g, p, x) \subseteq W}) IN IF W2 = W THEN W ELSE Alive(g, W2)
(* ... and from which it can enforce the assumption a meanwhile *)
RECURSIVE EnvReach(_, _, _, _)
EnvReach(g, a, al, W) ==
  LET W2 == TLCEval(W \cup {p \in Q(g) : \E x \in LegalIn(g, p) :
                \A q \in Answers(g, p, x) : q \in al /\ (Tr(g, p, q) \in a \/ q \in W)}) IN
  IF W2 = W THEN W ELSE EnvReach(g, a, al, W2)

StartOk(g, W, r) == r.end = "" /\ r.pos \in g.IE \cap g.IS \cap W /\ r.eg = 0 /\ r.sg = 0
Adv(k, plus, n) == IF plus THEN (k + 1) % n ELSE k
StepOk(g, W, r, r2) ==
  /\ r.end = "" /\ ~r.viol
  /\ IF r2.end = ""
     THEN LET t == Tr(g, r.pos, r2.pos) IN
          /\ t \in g.E /\ t \in g.S /\ r2.pos \in W
          /\ r.eplus = (t \in g.A[r.eg + 1]) /\ r.splus = (t \in g.G[r.sg + 1])
          /\ r2.eg = Adv(r.eg, r.eplus, Len(g.A)) /\ r2.sg = Adv(r.sg, r.splus, Len(g.G))
     ELSE /\ r2.end = "Env" /\ LegalIn(g, r.pos) = {}
          /\ ~r.eplus /\ ~r.splus /\ r2.eg = r.eg /\ r2.sg = r.sg
LastOk(r, n) == ~r.eplus /\ ~r.splus /\ ~r.viol /\ (r.end = "" => n = 101)

(* the environment meets its assumption when it can, within N steps *)
EnvMeets(g, rows) ==
  LET al == Alive(g, Q(g))
      er == TLCEval([i \in 1..Len(g.A) |-> EnvReach(g, g.A[i], al, {})])
  IN \A k \in 1..(Len(rows) - g.N - 1) :
       rows[k].end = "" /\ rows[k].pos \in er[rows[k].eg + 1] => \E l \in k..(k + g.N) : rows[l].eplus
(* the system meets its guarantee unless the assumptions are met rarely *)
Cycles(g, rows, k, l) == Cardinality({m \in k..l : rows[m].eplus /\ rows[m].eg = Len(g.A) - 1})
SysMeets(g, rows) ==
  \A k \in 1..Len(rows) : \A l \in {k + d : d \in {5, 10, 20, 40, 60, 80, 99}} :
     l <= Len(rows) - 1 /\ Cycles(g, rows, k, l) > g.N * Len(g.A) + 1 => \E m \in k..l : rows[m].splus

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE LET g == Denote(st)
           W == SysWin(g)
           rows == cs.rows
       IN IF g.IE \cap g.IS \cap W = {} THEN (IF cs.observed = "none" THEN "ok" ELSE "no winning start")
          ELSE IF cs.observed # "run" THEN "there is a winning start"
          ELSE IF ~StartOk(g, W, rows[1]) THEN "start"
          ELSE IF \E k \in 1..(Len(rows)-1) : ~StepOk(g, W, rows[k], rows[k+1])
               THEN "step " \o ToString(CHOOSE k \in 1..(Len(rows)-1) : ~StepOk(g, W, rows[k], rows[k+1]))
          ELSE IF ~LastOk(rows[Len(rows)], Len(rows)) THEN "last row"
          ELSE IF ~EnvMeets(g, rows) THEN "the environment does not meet an assumption"
          ELSE IF ~SysMeets(g, rows) THEN "the system does not meet a guarantee"
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
