-------------------------- MODULE WeakenedAssumptions --------------------------
(***************************************************************************)
(* Weakening the safety assumptions (--computeWeakenedSafetyAssumptions):  *)
(* the list of clauses                                                      *)
(*  - is implied by the safety assumptions of the specification,            *)
(*  - keeps the specification realizable if it replaces them,               *)
(*  - is minimal: no clause can be left out without losing realizability,   *)
(*    and no literal without changing what the list says.                   *)
(* For an unrealizable specification nothing can be weakened: the list is   *)
(* equivalent to the safety assumptions.                                    *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

LitTable(st, g) == \* name -> transitions
  LET nI == g.nI
      n == g.nI + g.nO
      bit(v, pr) == (IF st.vars[v].out THEN nI + Cardinality({u \in 1..(v-1) : st.vars[u].out}) ELSE Cardinality({u \in 1..(v-1) : ~st.vars[u].out})) + (IF pr THEN n ELSE 0)
      nl == NameList(st.vars)
  IN TLCEval([nm \in Names(st.vars) |-> LET k == CHOOSE k \in DOMAIN nl : nl[k].name = nm IN
                {t \in g.full : (t \div Pow2[bit((k+1) \div 2, k % 2 = 0)]) % 2 = 1}])
Literal(lt, g, l) == IF l.neg THEN g.full \ lt[l.v] ELSE lt[l.v]
ClauseSet(lt, g, cl, skip) == UNION {Literal(lt, g, cl[k]) : k \in DOMAIN cl \ {skip}}
Meet(g, sets, skip) == {t \in g.full : \A k \in DOMAIN sets \ {skip} : t \in sets[k]}

RealizableWith(g, E2) == LET g2 == [g EXCEPT !.E = E2] IN RealizableStd(g2, SysWin(g2))

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE IF cs.observed # "done" THEN "no result"
  ELSE IF \E k \in DOMAIN cs.clauses : \E l \in DOMAIN cs.clauses[k] : cs.clauses[k][l].v \notin Names(st.vars) THEN "unknown variable"
  ELSE LET g    == Denote(st)
           lt   == LitTable(st, g)
           sets == TLCEval([k \in DOMAIN cs.clauses |-> ClauseSet(lt, g, cs.clauses[k], 0)])
           all  == TLCEval(Meet(g, sets, 0))
           real == RealizableWith(g, g.E)
       IN IF ~(g.E \subseteq all) THEN "not implied by the assumptions"
          ELSE IF ~real THEN (IF all = g.E THEN "ok" ELSE "weakened an unrealizable specification")
          ELSE IF ~RealizableWith(g, all) THEN "no longer realizable"
          ELSE IF \E k \in DOMAIN sets : RealizableWith(g, Meet(g, sets, k)) THEN "superfluous clause"
          ELSE IF \E k \in DOMAIN sets : \E l \in DOMAIN cs.clauses[k] :
                    Meet(g, sets, k) \cap ClauseSet(lt, g, cs.clauses[k], l) = all THEN "superfluous literal"
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
