-------------------------------- MODULE CnfForm --------------------------------
(***************************************************************************)
(* The clausal form of a specification (--computeCNFFormOfTheSpecification)*)
(*                                                                         *)
(* Every declared variable gets two numbers, one for its value now and one *)
(* for its value in the next step.  The lines then list                    *)
(*   SafetyGuarantee / SafetyAssumption / Init : clauses, whose conjunction *)
(*     is the respective constraint,                                       *)
(*   LivenessGuarantee / LivenessAssumption : one line per property, a      *)
(*     sequence of cubes; the property demands that infinitely often one of *)
(*     them holds.                                                         *)
(* A liveness cube over next-step values only may be given over current    *)
(* values (it holds infinitely often exactly if it does one step later).   *)
(* So liveness lines are compared by the infinite runs that satisfy them.  *)
(***************************************************************************)
EXTENDS SlugsInput, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

AllNames(st) == NameList(st.vars)

(* variable lines: in order of declaration, numbered 1, 2, 3, ... *)
VarsOk(st, table) ==
  /\ Len(table) = Len(st.vars)
  /\ \A k \in 1..Len(table) : table[k] = [kind |-> IF st.vars[k].out THEN "Output" ELSE "Input", name |-> st.vars[k].name,
                                          pre |-> 2*k - 1, post |-> 2*k]

(* the transitions in which the k-th variable is true *)
BitOf(st, k) ==
  LET nI == Len(Inputs(st.vars))
      n  == Len(st.vars)
      v  == (k + 1) \div 2
      earlier(o) == Cardinality({u \in 1..(v-1) : st.vars[u].out = o})
      base == IF st.vars[v].out THEN nI + earlier(TRUE) ELSE earlier(FALSE)
  IN  IF k % 2 = 1 THEN base ELSE n + base
LitSets(st, full) == TLCEval([k \in 1..(2*Len(st.vars)) |-> {t \in full : (t \div Pow2[BitOf(st, k)]) % 2 = 1}])
LitSet(ls, full, l) == IF l > 0 THEN ls[l] ELSE full \ ls[-l]
NumbersOk(st, lits) == \A k \in 1..Len(lits) : lits[k] # 0 /\ (IF lits[k] > 0 THEN lits[k] ELSE -lits[k]) <= 2 * Len(st.vars)

RECURSIVE Clause(_, _, _), Cube(_, _, _), Clauses(_, _, _), Cubes(_, _, _)
Clause(ls, full, lits) == IF lits = << >> THEN {} ELSE LitSet(ls, full, Head(lits)) \cup Clause(ls, full, Tail(lits))
Cube(ls, full, lits) == IF lits = << >> THEN full ELSE LitSet(ls, full, Head(lits)) \cap Cube(ls, full, Tail(lits))
Clauses(ls, full, cs) == IF cs = << >> THEN full ELSE Clause(ls, full, Head(cs)) \cap Clauses(ls, full, Tail(cs))
Cubes(ls, full, cs) == IF cs = << >> THEN {} ELSE Cube(ls, full, Head(cs)) \cup Cubes(ls, full, Tail(cs))

(* Every run taking transitions of A infinitely often also takes those of B
   infinitely often: no cycle outside B passes through A. *)
Succ(N, T, P) == {q \in 0..(N-1) : \E p \in P : (p + N*q) \in T}
RECURSIVE Reach(_, _, _)
Reach(N, T, P) == LET P2 == TLCEval(P \cup Succ(N, T, P)) IN IF P2 = P THEN P ELSE Reach(N, T, P2)
InfImplies(N, full, A, B) ==
  LET T == full \ B IN
  \A t \in A \cap T : (t % N) \notin Reach(N, T, {t \div N})
InfEquiv(N, full, A, B) == InfImplies(N, full, A, B) /\ InfImplies(N, full, B, A)

LiveOk(g, ls, want, lines) ==
  /\ Len(lines) = Len(want)
  /\ \A k \in 1..Len(want) : InfEquiv(g.N, g.full, want[k], Cubes(ls, g.full, lines[k]))

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE IF cs.observed # "done" THEN "no result"
  ELSE LET g  == Denote(st)
           ls == LitSets(st, g.full)
           r  == cs.form
           ini == {t \in g.full : (t % g.N) \in g.IE \cap g.IS}
       IN IF ~VarsOk(st, r.vars) THEN "variable table"
          ELSE IF \E s \in {"SafetyGuarantee", "SafetyAssumption", "Init"} : \E k \in 1..Len(r[s]) : ~NumbersOk(st, r[s][k]) THEN "number of a variable"
          ELSE IF \E s \in {"LivenessGuarantee", "LivenessAssumption"} : \E k \in 1..Len(r[s]) : \E l \in 1..Len(r[s][k]) : ~NumbersOk(st, r[s][k][l]) THEN "number of a variable"
          ELSE IF Clauses(ls, g.full, r.SafetyGuarantee) # g.S THEN "safety guarantees"
          ELSE IF Clauses(ls, g.full, r.SafetyAssumption) # g.E THEN "safety assumptions"
          ELSE IF Clauses(ls, g.full, r.Init) # ini THEN "initial positions"
          ELSE IF ~LiveOk(g, ls, g.G, r.LivenessGuarantee) THEN "liveness guarantees"
          ELSE IF ~LiveOk(g, ls, g.A, r.LivenessAssumption) THEN "liveness assumptions"
          ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
