----------------------------- MODULE ParameterSearch -----------------------------
(***************************************************************************)
(* The search tools over parameterized specifications.  Realizability is a      *)
(* function of integer parameters, monotone or antitone in each of them; a       *)
(* script answers for one choice of parameters.                                *)
(*                                                                           *)
(*  binaryRealizabilitySearch: one parameter.  Reports the least (antitone: the  *)
(*    greatest) value that is realizable, or that there is none; the last call of *)
(*    the script is with the reported value; no more than log2 of the range plus   *)
(*    one calls.                                                              *)
(*  multiDimensionalRealizabilitySearch: several parameters.  Reports the           *)
(*    Pareto front: the realizable choices that are not made realizable by any       *)
(*    other realizable choice (exactly those).                                   *)
(*  If the script fails, or gives no answer or two, both end with an error and        *)
(*  report nothing.                                                           *)
(*                                                                           *)
(* Case: dims (sequence of [lo, hi, up]), real (set of realizable choices, as a       *)
(* sequence of tuples), broken (tuples at which the script fails), calls (the            *)
(* tuples it was called with), rc, kind ("bin"/"multi"), answers (reported tuples),        *)
(* reported (something was reported), none (reported that nothing is realizable),           *)
(* tests (sequence of [v, r] printed by the binary search).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Rng(s) == {s[k] : k \in DOMAIN s}
(* choice t makes realizability of u certain *)
Below(dims, t, u) == \A i \in DOMAIN dims : IF dims[i].up THEN t[i] <= u[i] ELSE t[i] >= u[i]
Front(dims, R) == {t \in R : \A u \in R : Below(dims, u, t) => u = t}
RECURSIVE Log(_)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log((n + 1) \div 2)
InRange(dims, t) == Len(t) = Len(dims) /\ \A i \in DOMAIN dims : t[i] \in dims[i].lo..dims[i].hi

Judge(cs) ==
  LET R == Rng(cs.real)
      want == Front(cs.dims, R)
      n == cs.dims[1].hi - cs.dims[1].lo + 1
  IN IF cs.observed = "timeout" THEN "does not end"
     ELSE IF \E k \in DOMAIN cs.calls : ~InRange(cs.dims, cs.calls[k]) THEN "call out of range"
     ELSE IF Rng(cs.calls) \cap Rng(cs.broken) # {}
     THEN (IF cs.rc = 0 \/ cs.reported THEN "a failing script was taken for an answer" ELSE "ok")
     ELSE IF cs.rc # 0 THEN "failed"
     ELSE IF ~cs.reported THEN "no report"
     ELSE IF cs.kind = "bin" /\ cs.none # (R = {}) THEN "realizable at all"
     ELSE IF Rng(cs.answers) # want \/ Len(cs.answers) # Cardinality(want) THEN "answer"
     ELSE IF cs.kind = "bin" /\ want # {} /\ cs.calls[Len(cs.calls)] # cs.answers[1] THEN "last call"
     ELSE IF cs.kind = "bin" /\ Len(cs.calls) > Log(n) + 1 THEN "too many calls"
     ELSE IF \E k \in DOMAIN cs.tests : cs.tests[k].r # (<<cs.tests[k].v>> \in R) THEN "list of tests"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
