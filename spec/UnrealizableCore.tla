---------------------------- MODULE UnrealizableCore ----------------------------
(***************************************************************************)
(* findMinimalUnrealizableCore: from an unrealizable specification, the tool  *)
(* leaves one with the same variables, assumptions and initial guarantees and  *)
(* with some of the safety and liveness guarantees (in their order) that is     *)
(* still unrealizable, and from which no guarantee can be taken away:           *)
(* without any single one of them the specification is realizable.              *)
(*                                                                           *)
(* Case: lines of the specification; done (the tool ended normally); core        *)
(* (lines of the file that it left).                                           *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

RECURSIVE SubSequence(_, _)
SubSequence(s, t) == IF s = << >> THEN TRUE ELSE IF t = << >> THEN FALSE
                     ELSE IF Head(s) = Head(t) THEN SubSequence(Tail(s), Tail(t)) ELSE SubSequence(s, Tail(t))
Without(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
Real(st) == LET g == Denote(st) IN RealizableStd(g, SysWin(g))

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE IF ~cs.done THEN "the tool failed"
  ELSE
  LET ct == Read(cs.core) IN
  IF ct.err # "" THEN "core not readable: " \o ct.err
  ELSE IF [k \in DOMAIN Inputs(ct.vars) |-> Inputs(ct.vars)[k].name] # [k \in DOMAIN Inputs(st.vars) |-> Inputs(st.vars)[k].name] THEN "inputs"
  ELSE IF [k \in DOMAIN Outputs(ct.vars) |-> Outputs(ct.vars)[k].name] # [k \in DOMAIN Outputs(st.vars) |-> Outputs(st.vars)[k].name] THEN "outputs"
  ELSE IF \E s \in {"ENV_INIT", "ENV_TRANS", "ENV_LIVENESS", "SYS_INIT"} : ct.fm[s] # st.fm[s] THEN "assumptions or initial guarantees changed"
  ELSE IF \E s \in {"SYS_TRANS", "SYS_LIVENESS"} : ~SubSequence(ct.fm[s], st.fm[s]) THEN "guarantees that the specification does not have"
  ELSE IF Real(st) THEN "ok"
  ELSE IF Real(ct) THEN "the core is realizable"
  ELSE IF \E s \in {"SYS_TRANS", "SYS_LIVENESS"} : \E k \in DOMAIN ct.fm[s] :
             ~Real([ct EXCEPT !.fm = [@ EXCEPT ![s] = Without(@, k)]]) THEN "the core is not minimal"
  ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
