---------------------------- MODULE StrategyFormats ----------------------------
(***************************************************************************)
(* One controller, several renderings: the text listing, the JSON object   *)
(* and the files written instead of standard output describe the same      *)
(* numbered states with the same ranks, valuations and successors.         *)
(* Renderings are sets of records [id, pos, rank, succ] given as sequences *)
(* in the order printed, plus the declared variables in JSON order.        *)
(***************************************************************************)
EXTENDS SlugsInput, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Ids(r) == {r[k].id : k \in 1..Len(r)}
ById(r) == [i \in Ids(r) |-> LET k == CHOOSE k \in 1..Len(r) : r[k].id = i
                             IN  [pos |-> r[k].pos, rank |-> r[k].rank, succ |-> r[k].succ]]
Unique(r) == Cardinality(Ids(r)) = Len(r)
Closed(r) == \A k \in 1..Len(r) : \A j \in 1..Len(r[k].succ) : r[k].succ[j] \in Ids(r)
(* states are numbered 0, 1, 2, ... in the order of printing *)
Numbered(r) == \A k \in 1..Len(r) : r[k].id = k - 1

DeclNames(st) == [k \in 1..Len(st.vars) |-> st.vars[k].name]

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE IF \E k \in 1..Len(cs.errors) : cs.errors[k] # "" THEN "malformed: " \o ToString(cs.errors)
  ELSE IF \E k \in 1..Len(cs.verdicts) : cs.verdicts[k] # cs.verdicts[1] THEN "verdicts differ"
  ELSE IF cs.verdicts[1] # "realizable" THEN
       (IF \A k \in 1..Len(cs.renderings) : cs.renderings[k] = << >> THEN "ok" ELSE "output for an unrealizable spec")
  ELSE IF \E k \in 1..Len(cs.renderings) : ~Unique(cs.renderings[k]) THEN "state printed twice"
  ELSE IF \E k \in 1..Len(cs.renderings) : ~Closed(cs.renderings[k]) THEN "unknown successor"
  ELSE IF ~Numbered(cs.renderings[1]) THEN "numbering"
  ELSE IF \E k \in 1..Len(cs.renderings) : ById(cs.renderings[k]) # ById(cs.renderings[1]) THEN "renderings differ"
  ELSE IF \E k \in 1..Len(cs.jsonvars) : cs.jsonvars[k] # DeclNames(st) THEN "variables"
  ELSE IF cs.leaks THEN "output on stdout although a file was named"
  ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
