----------------------------- MODULE StructuredInput -----------------------------
(***************************************************************************)
(* The translation of the structured specification language to slugsin.       *)
(*                                                                           *)
(* Case: decls (sequence of [name, out, int, lo, hi]), forms (section ->      *)
(* sequence of token sequences), clines (lines of the translation), accepted, *)
(* thorough (ranges also stated for the current step), badhead (a section     *)
(* has an unknown name).                                                      *)
(***************************************************************************)
EXTENDS StructuredLang, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Std(lines) == [k \in DOMAIN lines |-> [lines[k] EXCEPT !.raw =
   CASE @ \in {"[OBSERVABLE_INPUT]", "[UNOBSERVABLE_INPUT]", "[CONTROLLABLE_INPUT]"} -> "[INPUT]" [] OTHER -> @]]

Judge(cs) ==
  LET ds == cs.decls
      badDecl == \E k \in DOMAIN ds : ds[k].bad
  IN IF badDecl \/ cs.badhead THEN (IF cs.accepted THEN "accepted a malformed declaration" ELSE "ok")
  ELSE
  LET e == Encode(ds)
      allForms == LET RECURSIVE A(_) A(S) == IF S = {} THEN << >> ELSE LET s == CHOOSE s \in S : TRUE IN cs.forms[s] \o A(S \ {s}) IN A(DOMAIN cs.forms)
  IN IF \E k \in DOMAIN allForms : ~WellFormedLine(e, allForms[k]) THEN (IF cs.accepted THEN "accepted a malformed formula" ELSE "ok")
  ELSE IF ~cs.accepted THEN (IF \E k \in DOMAIN ds : ds[k].lo < 0 THEN "ok" ELSE "rejected") (* negative numbers are not supported in comparisons *)
  ELSE
  LET st == Read(Std(cs.clines)) IN
  IF st.err # "" THEN "translation not readable: " \o st.err
  ELSE IF [k \in DOMAIN Inputs(st.vars) |-> Inputs(st.vars)[k].name] # BitsOf(ds, FALSE) THEN "variables"
  ELSE IF [k \in DOMAIN Outputs(st.vars) |-> Outputs(st.vars)[k].name] # BitsOf(ds, TRUE) THEN "variables"
  ELSE
  LET g == Denote(st)
      w == StructuredGame(ds, cs.forms)
      now == e.nowI \cap e.nowO
      all == now \cap e.nextI \cap e.nextO
  IN IF g.IE # w.IE THEN "ENV_INIT"
     ELSE IF g.IS \cap e.nowI # w.IS \cap e.nowI THEN "SYS_INIT"
     ELSE IF cs.thorough /\ (g.E # w.E \cap e.nowI \/ g.S \cap e.nextI # w.S \cap e.nowO \cap e.nextI) THEN "thorough range constraints"
     ELSE IF g.E \cap now # w.E \cap now THEN "ENV_TRANS"
     ELSE IF g.S \cap now \cap e.nextI # w.S \cap now \cap e.nextI THEN "SYS_TRANS"
     ELSE IF Len(g.A) # Len(w.A) \/ \E k \in DOMAIN g.A : g.A[k] \cap all # w.A[k] \cap all THEN "ENV_LIVENESS"
     ELSE IF Len(g.G) # Len(w.G) \/ \E k \in DOMAIN g.G : g.G[k] \cap all # w.G[k] \cap all THEN "SYS_LIVENESS"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
