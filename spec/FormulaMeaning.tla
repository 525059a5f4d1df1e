---------------------------- MODULE FormulaMeaning ----------------------------
(***************************************************************************)
(* The meaning of single formulas, decided transition by transition.  A    *)
(* case holds a specification text with exactly one formula in one section *)
(* and the observations obtained by probing the real tool: for probe       *)
(* (p,q), `holds' says whether the tool takes the formula to be true of    *)
(* the transition from p to q.  (The probes are forced two-state games     *)
(* around the unchanged formula; see checks/c03.py.)                       *)
(***************************************************************************)
EXTENDS SlugsInput, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

SetOf(g, sec) ==
  CASE sec = "ENV_INIT" -> {t \in g.full : (t % g.N) \in g.IE}
    [] sec = "SYS_INIT" -> {t \in g.full : (t % g.N) \in g.IS}
    [] sec = "ENV_TRANS" -> g.E
    [] sec = "SYS_TRANS" -> g.S
    [] sec = "ENV_LIVENESS" -> g.A[1]
    [] sec = "SYS_LIVENESS" -> g.G[1]

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN
     (IF \A k \in 1..Len(cs.probes) : cs.probes[k].holds = "rejected" THEN "ok" ELSE "accepted a malformed formula")
  ELSE LET g == Denote(st)
           F == SetOf(g, cs.section)
           bad == {k \in 1..Len(cs.probes) :
                     cs.probes[k].holds # (IF cs.probes[k].p + g.N * cs.probes[k].q \in F THEN "yes" ELSE "no")}
       IN IF bad = {} THEN "ok" ELSE "probe " \o ToString(CHOOSE k \in bad : TRUE)

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
