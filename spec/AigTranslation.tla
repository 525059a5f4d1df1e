----------------------------- MODULE AigTranslation -----------------------------
(***************************************************************************)
(* Safety specifications as circuits (translateSafetySlugsSpecToSyntComp-     *)
(* AIGFormat): an and-inverter graph whose inputs are the variables (outputs  *)
(* of the specification are "controllable") and whose output err rises in the  *)
(* step in which a guarantee is violated while no assumption has been          *)
(* violated, in that step or before.                                          *)
(*                                                                           *)
(* The circuit and a monitor of the specification run side by side on ALL       *)
(* input sequences: pairs (values of the latches, state of the monitor) are    *)
(* explored from the initial pair until nothing new appears.                   *)
(*                                                                           *)
(* Case: lines; refused; maxvar, counts (I, L, O, A of the header), ins,       *)
(* latches ([lit, nxt]), outs, ands ([lhs, a, b]), names (of the inputs),       *)
(* lnames (of the latches).                                                   *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Var(l) == l \div 2
Neg(l) == l % 2 = 1
Rng(s) == {s[k] : k \in DOMAIN s}

(* The variables of the circuit that are defined, and by what. *)
Defined(cs) == {0} \cup {Var(l) : l \in Rng(cs.ins)} \cup {Var(cs.latches[k].lit) : k \in DOMAIN cs.latches}
Used(cs) == UNION {{Var(cs.ands[k].a), Var(cs.ands[k].b)} : k \in DOMAIN cs.ands} \cup {Var(cs.latches[k].nxt) : k \in DOMAIN cs.latches} \cup {Var(l) : l \in Rng(cs.outs)}
WellFormedAig(cs) ==
  LET lhs == [k \in DOMAIN cs.ands |-> Var(cs.ands[k].lhs)]
      all == cs.ins \o [k \in DOMAIN cs.latches |-> cs.latches[k].lit] \o [k \in DOMAIN cs.ands |-> cs.ands[k].lhs]
  IN /\ \A k \in DOMAIN all : ~Neg(all[k]) /\ all[k] # 0 /\ Var(all[k]) <= cs.maxvar
     /\ Cardinality(Rng(all)) = Len(all)
     /\ Used(cs) \subseteq Defined(cs) \cup Rng(lhs)
     /\ cs.counts = << Len(cs.ins), Len(cs.latches), Len(cs.outs), Len(cs.ands) >>

(* the gates in an order in which each one comes after its operands; shorter
   than the list of gates if there is a combinational cycle *)
RECURSIVE Order(_, _, _)
Order(cs, known, left) ==
  LET now == {k \in left : Var(cs.ands[k].a) \in known /\ Var(cs.ands[k].b) \in known}
  IN IF now = {} THEN << >>
     ELSE LET RECURSIVE L(_) L(S) == IF S = {} THEN << >> ELSE LET k == CHOOSE k \in S : TRUE IN << k >> \o L(S \ {k})
          IN L(now) \o Order(cs, TLCEval(known \cup {Var(cs.ands[k].lhs) : k \in now}), TLCEval(left \ now))

(* values of all nodes, as sets of input valuations (the valuation is the
   position of the game that the step leads to), for given latches *)
Lit(val, full, l) == IF Neg(l) THEN full \ val[Var(l)] ELSE val[Var(l)]
RECURSIVE Gates(_, _, _, _, _)
Gates(cs, ord, val, full, i) ==
  IF i > Len(ord) THEN val
  ELSE LET k == cs.ands[ord[i]]
       IN Gates(cs, ord, TLCEval((Var(k.lhs) :> (Lit(val, full, k.a) \cap Lit(val, full, k.b))) @@ val), full, i + 1)

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE IF st.fm["ENV_LIVENESS"] # << >> \/ st.fm["SYS_LIVENESS"] # << >>
       THEN (IF cs.refused THEN "ok" ELSE "translated a specification with liveness parts")
  ELSE IF cs.refused THEN "refused"
  ELSE IF ~WellFormedAig(cs) THEN "not a circuit"
  ELSE
  LET g == Denote(st)
      want == [k \in DOMAIN Inputs(st.vars) |-> Inputs(st.vars)[k].name] \o [k \in DOMAIN Outputs(st.vars) |-> "controllable_" \o Outputs(st.vars)[k].name]
      AllVars == [k \in DOMAIN Inputs(st.vars) |-> Inputs(st.vars)[k].name] \o [k \in DOMAIN Outputs(st.vars) |-> Outputs(st.vars)[k].name]
      nL == Len(cs.latches)
      ord == TLCEval(Order(cs, Defined(cs), DOMAIN cs.ands))
  IN IF cs.names # want THEN "inputs"
     ELSE IF \E k \in DOMAIN cs.latches : \E i \in DOMAIN AllVars : cs.lnames[k] = "prev_" \o AllVars[i] /\ cs.latches[k].nxt # cs.ins[i]
          THEN "a latch named after a variable does not hold its last value"
     ELSE IF Len(ord) # Len(cs.ands) THEN "cycle of gates"
     ELSE IF Len(cs.outs) # 1 THEN "outputs"
     ELSE
     LET full == Q(g)
         inputs == TLCEval([k \in {Var(l) : l \in Rng(cs.ins)} |-> LET i == CHOOSE i \in DOMAIN cs.ins : Var(cs.ins[i]) = k IN {q \in full : (q \div Pow2[i-1]) % 2 = 1}])
         Values(L) == Gates(cs, ord, TLCEval((0 :> {}) @@ inputs @@ [k \in {Var(cs.latches[i].lit) : i \in 1..nL} |->
                                    LET i == CHOOSE i \in 1..nL : Var(cs.latches[i].lit) = k IN IF L[i] = 1 THEN full ELSE {}]), full, 1)
         (* monitor: "start", "dead" (an assumption or a guarantee was violated: nothing more is
            asked for after a guarantee was, and err must stay low after an assumption was), or the last position *)
         Bad(m, q) == IF m = -1 THEN q \in g.IE /\ q \notin g.IS ELSE IF m = -2 THEN FALSE ELSE Tr(g, m, q) \in g.E /\ Tr(g, m, q) \notin g.S
         Lost(m, q) == IF m = -1 THEN q \notin g.IE ELSE IF m = -2 THEN TRUE ELSE Tr(g, m, q) \notin g.E
         RECURSIVE Explore(_, _)
         Explore(seen, new) ==
           IF new = {} THEN "ok"
           ELSE LET p == CHOOSE p \in new : TRUE
                    val == TLCEval(Values(p[1]))
                    err == Lit(val, full, cs.outs[1])
                    nxt == TLCEval([i \in 1..nL |-> Lit(val, full, cs.latches[i].nxt)])
                    succ == TLCEval({<< [i \in 1..nL |-> IF q \in nxt[i] THEN 1 ELSE 0], IF Lost(p[2], q) THEN -2 ELSE q >> : q \in {q \in full : ~Bad(p[2], q)}})
                IN IF err # {q \in full : Bad(p[2], q)} THEN (IF p[2] = -1 THEN "err in the first step" ELSE IF p[2] = -2 THEN "err after a violated assumption" ELSE "err in a later step")
                   ELSE Explore(TLCEval(seen \cup succ), TLCEval((new \ {p}) \cup (succ \ seen)))
         start == << [i \in 1..nL |-> 0], -1 >>
     IN Explore({start}, {start})

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
