---------------------------- MODULE ImportTranslation ----------------------------
(***************************************************************************)
(* Specifications of other tools, translated to slugsin:                      *)
(*   translateFromRatsyFormatToSlugsFormat     (RATSY),                         *)
(*   translateFromLTLMopLTLFormatToSlugsFormat (LTLMoP).                        *)
(*                                                                           *)
(* Assumptions and guarantees are formulas of linear temporal logic, conjoined. *)
(* The GR(1) fragment has conjuncts of the forms                                *)
(*      p  (initially)      G p (in every step)      G F p (again and again)     *)
(* with p over current and (operator X) next values.  A specification in the     *)
(* fragment must be translated to one that means the same over the same            *)
(* variables; any other must be refused, by the translator or by slugs.             *)
(*                                                                           *)
(* Case: kind ("ratsy", with atoms x = 0 and x = 1, or "ltlmop", with atoms e.x     *)
(*   for inputs and s.x for outputs); ins, outs (names); env, sys (sequences of       *)
(*   formulas, each a sequence of tokens); rc; lines (what the translator printed).     *)
(***************************************************************************)
EXTENDS StructuredLang, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Norm(w) == CASE w = "+" -> "|" [] w = "*" -> "&" [] OTHER -> w
BinOps == AndOps \cup OrOps \cup ImpOps \cup IffOps \cup {"^", "U", "W"}
Globally == {"G", "[]"}
Finally == {"F", "<>"}
Opening == {"(", "["}
Closing == {")", "]"}
(* depth of brackets: that of the surroundings for an opening and for a closing bracket *)
Depths(tok) == LET d[i \in 1..Len(tok)] == IF i = 1 THEN 0 ELSE d[i-1] + (IF tok[i-1] \in Opening THEN 1 ELSE 0) - (IF tok[i] \in Closing THEN 1 ELSE 0) IN d
TopOps(tok) == LET d == TLCEval(Depths(tok)) IN {i \in DOMAIN tok : d[i] = 0 /\ tok[i] \in BinOps}
RECURSIVE Strip(_)
Strip(tok) ==
  IF Len(tok) >= 3 /\ tok[1] \in Opening /\ tok[Len(tok)] \in Closing
     /\ LET d == TLCEval(Depths(tok)) IN \A i \in 2..(Len(tok)-1) : d[i] >= 1
  THEN Strip(SubSeq(tok, 2, Len(tok)-1)) ELSE tok
(* the conjuncts of a formula *)
RECURSIVE Conjuncts(_), SplitAt(_, _, _)
SplitAt(tok, cuts, from) ==
  IF cuts = {} THEN Conjuncts(SubSeq(tok, from, Len(tok)))
  ELSE LET m == CHOOSE i \in cuts : \A j \in cuts : i <= j
       IN Conjuncts(SubSeq(tok, from, m-1)) \o SplitAt(tok, cuts \ {m}, m+1)
Conjuncts(tok0) ==
  LET tok == Strip(tok0)
      ops == TopOps(tok)
  IN IF ops # {} /\ \A i \in ops : tok[i] \in AndOps THEN SplitAt(tok, ops, 1) ELSE << tok >>
RECURSIVE AllConjuncts(_)
AllConjuncts(fs) == IF fs = << >> THEN << >> ELSE Conjuncts([k \in DOMAIN Head(fs) |-> Norm(Head(fs)[k])]) \o AllConjuncts(Tail(fs))

(* class and body of a conjunct *)
Sorted(t) ==
  IF t = << >> \/ TopOps(t) # {} \/ t[1] \notin Globally THEN [class |-> "init", tok |-> t]
  ELSE LET r == Strip(Tail(t)) IN
       IF r # << >> /\ TopOps(r) = {} /\ r[1] \in Finally THEN [class |-> "live", tok |-> Strip(Tail(r))]
       ELSE [class |-> "trans", tok |-> r]

(* contexts of evaluation: which variables a formula in a place may mention *)
Encoding(cs) == Encode([k \in 1..(Len(cs.ins) + Len(cs.outs)) |->
                  [name |-> (cs.ins \o cs.outs)[k], out |-> k > Len(cs.ins), int |-> FALSE, lo |-> 0, hi |-> 0]])
AtomName(cs, nm, inp) == IF cs.kind = "ratsy" THEN nm ELSE (IF inp THEN "e." ELSE "s.") \o nm
Context(cs, e, place) ==
  LET I == {cs.ins[k] : k \in DOMAIN cs.ins}
      O == {cs.outs[k] : k \in DOMAIN cs.outs}
      now == IF place = "env_init" THEN I ELSE I \cup O
      nxt == IF place \in {"env_init", "sys_init"} THEN {} ELSE IF place = "env_trans" THEN I ELSE I \cup O
      pairs == {<<AtomName(cs, x, x \in I), e.bool[x]>> : x \in now} \cup {<<AtomName(cs, x, x \in I) \o "'", e.bool[x \o "'"]>> : x \in nxt}
      nms == {p[1] : p \in pairs}
      set == TLCEval([nm \in nms |-> (CHOOSE p \in pairs : p[1] = nm)[2]])
  IN IF cs.kind = "ratsy"
     THEN [full |-> e.full, bool |-> [nm \in {} |-> {}], lim |-> [nm \in nms |-> -1],
           num |-> TLCEval([nm \in nms |-> [t \in e.full |-> IF t \in set[nm] THEN 1 ELSE 0]])]
     ELSE [full |-> e.full, bool |-> set, lim |-> [nm \in {} |-> 0], num |-> [nm \in {} |-> << >>]]

Judge(cs) ==
  LET e == Encoding(cs)
      st == Read(cs.lines)
      refused == cs.rc # 0 \/ st.err # ""
      Parts(side) == LET cj == AllConjuncts(IF side = "env" THEN cs.env ELSE cs.sys) IN [k \in DOMAIN cj |-> Sorted(cj[k])]
      pe == TLCEval(Parts("env"))
      ps == TLCEval(Parts("sys"))
      Ctx == TLCEval([p \in {"env_init", "env_trans", "env_live", "sys_init", "sys_trans", "sys_live"} |-> Context(cs, e, p)])
      Value(side, part) == Iff(Ctx[side \o "_" \o part.class], part.tok, 1, FALSE)
      ve == TLCEval([k \in DOMAIN pe |-> Value("env", pe[k])])
      vs == TLCEval([k \in DOMAIN ps |-> Value("sys", ps[k])])
      inside == (\A k \in DOMAIN pe : ve[k].nxt = Len(pe[k].tok) + 1) /\ (\A k \in DOMAIN ps : vs[k].nxt = Len(ps[k].tok) + 1)
      (* the translators emit recurring guarantees about the next position and therefore refuse X in them *)
      mayRefuse == \E k \in DOMAIN ps : ps[k].class = "live" /\ \E i \in DOMAIN ps[k].tok : ps[k].tok[i] \in NextOps
      All(pp, vv, cl) == e.full \cap {t \in e.full : \A k \in DOMAIN pp : pp[k].class = cl => t \in vv[k].set}
      Pts(X) == {t \in X : t < e.N}
      (* "again and again p" is the same for p now and p next: stated about the present where possible *)
      Present(X) == IF \A t \in e.full : (t \in X) = ((t \div e.N) * (e.N + 1) \in X) THEN {t \in e.full : (t % e.N) * (e.N + 1) \in X} ELSE X
      Recurring(ss) == {Present(s) : s \in ss} \ {e.full}
      Lives(pp, vv) == {vv[k].set : k \in {k \in DOMAIN pp : pp[k].class = "live"}}
      Rng(s) == {s[k] : k \in DOMAIN s}
      NamesOf(vars) == [k \in DOMAIN vars |-> vars[k].name]
  IN IF ~inside THEN (IF refused THEN "ok" ELSE "a formula outside of the fragment was translated")
     ELSE IF refused THEN (IF mayRefuse THEN "ok" ELSE "refused: " \o st.err)
     ELSE IF NamesOf(Inputs(st.vars)) # cs.ins \/ NamesOf(Outputs(st.vars)) # cs.outs THEN "variables"
     ELSE LET g == TLCEval(Denote(st)) IN
          IF g.IE # Pts(All(pe, ve, "init")) THEN "initial assumptions"
     ELSE IF g.IS # Pts(All(ps, vs, "init")) THEN "initial guarantees"
     ELSE IF g.E # All(pe, ve, "trans") THEN "assumptions about steps"
     ELSE IF g.S # All(ps, vs, "trans") THEN "guarantees about steps"
     ELSE IF Recurring(Rng(g.A)) # Recurring(Lives(pe, ve)) THEN "recurring assumptions"
     ELSE IF Recurring(Rng(g.G)) # Recurring(Lives(ps, vs)) THEN "recurring guarantees"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
