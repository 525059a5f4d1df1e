--------------------------------- MODULE StuckAt ---------------------------------
(***************************************************************************)
(* analyzeStuckAtConstant: what happens if a signal is stuck at a value.  For a *)
(* realizable structured specification the report names, for every output, the  *)
(* values at which the output may be stuck (from the start and in every step)     *)
(* without making the specification unrealizable; for an unrealizable one, for    *)
(* every input, the values that leave it unrealizable.                          *)
(*                                                                           *)
(* Case: decls, forms (StructuredLang); done; start ("realizable" or            *)
(* "unrealizable"); report: sequence of [kind ("output"/"input"), n, vals].       *)
(***************************************************************************)
EXTENDS StructuredLang, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Rng(s) == {s[k] : k \in DOMAIN s}
Real(g) == RealizableStd(g, SysWin(g))

(* transitions/positions at which a variable has a value, now and next *)
At0(e, d, v) == IF d.int THEN {t \in e.full : e.ctx.num[d.name][t] = v} ELSE IF v = 1 THEN e.bool[d.name] ELSE e.full \ e.bool[d.name]
At1(e, d, v) == IF d.int THEN {t \in e.full : e.ctx.num[d.name \o "'"][t] = v} ELSE IF v = 1 THEN e.bool[d.name \o "'"] ELSE e.full \ e.bool[d.name \o "'"]
Stuck(e, g, d, v) ==
  IF d.out THEN [g EXCEPT !.S = TLCEval(@ \cap At1(e, d, v)), !.IS = TLCEval(@ \cap At0(e, d, v))]
           ELSE [g EXCEPT !.E = TLCEval(@ \cap At1(e, d, v)), !.IE = TLCEval(@ \cap At0(e, d, v))]
Values(d) == IF d.int THEN d.lo..d.hi ELSE {0, 1}

Judge(cs) ==
  LET e == Encode(cs.decls)
      g == TLCEval(StructuredGame(cs.decls, cs.forms))
      real == Real(g)
      ds == SelectSeq(cs.decls, LAMBDA d : d.out = real)
  IN IF ~cs.done THEN "the tool failed"
     ELSE IF cs.start # (IF real THEN "realizable" ELSE "unrealizable") THEN "starting point"
     ELSE IF Len(cs.report) # Len(ds) \/ {cs.report[k].n : k \in DOMAIN cs.report} # {ds[k].name : k \in DOMAIN ds} THEN "signals"
     ELSE IF \E k \in DOMAIN cs.report : cs.report[k].kind # (IF real THEN "output" ELSE "input") THEN "kind of signal"
     ELSE IF \E k \in DOMAIN cs.report :
               LET d == ds[CHOOSE j \in DOMAIN ds : ds[j].name = cs.report[k].n]
               IN Rng(cs.report[k].vals) # {v \in Values(d) : Real(Stuck(e, g, d, v)) = real} THEN "values"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
