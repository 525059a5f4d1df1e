-------------------------------- MODULE FastSlow --------------------------------
(***************************************************************************)
(* Fast and slow outputs.  The outputs are declared in two sections; when a *)
(* transition changes both kinds, the fast ones change first, and the        *)
(* position in between -- next input, next fast outputs, old slow outputs -- *)
(* must be one that some transition of the safety guarantees leads to and    *)
(* one that some transition of the safety guarantees leads from.             *)
(***************************************************************************)
EXTENDS ExplicitStrategy

Std(lines) == [k \in DOMAIN lines |-> [lines[k] EXCEPT !.raw =
   CASE @ = "[OUTPUT]" -> "[NONE]" [] @ \in {"[OUTPUT_F]", "[OUTPUT_S]"} -> "[OUTPUT]" [] OTHER -> @]]

RECURSIVE SlowNames(_, _, _, _)
SlowNames(lines, k, slow, acc) ==
  IF k > Len(lines) THEN acc
  ELSE LET r == lines[k].raw IN
       IF Len(r) = 0 THEN SlowNames(lines, k+1, slow, acc)
       ELSE IF FirstChar(r) = "#" THEN SlowNames(lines, k+1, slow, acc)
       ELSE IF FirstChar(r) = "[" THEN SlowNames(lines, k+1, r = "[OUTPUT_S]", acc)
       ELSE SlowNames(lines, k+1, slow, IF slow THEN acc \cup {r} ELSE acc)

SlowBits(st, lines) ==
  LET sn == SlowNames(lines, 1, FALSE, {}) IN {k \in 1..Len(Outputs(st.vars)) : Outputs(st.vars)[k].name \in sn}

RECURSIVE BitSum(_)
BitSum(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN Pow2[b] + BitSum(S \ {b})

FastSlowGame(g, slow) ==
  LET from == {Src(g, t) : t \in g.S}
      to   == {Dst(g, t) : t \in g.S}
      Mid(p, q) == Pos(g, InOf(g, q), BitSum({k-1 : k \in {k \in 1..g.nO : (OutOf(g, IF k \in slow THEN p ELSE q) \div Pow2[k-1]) % 2 = 1}}))
      ok == from \cap to
  IN [g EXCEPT !.S = {t \in g.S : Mid(Src(g, t), Dst(g, t)) \in ok}]

FSJudge(cs) ==
  LET lines == Std(cs.lines)
      st == Read(lines)
  IN IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
     ELSE LET g == TLCEval(FastSlowGame(Denote(st), SlowBits(st, cs.lines)))
              W == SysWin(g)
              real == IF cs.robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
          IN IF cs.plain THEN (IF cs.observed = (IF real THEN "realizable" ELSE "unrealizable") THEN "ok" ELSE "wrong verdict")
             ELSE JudgeGame(g, W, cs)

FSInit == Init
FSNext == verdict = "pending" /\ verdict' = FSJudge(Cases[c]) /\ UNCHANGED c
FSSpec == FSInit /\ [][FSNext]_vars
===============================================================================
