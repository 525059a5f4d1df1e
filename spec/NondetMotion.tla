------------------------------ MODULE NondetMotion ------------------------------
(***************************************************************************)
(* Synthesis over a non-deterministic motion abstraction.  In every round    *)
(* the environment picks the input, the system the motion command and the    *)
(* other outputs; then the robot moves to some motion state that the         *)
(* abstraction (a relation over motion state, command, next motion state)    *)
(* allows.  Commands without any successor may not be given.  The robot may  *)
(* be assumed to move again and again when the command can make it move.     *)
(*                                                                           *)
(* A case: lines; robot, a sequence of [m, c, n] triples over the motion      *)
(* state bits and command bits in order of declaration, lowest bit first.     *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Std(lines) == [k \in DOMAIN lines |-> [lines[k] EXCEPT !.raw =
   CASE @ \in {"[MOTION STATE OUTPUT]", "[MOTION CONTROLLER OUTPUT]", "[OTHER OUTPUT]"} -> "[OUTPUT]" [] OTHER -> @]]

RECURSIVE NamesIn(_, _, _, _, _)
NamesIn(lines, sec, k, on, acc) ==
  IF k > Len(lines) THEN acc
  ELSE LET r == lines[k].raw IN
       IF Len(r) = 0 THEN NamesIn(lines, sec, k+1, on, acc)
       ELSE IF FirstChar(r) = "#" THEN NamesIn(lines, sec, k+1, on, acc)
       ELSE IF FirstChar(r) = "[" THEN NamesIn(lines, sec, k+1, r = sec, acc)
       ELSE NamesIn(lines, sec, k+1, on, IF on THEN acc \cup {r} ELSE acc)

(* bits of an output valuation that belong to the given names, packed *)
Bits(st, nms) == SelectSeq([k \in 1..Len(Outputs(st.vars)) |-> k], LAMBDA k : Outputs(st.vars)[k].name \in nms)
RECURSIVE Pack(_, _, _)
Pack(y, bs, k) == IF k > Len(bs) THEN 0 ELSE ((y \div Pow2[bs[k]-1]) % 2) * Pow2[k-1] + Pack(y, bs, k+1)

RECURSIVE Fix(_, _)
Fix(F(_), W) == LET W2 == TLCEval(F(W)) IN IF W2 = W THEN W ELSE Fix(F, W2)

Judge(cs) ==
  LET lines == Std(cs.lines)
      st == Read(lines)
  IN IF st.err # "" THEN "spec rejected"
  ELSE
  LET g0 == Denote(st)
      mb == Bits(st, NamesIn(cs.lines, "[MOTION STATE OUTPUT]", 1, FALSE, {}))
      cb == Bits(st, NamesIn(cs.lines, "[MOTION CONTROLLER OUTPUT]", 1, FALSE, {}))
      mt == TLCEval([y \in Y(g0) |-> Pack(y, mb, 1)])
      ct == TLCEval([y \in Y(g0) |-> Pack(y, cb, 1)])
      rest == TLCEval([y \in Y(g0) |-> {k \in 1..g0.nO : (y \div Pow2[k-1]) % 2 = 1 /\ k \notin {mb[i] : i \in DOMAIN mb}}])
      robot == {<<cs.robot[k][1], cs.robot[k][2], cs.robot[k][3]>> : k \in DOMAIN cs.robot}
      M(p) == mt[OutOf(g0, p)]
      Allowed2(p, y) == <<M(p), ct[y], mt[y]>> \in robot
      (* answers of the system: the output valuations that differ in the motion state only *)
      Commands == {{y2 \in Y(g0) : rest[y2] = rest[y]} : y \in Y(g0)}
      moves == {t \in g0.full : M(Src(g0, t)) # M(Dst(g0, t))}
      can == {t \in g0.full : \E r \in robot : r[1] = M(Src(g0, t)) /\ r[2] = ct[OutOf(g0, Dst(g0, t))] /\ r[3] # r[1]}
      givenA == IF st.fm["ENV_LIVENESS"] = << >> THEN << >> ELSE g0.A
      g == TLCEval([g0 EXCEPT !.A = Append(givenA, (g0.full \ can) \cup moves)])
      Force(F) ==
        {p \in Q(g) : \A x \in X(g) :
           (\E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \notin g.E)
           \/ \E C \in Commands : LET C2 == {y \in C : Allowed2(p, y)} IN
                C2 # {} /\ \A y \in C2 : Tr(g, p, Pos(g, x, y)) \in F \cap g.S}
      NuX2(live, i) == Fix(LAMBDA W : Force(live \cup (To(g, W) \ g.A[i])), Q(g))
      MuY2(Z, j) == Fix(LAMBDA W : TLCEval(W \cup UNION {NuX2(TLCEval((g.G[j] \cap To(g, Z)) \cup To(g, W)), i) : i \in DOMAIN g.A}), {})
      W == Fix(LAMBDA Z : {p \in Z : \A j \in DOMAIN g.G : p \in MuY2(Z, j)}, Q(g))
      real == IF cs.robotics THEN g.IE \subseteq W ELSE RealizableStd(g, W)
  IN IF cs.observed = (IF real THEN "realizable" ELSE "unrealizable") THEN "ok" ELSE "wrong verdict"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
