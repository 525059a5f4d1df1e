--------------------------- MODULE InteractiveShell ---------------------------
(***************************************************************************)
(* The interactive shell as a state machine.  Its state is the current     *)
(* position (or none) and the current goal of the controller; each command *)
(* is an action that constrains the reply and the next state.  A recorded  *)
(* session (a sequence of command/reply events) must be a behaviour of it, *)
(* and the moves the shell showed in the session, taken together as a      *)
(* controller (or environment strategy), must meet the liveness part.      *)
(*                                                                         *)
(* After SETPOS and STARTPOS the goal may be kept or reset: the machine    *)
(* tracks the set of goals the shell may be pursuing.                      *)
(***************************************************************************)
EXTENDS SlugsInput, StrategyCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)

NamesOf(vs) == [k \in 1..Len(vs) |-> vs[k].name]
Games == TLCEval([i \in 1..Len(Cases) |->
  LET st == Read(Cases[i].lines)
      g  == Denote(st)
      W  == SysWin(g)
  IN [g |-> g, W |-> W, EW |-> Q(g) \ W,
      real |-> IF Cases[i].robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W),
      ins |-> NamesOf(Inputs(st.vars)), outs |-> NamesOf(Outputs(st.vars))]])

VARIABLES c, k, pos, goals, verdict
vars == <<c, k, pos, goals, verdict>>

NoPos == -1
BitAt(q, b) == (q \div Pow2[b]) % 2
NB(g) == g.nI + g.nO
(* positions matching a pattern of "0", "1" and "." *)
Match(g, f) == {q \in Q(g) : \A b \in 1..NB(g) : f[b] = "." \/ ToString(BitAt(q, b-1)) = f[b]}
AllFree(f, lo, hi) == \A b \in lo..hi : f[b] = "."

(* value of a printed line of letters and digits, as a position *)
LetterOne(l) == l \in {"1", "A", "G", "S"}
RECURSIVE LineValue(_, _)
LineValue(l, b) == IF b > Len(l) THEN 0 ELSE (IF LetterOne(l[b]) THEN Pow2[b-1] ELSE 0) + LineValue(l, b+1)
Forced(I, b, one, zero) == IF \A q \in I : BitAt(q, b-1) = 0 THEN zero ELSE IF \A q \in I : BitAt(q, b-1) = 1 THEN one ELSE "."
(* sets: sequence of <<set, letter for 1, letter for 0>>, tried in order *)
RECURSIVE Expect(_, _, _)
Expect(sets, s, b) ==
  IF s > Len(sets) THEN "."
  ELSE LET l == Forced(sets[s][1], b, sets[s][2], sets[s][3]) IN IF l # "." THEN l ELSE Expect(sets, s+1, b)
LettersOk(g, line, sets) ==
  Len(line) = NB(g) /\ \A b \in 1..NB(g) :
     LET e == Expect(sets, 1, b) IN IF e = "." THEN line[b] \in {"0", "1"} ELSE line[b] = e
(* letters known only up to the last of the sets *)
LettersPrefixOk(g, line, sets) ==
  Len(line) = NB(g) /\ \A b \in 1..NB(g) :
     LET e == Expect(sets, 1, b) IN IF e = "." THEN line[b] \in {"0", "1", "s", "S", "g", "G"} \ UNION {{sets[s][2], sets[s][3]} : s \in 2..Len(sets)} ELSE line[b] = e

RankRule(g, t, r, s) ==
  LET n == Len(g.G) IN
  s \in 0..(n-1) /\
  IF r = s THEN (t \notin g.G[r+1]) \/ (\A j \in 1..n : t \in g.G[j])
  ELSE (\A d \in 0..(((s + n - r) % n) - 1) : t \in g.G[((r + d) % n) + 1]) /\ t \notin g.G[s+1]
HoldsAt(F, t) == {i \in 1..Len(F) : t \in F[i]}
Idx(seq) == {seq[i] + 1 : i \in 1..Len(seq)}

(* a step the shell may offer as the controller's answer *)
GoodStep(G, p, q) ==
  /\ Tr(G.g, p, q) \in G.g.S
  /\ (p \in G.W /\ Tr(G.g, p, q) \in G.g.E) => q \in G.W
PossibleFrom(g, p) == {q \in Q(g) : Tr(g, p, q) \in g.E}

(* --- the actions: Ok(G, e) says whether reply e.r is possible in the current
       state, NextPos / NextGoals give the state afterwards --- *)
Ok(G, e) ==
  LET g == G.g IN
  CASE e.cmd = "XPRINTINPUTS" -> e.names = G.ins
    [] e.cmd = "XPRINTOUTPUTS" -> e.names = G.outs
    [] e.cmd = "XGETNOFLIVENESSPROPERTIES" -> e.na = Len(g.A) /\ e.ng = Len(g.G)
    [] e.cmd \in {"XGETINIT", "STARTPOS"} ->
         /\ e.q \in g.IE \cap g.IS \cap (IF G.real THEN G.W ELSE G.EW)
         /\ e.goal = 0
    [] e.cmd = "SETPOS" -> TRUE
    [] e.cmd \in {"XMAKETRANS", "XMAKETRANSRANDOM"} ->
         IF pos = NoPos \/ (pos # NoPos /\ e.x \notin EnvInputs(g, pos)) THEN e.r = "ERROR"
         ELSE \/ e.r = "ERROR" /\ pos \notin G.W
              \/ /\ e.r = "move"
                 /\ InOf(g, e.q) = e.x
                 /\ GoodStep(G, pos, e.q)
                 /\ \E r \in goals : RankRule(g, Tr(g, pos, e.q), r, e.goal)
    [] e.cmd = "MOVE" ->
         IF pos = NoPos THEN e.r = "undefined"
         ELSE IF e.goal >= (IF G.real THEN Len(g.G) ELSE Len(g.A)) THEN e.r = "too large"
         ELSE IF EnvInputs(g, pos) = {} THEN e.r = "no input"
         ELSE /\ e.warned = (e.x \notin EnvInputs(g, pos))
              /\ \/ e.r = "not allowed" /\ (e.warned \/ ~G.real \/ pos \notin G.W)
                 \/ /\ e.r = "move" /\ InOf(g, e.q) = e.x
                    /\ G.real => GoodStep(G, pos, e.q)
                    /\ LET t == Tr(g, pos, e.q) IN
                         /\ Idx(e.la) = HoldsAt(g.A, t)
                         /\ Idx(e.lg) = HoldsAt(g.G, t)
                         /\ G.real => e.goal \in {e.ls[i] : i \in 1..Len(e.ls)}
    [] e.cmd = "CHECKTRANS" ->
         LET t == Tr(g, e.p, e.q) IN
         /\ e.win = (e.p \in (IF G.real THEN G.W ELSE G.EW))
         /\ e.e = (t \in g.E) /\ e.s = (t \in g.S)
         /\ Idx(e.la) = HoldsAt(g.A, t) /\ Idx(e.lg) = HoldsAt(g.G, t)
         /\ G.real => (e.ls # << >> => GoodStep(G, e.p, e.q))
         /\ G.real => Idx(e.ls) \subseteq 1..Len(g.G)
    [] e.cmd = "XCOMPLETEINIT" ->
         LET F  == Match(g, e.f)
             I1 == g.IE \cap F
             I2 == I1 \cap (IF G.real THEN g.IS ELSE G.EW)
             I3 == I2 \cap (IF G.real THEN G.W ELSE g.IS)
             s1 == <<I1, "A", "a">>
             s2 == IF G.real THEN <<I2, "G", "g">> ELSE <<I2, "S", "s">>
             s3 == IF G.real THEN <<I3, "S", "s">> ELSE <<I3, "G", "g">>
         IN IF I1 = {} THEN e.r = "FAILASSUMPTIONS"
            ELSE IF I2 = {} THEN
                   IF G.real \/ AllFree(e.f, 1, NB(g))
                   THEN e.r = "FAILGUARANTEES" /\ LettersOk(g, e.line, <<s1>>) /\ LineValue(e.line, 1) \in I1
                   ELSE e.r = "FORCEDNONWINNING"
            ELSE IF I3 = {} THEN
                   IF G.real THEN e.r = "FORCEDNONWINNING"
                   ELSE e.r = "FAILGUARANTEES" /\ LettersOk(g, e.line, <<s1, s2>>) /\ LineValue(e.line, 1) \in I2
            ELSE e.r = "line" /\ LettersOk(g, e.line, <<s1, s2, s3>>) /\ LineValue(e.line, 1) \in I3
    [] e.cmd = "XSTRATEGYTRANSITION" ->
         LET F  == Match(g, e.f)
             I1 == F \cap PossibleFrom(g, e.p)
             I2 == {q \in I1 : Tr(g, e.p, q) \in g.S}
             v  == IF e.r \in {"line", "FAILGUARANTEES"} THEN LineValue(e.line, 1) ELSE 0
             t  == Tr(g, e.p, v)
             s1 == <<I1, "A", "a">>
             moved == /\ e.na = (IF t \in g.A[e.ca+1] THEN (e.ca + 1) % Len(g.A) ELSE e.ca)
                      /\ e.ng = (IF t \in g.G[e.cg+1] THEN (e.cg + 1) % Len(g.G) ELSE e.cg)
             kept  == e.na = e.ca /\ e.ng = e.cg
         IN IF I1 = {} THEN e.r = "FAILASSUMPTIONS"
            ELSE IF G.real THEN
              IF I2 = {} THEN e.r = "FAILGUARANTEES" /\ LettersOk(g, e.line, <<s1>>) /\ v \in I1 /\ kept
              ELSE \/ e.r = "FORCEDNONWINNING" /\ ~(e.p \in G.W /\ AllFree(e.f, g.nI + 1, NB(g)))
                   \/ /\ e.r = "line" /\ LettersPrefixOk(g, e.line, <<s1, <<I2, "G", "g">> >>)
                      /\ v \in I2 /\ GoodStep(G, e.p, v) /\ moved
            ELSE
              \/ e.r = "FORCEDNONWINNING" /\ ~(e.p \in G.EW /\ AllFree(e.f, 1, NB(g)))
              \/ /\ e.r = "FAILGUARANTEES" /\ LettersPrefixOk(g, e.line, <<s1>>) /\ v \in I1 /\ kept
                 /\ \A q \in F : InOf(g, q) = InOf(g, v) => Tr(g, e.p, q) \notin g.S
              \/ /\ e.r = "line" /\ LettersPrefixOk(g, e.line, <<s1>>) /\ v \in I2 /\ moved
                 /\ e.p \in G.EW => v \in G.EW
    [] OTHER -> FALSE

NextPos(G, e) ==
  CASE e.cmd \in {"XGETINIT", "STARTPOS", "SETPOS"} -> e.q
    [] e.cmd \in {"XMAKETRANS", "XMAKETRANSRANDOM", "MOVE"} -> IF e.r = "move" THEN e.q ELSE pos
    [] OTHER -> pos
NextGoals(G, e) ==
  CASE e.cmd = "XGETINIT" -> {0}
    [] e.cmd \in {"SETPOS", "STARTPOS"} -> goals \cup {0}
    [] e.cmd \in {"XMAKETRANS", "XMAKETRANSRANDOM"} -> IF e.r = "move" THEN {e.goal} ELSE goals
    [] OTHER -> goals

(* --- the moves of a session as a controller --- *)
(* edges [p, r, q, s]: with goal r at p the shell went to q and goal s *)
NodeId(g, p, r) == p + g.N * r + 1
GraphOf(g, n, es) ==
  TLCEval([z \in 1..(g.N * n) |-> [pos |-> (z-1) % g.N, rank |-> (z-1) \div g.N,
     ss |-> {NodeId(g, es[i].q, es[i].s) : i \in {i \in 1..Len(es) : NodeId(g, es[i].p, es[i].r) = z}}]])
ControllerFair(G, es) == LivenessHolds(G.g, GraphOf(G.g, Len(G.g.G), es))

RECURSIVE ENu(_, _, _, _), GRe(_, _, _, _, _), GA(_, _, _, _), GN(_, _, _)
ENu(g, ns, i, Z) == LET Z2 == {n \in Z : \E m \in ns[n].ss \cap Z : EdgeTr(g, ns, n, m) \notin g.A[i]} IN IF Z2 = Z THEN Z ELSE ENu(g, ns, i, Z2)
GRe(g, ns, j, Z, R) == LET R2 == R \cup {n \in Z : \E m \in ns[n].ss \cap Z : m \in R \/ EdgeTr(g, ns, n, m) \in g.G[j]} IN IF R2 = R THEN R ELSE GRe(g, ns, j, Z, R2)
GA(g, ns, j, Z) == IF j > Len(g.G) THEN Z ELSE GA(g, ns, j+1, GRe(g, ns, j, Z, {}))
GN(g, ns, Z) == LET Z2 == GA(g, ns, 1, Z) IN IF Z2 = Z THEN Z ELSE GN(g, ns, Z2)
EnvironmentWins(G, es) ==
  LET ns == GraphOf(G.g, Len(G.g.A), es) IN
  /\ \A i \in 1..Len(G.g.A) : ENu(G.g, ns, i, Node(ns)) = {}
  /\ GN(G.g, ns, Node(ns)) = {}

FinalVerdict(G, cs) ==
  IF cs.observed # (IF G.real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
  ELSE IF ~ControllerFair(G, cs.moves) THEN "session starves a guarantee"
  ELSE IF G.real /\ ~ControllerFair(G, cs.smoves) THEN "strategy transitions starve a guarantee"
  ELSE IF ~G.real /\ ~EnvironmentWins(G, cs.smoves) THEN "strategy transitions do not defeat the system"
  ELSE "ok"

Init == c \in 1..Len(Cases) /\ k = 0 /\ pos = NoPos /\ goals = {0} /\ verdict = "pending"
Next ==
  /\ verdict = "pending"
  /\ LET G == Games[c] cs == Cases[c] IN
     IF k = Len(cs.events)
     THEN verdict' = FinalVerdict(G, cs) /\ UNCHANGED <<c, k, pos, goals>>
     ELSE LET e == cs.events[k+1] IN
          IF Ok(G, e)
          THEN /\ k' = k + 1 /\ pos' = NextPos(G, e) /\ goals' = NextGoals(G, e)
               /\ UNCHANGED <<c, verdict>>
          ELSE verdict' = "event " \o ToString(k+1) \o ": " \o ToString(e) \o " not allowed at " \o ToString(pos) /\ UNCHANGED <<c, k, pos, goals>>
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
