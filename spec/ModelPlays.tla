------------------------------ MODULE ModelPlays ------------------------------
(***************************************************************************)
(* Do the fixed points of GR1Game mean what the statement of the game      *)
(* says?  For games with one assumption and one guarantee (parity games    *)
(* with three colours, where positional strategies suffice for both        *)
(* players) all strategies are enumerated, and all plays against each are  *)
(* judged by looking at the lassos of the finite graph they form.          *)
(* A case: [lines |-> specification] with one input and one output.        *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Legal(g, p) == {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}
RECURSIVE Closure(_)
Closure(R) == LET R2 == R \cup {<<a[1], b[2]>> : <<a, b>> \in {ab \in R \X R : ab[1][2] = ab[2][1]}} IN IF R2 = R THEN R ELSE Closure(R2)

(* positions from which the graph of moves R reaches a bad thing *)
CanReach(g, R, B) == LET C == Closure(R) IN {p \in Q(g) : p \in B \/ \E b \in B : <<p, b>> \in C}

(* system strategy f; bad: an unsafe answer, or a cycle that satisfies the
   assumption but not the guarantee *)
SysLosesFrom(g, f) ==
  LET R == {<<p, Pos(g, x, f[<<p, x>>])>> : <<p, x>> \in {px \in Q(g) \X X(g) : px[2] \in Legal(g, px[1])}}
      noG == TLCEval(Closure({e \in R : Tr(g, e[1], e[2]) \notin g.G[1]}))
      unsafe == {e[1] : e \in {e \in R : Tr(g, e[1], e[2]) \notin g.S}}
      cyc == {e[1] : e \in {e \in R : /\ Tr(g, e[1], e[2]) \in g.A[1] \ g.G[1]
                                      /\ (e[1] = e[2] \/ <<e[2], e[1]>> \in noG)}}
  IN CanReach(g, R, unsafe \cup cyc)
SysWinsByStrategy(g) == UNION {Q(g) \ SysLosesFrom(g, f) : f \in [Q(g) \X X(g) -> Y(g)]}

(* environment strategy h; bad: no legal input, a cycle without the
   assumption, or a cycle with the guarantee *)
EnvLosesFrom(g, h) ==
  LET R == {<<p, q>> \in Q(g) \X Q(g) : InOf(g, q) = h[p] /\ Tr(g, p, q) \in g.S}
      C == TLCEval(Closure(R))
      noA == TLCEval(Closure({e \in R : Tr(g, e[1], e[2]) \notin g.A[1]}))
      stuck == {p \in Q(g) : h[p] \notin Legal(g, p)}
      cycG == {e[1] : e \in {e \in R : Tr(g, e[1], e[2]) \in g.G[1] /\ (e[1] = e[2] \/ <<e[2], e[1]>> \in C)}}
      cycNoA == {p \in Q(g) : <<p, p>> \in noA}
  IN CanReach(g, R, stuck \cup cycG \cup cycNoA)
EnvWinsByStrategy(g) == UNION {Q(g) \ EnvLosesFrom(g, h) : h \in [Q(g) -> X(g)]}

Judge(k) ==
  LET g == GameOf(Cases[k].lines) IN
  IF Len(g.A) # 1 \/ Len(g.G) # 1 \/ g.N # 4 THEN "not in this class"
  ELSE IF SysWinsByStrategy(g) # SysWin(g) THEN "system's fixed point"
  ELSE IF EnvWinsByStrategy(g) # EnvWin(g) THEN "environment's fixed point"
  ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(c) /\ UNCHANGED c
Conforms == verdict \in {"pending", "ok"}
===============================================================================
