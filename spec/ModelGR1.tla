------------------------------ MODULE ModelGR1 ------------------------------
(***************************************************************************)
(* The design of the solver, step by step: three nested loops as in        *)
(* GR1Context::computeWinningPositions, one TLA+ step per update of a      *)
(* variable, with and without the recycling of innermost fixed points, and *)
(* the list of preferred transitions it leaves behind for controller       *)
(* extraction.  TLC checks on whole games that                             *)
(*   - the loops terminate in exactly the declarative fixed point SysWin   *)
(*     (GR1Game), which is the complement of EnvWin (determinacy),         *)
(*   - Z never loses a winning position, only shrinks; Y and X are bounded *)
(*     by their limits all the way,                                        *)
(*   - a recycled innermost fixed point is the fresh one,                  *)
(*   - CoxM over answer sets is the predecessor Cox,                       *)
(*   - picking the first preferred transition for the current goal is a    *)
(*     correct controller from every winning position.                     *)
(* A case: [lines |-> specification].                                      *)
(***************************************************************************)
EXTENDS SlugsInput, StrategyCheck, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, g, win, lose, mv, recycle, pc, Zv, Zn, j, Yv, i, Xv, good, rec, firstY, firstZ, dump
vars == <<c, g, win, lose, mv, recycle, pc, Zv, Zn, j, Yv, i, Xv, good, rec, firstY, firstZ, dump>>

(* the game and its solution are computed once per case *)
nA == Len(g.A)
nG == Len(g.G)

LiveTr == (g.G[j] \cap To(g, Zv)) \cup To(g, Yv)
Paths(X_) == g.S \cap (LiveTr \cup (To(g, X_) \ g.A[i]))
StartX == IF ~recycle THEN Q(g) ELSE IF firstY /\ ~firstZ THEN rec[<<j, i>>] \cap Zv ELSE Zv

Init == /\ c \in 1..Len(Cases)
        /\ g = GameOf(Cases[c].lines) /\ mv = AnswerSets(g) /\ win = SysWin(g) /\ lose = EnvWin(g)
        /\ recycle \in BOOLEAN
        /\ pc = "enterX" /\ Zv = Q(g) /\ Zn = Q(g) /\ j = 1 /\ Yv = {} /\ i = 1 /\ Xv = Q(g) /\ good = {}
        /\ rec = [p \in (1..nG) \X (1..nA) |-> {}] /\ firstY = TRUE /\ firstZ = TRUE /\ dump = << >>

StepX == /\ pc = "X"
         /\ LET X2 == Cox(g, Paths(Xv)) IN
            IF X2 # Xv THEN /\ Xv' = X2 /\ UNCHANGED <<pc, good, rec, dump>>
            ELSE /\ pc' = "nextA" /\ good' = good \cup Xv /\ dump' = Append(dump, [goal |-> j, paths |-> Paths(Xv)])
                 /\ rec' = [rec EXCEPT ![<<j, i>>] = Xv] /\ UNCHANGED Xv
         /\ UNCHANGED <<c, g, win, lose, mv, recycle, Zv, Zn, j, Yv, i, firstY, firstZ>>
(* Xv is set when a loop over X begins *)
EnterX == /\ pc = "enterX" /\ Xv' = StartX /\ pc' = "X"
          /\ UNCHANGED <<c, g, win, lose, mv, recycle, Zv, Zn, j, Yv, i, good, rec, firstY, firstZ, dump>>
StepY == /\ pc = "Y"
         /\ IF good # Yv THEN /\ Yv' = good /\ firstY' = FALSE /\ pc' = "enterX" /\ UNCHANGED <<Zn, j, good>>
            ELSE /\ Zn' = Zn \cap Yv /\ firstY' = TRUE
                 /\ IF j < nG THEN /\ j' = j + 1 /\ Yv' = {} /\ good' = {} /\ pc' = "enterX"
                    ELSE /\ pc' = "Z" /\ UNCHANGED <<j, Yv, good>>
         /\ UNCHANGED <<c, g, win, lose, mv, recycle, Zv, i, Xv, rec, firstZ, dump>>
StepZ == /\ pc = "Z"
         /\ IF Zn # Zv THEN /\ Zv' = Zn /\ Zn' = Q(g) /\ j' = 1 /\ Yv' = {} /\ good' = {} /\ dump' = << >> /\ firstZ' = FALSE /\ pc' = "enterX"
            ELSE /\ pc' = "done" /\ UNCHANGED <<Zv, Zn, j, Yv, good, dump, firstZ>>
         /\ UNCHANGED <<c, g, win, lose, mv, recycle, i, Xv, rec, firstY>>
NextA == /\ pc = "nextA"
         /\ IF i < nA THEN i' = i + 1 /\ pc' = "enterX" ELSE i' = 1 /\ pc' = "Y"
         /\ UNCHANGED <<c, g, win, lose, mv, recycle, Zv, Zn, j, Yv, Xv, good, rec, firstY, firstZ, dump>>
Next == StepX \/ NextA \/ EnterX \/ StepY \/ StepZ
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Terminates == <>(pc = "done")
ZShrinks == [][Zv' \subseteq Zv]_vars
YGrows == [][(j' = j /\ Zv' = Zv) => Yv \subseteq Yv']_vars
ZBound == win \subseteq Zv
XBound == pc = "X" => NuX(g, mv, g.G[j], Zv, Yv, i, Q(g)) \subseteq Xv
YBound == Yv \subseteq MuY(g, mv, g.G[j], Zv, {})
Recycled == pc = "nextA" => Xv = NuX(g, mv, g.G[j], Zv, Yv, i, Q(g))
Determined == win = Q(g) \ lose
CoxAgrees == pc = "X" => CoxM(g, mv, g.G[j], Zv, Yv, g.A[i], Xv) = Cox(g, Paths(Xv))
Result == pc = "done" => Zv = win

(* the controller the list stands for: nodes are numbered by position and goal *)
NodeIx(p, k) == p + g.N * (k - 1) + 1
Preferred(p, k, x) == LET ix == {m \in 1..Len(dump) : dump[m].goal = k /\ \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in dump[m].paths} IN
                      IF ix = {} THEN 0 ELSE CHOOSE m \in ix : \A l \in ix : m <= l
Pick(p, k, x) == LET m == Preferred(p, k, x) IN
                 CHOOSE q \in {Pos(g, x, y) : y \in Y(g)} : Tr(g, p, q) \in dump[m].paths
Legal(p) == {x \in X(g) : \E y \in Y(g) : Tr(g, p, Pos(g, x, y)) \in g.E}
Controller == TLCEval([n \in 1..(g.N * nG) |->
   LET p == (n - 1) % g.N  k == ((n - 1) \div g.N) + 1 IN
   [pos |-> p, rank |-> k - 1,
    ss |-> IF p \notin Zv THEN {} ELSE
           {LET q == Pick(p, k, x) IN NodeIx(q, IF Tr(g, p, q) \in g.G[k] THEN (k % nG) + 1 ELSE k) : x \in Legal(p)}]])
Extractable == pc = "done" =>
   /\ \A p \in Zv : \A k \in 1..nG : \A x \in Legal(p) : Preferred(p, k, x) # 0
   /\ LET ns == Controller IN
      /\ \A n \in Node(ns) : \A m \in ns[n].ss : ns[m].pos \in Zv /\ EdgeTr(g, ns, n, m) \in g.S
      /\ LivenessHolds(g, ns)
===============================================================================
