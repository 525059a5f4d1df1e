--------------------------- MODULE AssumptionReport ---------------------------
(***************************************************************************)
(* The assumption analysis: for each safety and liveness assumption, what  *)
(* dropping it (and nothing else) does to the game.                        *)
(*                                                                         *)
(* An assumption is named by the last "##" comment before it, or by its    *)
(* number.                                                                 *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

(* --- names --- *)
BlankChars == {" ", "\t"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) \in BlankChars THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) \in BlankChars THEN TrimR(SubSeq(s, 1, Len(s)-1)) ELSE s
StepName(s, line) ==
  LET raw == line.raw IN
  IF Len(raw) >= 2 /\ SubSeq(raw, 1, 2) = "##" THEN [s EXCEPT !.name = TrimL(TrimR(SubSeq(raw, 3, Len(raw))))]
  ELSE IF Len(raw) = 0 THEN s
  ELSE IF FirstChar(raw) = "#" THEN s
  ELSE IF FirstChar(raw) = "[" THEN [s EXCEPT !.mode = SectionOf(raw)]
  ELSE [s EXCEPT !.name = "",
          !.saf = IF s.mode = "ENV_TRANS" THEN Append(@, IF s.name # "" THEN s.name ELSE "Safety Assumption " \o ToString(Len(@) + 1)) ELSE @,
          !.liv = IF s.mode = "ENV_LIVENESS" THEN Append(@, IF s.name # "" THEN s.name ELSE "Liveness Assumption " \o ToString(Len(@) + 1)) ELSE @]
RECURSIVE NamesFrom(_, _, _)
NamesFrom(s, lines, k) == IF k > Len(lines) THEN s ELSE NamesFrom(StepName(s, lines[k]), lines, k+1)
NamesIn(lines) ==
  LET s == NamesFrom([mode |-> "NONE", name |-> "", saf |-> << >>, liv |-> << >>], lines, 1) IN
  [s EXCEPT !.liv = IF @ = << >> THEN << "Automatically added TRUE liveness assumption" >> ELSE @]

(* --- reactive distances: the approximants of the middle fixpoint --- *)
RECURSIVE Rounds(_, _, _, _, _)
Rounds(g, mv, goal, Z, Y_) ==
  LET Y2 == UnionI(g, mv, goal, Z, Y_, 1, Y_) IN
  IF Y2 = Y_ THEN << Y2 >> ELSE << Y2 >> \o Rounds(g, mv, goal, Z, Y2)
Distances(g, W) == LET mv == AnswerSets(g) IN TLCEval([j \in 1..Len(g.G) |-> Rounds(g, mv, g.G[j], W, {})])
At(ds, k) == ds[IF k > Len(ds) THEN Len(ds) ELSE k]

(* the moves some strategy may make at its r-th distance from goal j *)
MovesAt(g, mv, j, W, Yprev) ==
  LET goal == g.G[j] IN
  TLCEval({t \in g.S :
              \/ Dst(g, t) \in Yprev
              \/ t \in goal /\ Dst(g, t) \in W
              \/ \E i \in 1..Len(g.A) : t \notin g.A[i] /\ Dst(g, t) \in NuX(g, mv, goal, W, Yprev, i, Q(g))})
CaseOf(g, t) == <<Src(g, t), InOf(g, Dst(g, t))>>
RECURSIVE General(_, _, _, _, _, _, _)
General(g, mv, j, W, ds, r, acc) ==
  IF r > Len(ds) THEN acc
  ELSE LET covered == {CaseOf(g, t) : t \in acc}
           new == {t \in MovesAt(g, mv, j, W, IF r = 1 THEN {} ELSE ds[r-1]) : CaseOf(g, t) \notin covered}
       IN General(g, mv, j, W, ds, r+1, TLCEval(acc \cup new))

(* positions reachable when a strategy starts pursuing a goal initially and
   whenever some goal has been reached *)
RECURSIVE ReachBy(_, _, _)
ReachBy(g, mvs, R) ==
  LET R2 == R \cup {Dst(g, t) : t \in {t \in mvs : Src(g, t) \in R}} IN IF R2 = R THEN R ELSE ReachBy(g, mvs, R2)
RECURSIVE Switch(_, _, _)
Switch(g, strat, T) ==
  LET T2 == T \cup UNION {{Dst(g, t) : t \in {t \in strat[j] \cap g.G[j] : Src(g, t) \in ReachBy(g, strat[j], T)}} : j \in 1..Len(g.G)} IN
  IF T2 = T THEN T ELSE Switch(g, strat, T2)
Reachable(g, W, ds) ==
  LET mv == AnswerSets(g)
      strat == TLCEval([j \in 1..Len(g.G) |-> General(g, mv, j, W, ds[j], 1, {})])
      T == Switch(g, strat, g.IE \cap g.IS)
  IN TLCEval(UNION {ReachBy(g, strat[j], T) : j \in 1..Len(g.G)})

Needed(ds, ds2) == {j \in 1..Len(ds) : \E k \in 1..Len(ds2[j]) : At(ds[j], k) # ds2[j][k]}
NeededReach(ds, ds2, R) == {j \in 1..Len(ds) : \E k \in 1..Len(ds2[j]) : (At(ds[j], k) \ ds2[j][k]) \cap R # {}}

(* what is to be reported for the game g2 without the assumption *)
Answer(g, W, ds, R, g2, safety) ==
  LET W2 == SysWin(g2) IN
  IF ~RealizableStd(g2, W2) THEN [kind |-> "crucial", goals |-> << >>, out |-> << >>]
  ELSE IF W2 # W THEN [kind |-> IF W2 \cap g.IE # W \cap g.IE THEN "robotics" ELSE "winning", goals |-> << >>, out |-> << >>]
  ELSE IF safety /\ g.E = g2.E THEN [kind |-> "redundant", goals |-> << >>, out |-> << >>]
  ELSE LET ds2 == Distances(g2, W2)
           nd == Needed(ds, ds2)
           nr == NeededReach(ds, ds2, R)
       IN IF nd = {} THEN [kind |-> "superfluous", goals |-> << >>, out |-> << >>]
          ELSE LET sq == SelectSeq([j \in 1..Len(ds) |-> j], LAMBDA j : j \in nd) IN
               [kind |-> "easier", goals |-> [k \in 1..Len(sq) |-> sq[k] - 1], out |-> [k \in 1..Len(sq) |-> sq[k] \notin nr]]

Without(sq, k) == [i \in 1..(Len(sq)-1) |-> IF i < k THEN sq[i] ELSE sq[i+1]]

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
  ELSE LET g == Denote(st)
           W == SysWin(g)
           nm == NamesIn(cs.lines)
           real == RealizableStd(g, W)
       IN IF cs.observed # (IF real THEN "realizable" ELSE "unrealizable") THEN "wrong verdict"
          ELSE IF ~real THEN (IF cs.report = << >> THEN "ok" ELSE "report for unrealizable specification")
          ELSE LET ds == Distances(g, W)
                   R  == Reachable(g, W, ds)
                   ns == Len(nm.saf)
                   exp == TLCEval([k \in 1..(ns + Len(nm.liv)) |->
                      LET g2 == IF k <= ns
                                THEN Denote([st EXCEPT !.fm["ENV_TRANS"] = Without(@, k)])
                                ELSE [g EXCEPT !.A = IF Len(@) = 1 THEN << g.full >> ELSE Without(@, k - ns)]
                          a == Answer(g, W, ds, R, g2, k <= ns)
                      IN [name |-> IF k <= ns THEN nm.saf[k] ELSE nm.liv[k-ns], kind |-> a.kind, goals |-> a.goals, out |-> a.out]])
               IN IF Len(cs.report) # Len(exp) THEN "number of assumptions"
                  ELSE IF \E k \in 1..Len(exp) : cs.report[k] # exp[k]
                  THEN LET k == CHOOSE k \in 1..Len(exp) : cs.report[k] # exp[k] IN
                       "assumption " \o ToString(k) \o " expected " \o ToString(exp[k]) \o " got " \o ToString(cs.report[k])
                  ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
