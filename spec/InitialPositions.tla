--------------------------- MODULE InitialPositions ---------------------------
(***************************************************************************)
(* The report of the initial position analysis: counts and cubes of        *)
(* winning and non-winning positions.                                      *)
(*                                                                         *)
(* A comment line "## Variable limits: ..." declares the next property     *)
(* line of an initialisation section to be a limit on the values of        *)
(* encoded variables; positions outside all limits are not counted and may *)
(* be covered by printed cubes.  With the restriction option, the limits   *)
(* are moreover intersected with the positions reachable from the          *)
(* admissible initial positions.                                           *)
(*                                                                         *)
(* The printed cubes are produced in an order determined up to ties: every *)
(* cube is a shortest one that lies in the set (up to positions outside    *)
(* the limits), meets the limits, and does not use all the variables of an *)
(* earlier cube of the list; the list ends after seven cubes or when there *)
(* is none left.                                                           *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

LimitMark == "## Variable limits: "
StepLimit(s, line) ==
  LET raw == line.raw IN
  IF Len(raw) = 0 THEN s
  ELSE IF FirstChar(raw) = "#"
       THEN IF Len(raw) >= 20 /\ SubSeq(raw, 1, 20) = LimitMark THEN [s EXCEPT !.flag = TRUE] ELSE s
  ELSE IF FirstChar(raw) = "[" THEN [s EXCEPT !.flag = FALSE, !.mode = SectionOf(raw)]
  ELSE [s EXCEPT !.flag = FALSE,
                 !.lim = IF s.flag /\ s.mode \in {"ENV_INIT", "SYS_INIT"} THEN Append(@, line.tok) ELSE @,
                 !.bad = @ \/ (s.flag /\ s.mode \in {"ENV_LIVENESS", "SYS_LIVENESS"})]
RECURSIVE LimitsFrom(_, _, _)
LimitsFrom(s, lines, k) == IF k > Len(lines) THEN s ELSE LimitsFrom(StepLimit(s, lines[k]), lines, k+1)
LimitsOf(lines) == LimitsFrom([mode |-> "NONE", flag |-> FALSE, lim |-> << >>, bad |-> FALSE], lines, 1)

(* positions allowed by the limits: a specification with just these as its
   initial condition *)
LimitSet(st, lim) == LET g2 == Denote([st EXCEPT !.fm = [s \in FormulaSections |-> IF s = "SYS_INIT" THEN lim ELSE << >>]]) IN g2.IS

RECURSIVE ReachPos(_, _)
ReachPos(g, R) ==
  LET R2 == R \cup {q \in Q(g) : \E p \in R : Tr(g, p, q) \in g.E \cap g.S} IN
  IF R2 = R THEN R ELSE ReachPos(g, R2)

(* --- cubes: a set of literals <<k, b>>: bit k of the position is b --- *)
InCube(cb, q) == \A l \in cb : (q \div Pow2[l[1]]) % 2 = l[2]
VarsOf(cb) == {l[1] : l \in cb}
RECURSIVE AllCubes(_)
AllCubes(n) == IF n = 0 THEN {{}} ELSE
  LET R == AllCubes(n-1) IN R \cup {cb \cup {<<n-1, 0>>} : cb \in R} \cup {cb \cup {<<n-1, 1>>} : cb \in R}
Touching(g, pre, care, cubes) ==
  TLCEval({cb \in cubes : /\ \A q \in care \ pre : ~InCube(cb, q)
                          /\ \E q \in care : InCube(cb, q)})
CubeOf(seq) == {<<seq[i][1], seq[i][2]>> : i \in 1..Len(seq)}
(* i-th printed cube on, cand = the cubes still allowed *)
RECURSIVE ListOk(_, _, _, _)
ListOk(list, i, cand, k) ==
  IF i > Len(list) THEN k = 7 \/ cand = {}
  ELSE LET cb == CubeOf(list[i]) IN
       /\ k < 7
       /\ cb \in cand
       /\ \A d \in cand : Cardinality(cb) <= Cardinality(d)
       /\ ListOk(list, i+1, {d \in cand : ~(VarsOf(cb) \subseteq VarsOf(d))}, k+1)
SectionOk(g, sec, pre, care, cubes, grouped) ==
  IF care \subseteq pre THEN sec.kind = "TRUE"
  ELSE IF pre \cap care = {} THEN sec.kind = "none"
  ELSE /\ sec.kind = "cubes"
       /\ IF grouped
          THEN /\ Len(sec.cubes) \in 1..7
               /\ \A i, j \in 1..Len(sec.cubes) : i # j => CubeOf(sec.cubes[i]) # CubeOf(sec.cubes[j])
               /\ \A i \in 1..Len(sec.cubes) : \A q \in care : InCube(CubeOf(sec.cubes[i]), q) => q \in pre
          ELSE ListOk(sec.cubes, 1, Touching(g, pre, care, cubes), 0)

Expected(g, W, L) ==
  LET Ins(F) == {InOf(g, p) : p \in F}
      nIn   == Cardinality(Ins(L))
      lose  == {x \in Ins(L \cap g.IE) : \A y \in Y(g) : Pos(g, x, y) \notin W \cap g.IS}
      C(F)  == Cardinality(F \cap L)
  IN << C(W), C(Q(g)), C(W \cap g.IE), C(g.IE), C(W \cap g.IS), C(g.IS), C(W \cap g.IE \cap g.IS), C(g.IE \cap g.IS),
        Cardinality(Ins(L \cap g.IE)), nIn, Cardinality(lose), nIn >>

Sections(g, W) ==
  LET NW == Q(g) \ W
      stuck == {p \in Q(g) : \A x \in X(g) : \A y \in Y(g) : Tr(g, p, Pos(g, x, y)) \notin g.E}
  IN << W, NW, W \cap g.IE, NW \cap g.IE, W \cap g.IS, NW \cap g.IS, W \cap g.IE \cap g.IS, NW \cap g.IE \cap g.IS, W \cap stuck >>

Judge(cs) ==
  LET st == Read(cs.lines)
      lm == LimitsOf(cs.lines)
  IN IF st.err # "" \/ lm.bad THEN (IF cs.observed = "rejected" THEN "ok" ELSE "should be rejected")
     ELSE LET g == Denote(st)
              W == SysWin(g)
              L0 == LimitSet(st, lm.lim)
              L == TLCEval(IF cs.reach THEN L0 \cap ReachPos(g, g.IE \cap g.IS) ELSE L0)
              cubes == AllCubes(g.nI + g.nO)
              secs == Sections(g, W)
              plain == \E s \in 1..9 : secs[s] \cap L # {} /\ ~(L \subseteq secs[s])
          IN IF cs.badgroup /\ plain THEN (IF cs.observed = "rejected" THEN "ok" ELSE "group without master not reported")
             ELSE IF cs.observed # "ok" THEN "unexpected answer"
             ELSE IF cs.counts # Expected(g, W, L) THEN "counts, expected " \o ToString(Expected(g, W, L))
             ELSE IF Len(cs.secs) # 9 THEN "sections"
             ELSE IF \E s \in 1..9 : ~SectionOk(g, cs.secs[s], secs[s], L, cubes, cs.grouped)
             THEN LET s == CHOOSE s \in 1..9 : ~SectionOk(g, cs.secs[s], secs[s], L, cubes, cs.grouped)
                  IN "section " \o ToString(s) \o ", set " \o ToString(secs[s]) \o " within " \o ToString(L)
             ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict \in {"pending", "ok"}
===============================================================================
