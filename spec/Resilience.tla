------------------------------- MODULE Resilience -------------------------------
(***************************************************************************)
(* kResilientRealizabilityChecker: how much misbehaviour of the environment   *)
(* a specification can bear.                                                  *)
(*                                                                           *)
(* A level gives every safety assumption (those after a "## Variable limits"   *)
(* comment excepted: they always hold) a mark - 0 none, 1 some, 2 any - and a   *)
(* number k >= 1.  At that level the system and the environment play the        *)
(* counter game:                                                              *)
(*  - the position has a counter c in 0..k, initially 0, next to the variables;  *)
(*  - the environment must respect the assumptions marked none, and may not      *)
(*    violate more than k - c of those marked some in one step;                 *)
(*  - the system chooses the next value of the counter, at most c plus the       *)
(*    number of assumptions marked some that were just violated (so it may        *)
(*    declare at any time that it has recovered);                              *)
(*  - steps with c > 0 count as meeting every liveness assumption;               *)
(*  - steps that violate an assumption marked some or any count as meeting        *)
(*    every liveness guarantee, and there is one more guarantee: again and again   *)
(*    the counter is 0.                                                        *)
(* A level is achievable if the system wins.  Level f is at least level e if      *)
(* its marks and its number are.                                              *)
(*                                                                           *)
(* The assumptions that can be marked any, all others none, form the basic        *)
(* frontier; for marks under one of its elements (1 read as 2) the number has      *)
(* no meaning and is 1.  The tool must report precisely the maximal              *)
(* achievable levels, or that even the unchanged specification is unrealizable;    *)
(* and the specification files that it writes for these levels must denote the    *)
(* counter games.                                                             *)
(*                                                                           *)
(* Case: lines (without the essential assumptions) and ess (their tokens);       *)
(* rc; levels: the reported levels, [m |-> marks, k |-> number]; nothing: the      *)
(* tool said that the specification is unrealizable; files: per level the lines    *)
(* of the written specification (<<>>: none were asked for).                    *)
(***************************************************************************)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

Rng(s) == {s[k] : k \in DOMAIN s}

(* The pieces of the game that are shared by all levels. *)
Base(st, ess) ==
  LET g == Denote(st)
      n == g.nI + g.nO
      lit == TLCEval([nm \in Names(st.vars) |->
                LET k == KindTable(st.vars)[nm]
                    prm == k \in {PostI, PostO}
                    pl == IF prm THEN SubSeq(nm, 1, Len(nm) - 1) ELSE nm
                    ix == IF k \in {PreI, PostI} THEN (CHOOSE i \in 1..g.nI : Inputs(st.vars)[i].name = pl) - 1
                          ELSE g.nI + (CHOOSE i \in 1..g.nO : Outputs(st.vars)[i].name = pl) - 1
                IN {t \in g.full : (t \div Pow2[ix + IF prm THEN n ELSE 0]) % 2 = 1}])
  IN [g |-> g, ess |-> ConjAll(lit, g.full, ess), asm |-> Each(lit, g.full, st.fm["ENV_TRANS"]),
      hasG |-> st.fm["SYS_LIVENESS"] # << >>, hasA |-> st.fm["ENV_LIVENESS"] # << >>]

(* The counter game of a level. *)
CounterGame(b, m, k) ==
  LET g == b.g
      N2 == g.N * (k + 1)
      full == 0..(N2 * N2 - 1)
      some == {i \in DOMAIN m : m[i] = 1}
      soft == {i \in DOMAIN m : m[i] # 0}
      hard == {i \in DOMAIN m : m[i] = 0}
      P(t) == t % N2      D(t) == t \div N2
      Old(t) == (P(t) % g.N) + g.N * (D(t) % g.N)
      C(t) == P(t) \div g.N       C2(t) == D(t) \div g.N
      viol == TLCEval([t \in g.full |-> Cardinality({i \in some : t \notin b.asm[i]})])
      ehard == TLCEval({t \in g.full : t \in b.ess /\ \A i \in hard : t \in b.asm[i]})
      vsoft == TLCEval({t \in g.full : \E i \in soft : t \notin b.asm[i]})
      Lift(S) == {t \in full : Old(t) \in S}
  IN [ nI |-> g.nI, nO |-> g.nO, NX |-> g.NX, NY |-> g.NY * (k + 1), N |-> N2, full |-> full,
       IE |-> {p \in 0..(N2-1) : (p % g.N) \in g.IE},
       IS |-> {p \in 0..(g.N-1) : p \in g.IS},
       E |-> TLCEval({t \in full : Old(t) \in ehard /\ C(t) + viol[Old(t)] <= k}),
       S |-> TLCEval({t \in full : Old(t) \in g.S /\ C2(t) <= C(t) + viol[Old(t)]}),
       A |-> IF b.hasA THEN TLCEval([i \in DOMAIN g.A |-> {t \in full : C(t) > 0 \/ Old(t) \in g.A[i]}]) ELSE << full >>,
       G |-> TLCEval((IF b.hasG THEN [i \in DOMAIN g.G |-> Lift(g.G[i] \cup vsoft)] ELSE << >>)
                       \o << {t \in full : C2(t) = 0 \/ Old(t) \in vsoft} >>) ]

Wins(b, m, k) == LET g == CounterGame(b, m, k) IN RealizableStd(g, SysWin(g))
Leq(e, f) == e.k <= f.k /\ \A i \in DOMAIN e.m : e.m[i] <= f.m[i]

(* A file that the tool wrote for a level denotes the counter game. *)
FileOk(b, lv, lines) ==
  LET st == Read(lines) IN
  IF st.err # "" THEN FALSE
  ELSE LET f == Denote(st)
           w == CounterGame(b, lv.m, lv.k)
           nb == f.nI + f.nO - b.g.nI - b.g.nO
           (* counter bits follow the outputs: positions have the same numbers as long as the counter is in range *)
           In(t) == (t % w.N) + f.N * (t \div w.N)
           dom == w.full
       IN /\ f.nI = b.g.nI /\ f.N >= w.N /\ nb >= 0
          /\ f.IE \cap (0..(w.N-1)) = w.IE /\ f.IS \cap (0..(f.N-1)) = w.IS
          /\ \A t \in dom : (In(t) \in f.E) = (t \in w.E)
          /\ \A t \in w.E : (In(t) \in f.S) = (t \in w.S)
          /\ Len(f.A) = Len(w.A) /\ \A i \in DOMAIN f.A : \A t \in dom : (In(t) \in f.A[i]) = (t \in w.A[i])
          (* the guarantees only need to agree where the assumptions hold *)
          /\ Len(f.G) = Len(w.G) /\ \A i \in DOMAIN f.G : \A t \in w.E : (In(t) \in f.G[i]) = (t \in w.G[i])
          (* a counter that is out of range cannot be reached without a violation *)
          /\ \A p \in 0..(w.N-1) : \A q \in w.N..(f.N-1) :
                LET t == p + f.N * q IN ~(t \in f.E /\ t \in f.S)

Judge(cs) ==
  LET st == Read(cs.lines) IN
  IF st.err # "" THEN "spec rejected"
  ELSE
  LET b == TLCEval(Base(st, cs.ess))
      n == Len(b.asm)
      marks == [1..n -> {0, 1, 2}]
      plain == [1..n -> {0, 2}]
      bottom == [i \in 1..n |-> 0]
      free == TLCEval({m \in plain : Wins(b, m, 1)})
      Under(m) == \E f \in free : \A i \in 1..n : m[i] # 0 => f[i] = 2
      L == cs.levels
      best(m) == LET ks == {L[i].k : i \in {i \in DOMAIN L : \A j \in 1..n : m[j] <= L[i].m[j]}}
                 IN IF ks = {} THEN 0 ELSE CHOOSE x \in ks : \A y \in ks : y <= x
  IN IF bottom \notin free THEN (IF cs.nothing /\ L = << >> THEN "ok" ELSE "levels of an unrealizable specification")
     ELSE IF cs.nothing \/ cs.rc # 0 THEN "the tool failed"
     ELSE IF \E i \in DOMAIN L : Len(L[i].m) # n \/ L[i].k < 1 THEN "no level"
     ELSE IF \E i, j \in DOMAIN L : i # j /\ Leq(L[i], L[j]) THEN "a reported level is below another one"
     ELSE IF \E i \in DOMAIN L : Under(L[i].m) /\ L[i].k # 1 THEN "a number where none is needed"
     ELSE IF \E i \in DOMAIN L : ~Wins(b, L[i].m, L[i].k) THEN "a reported level is not achievable"
     ELSE IF \E m \in marks : best(m) = 0 /\ (Under(m) \/ Wins(b, m, 1)) THEN "an achievable level is missing"
     ELSE IF \E m \in marks : ~Under(m) /\ best(m) > 0 /\ Wins(b, m, best(m) + 1) THEN "a higher number is achievable"
     ELSE IF cs.files # << >> /\ (Len(cs.files) # Len(L) \/ \E i \in DOMAIN L : ~FileOk(b, L[i], cs.files[i])) THEN "a written specification is another game"
     ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
