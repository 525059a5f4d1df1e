-------------------------------- MODULE Estimator --------------------------------
(***************************************************************************)
(* Belief space abstraction for synthesis under incomplete information       *)
(* (--computeIncompleteInformationEstimator).                                *)
(*                                                                           *)
(* A domain has observable, unobservable and controllable inputs and outputs  *)
(* (the estimates).  ENV_TRANS says how the domain may evolve, SYS_TRANS how  *)
(* the estimates have to relate to it.  The result consists of                *)
(*  - an update constraint on the estimates that does not mention anything    *)
(*    unobservable: an update is allowed iff it respects SYS_TRANS whatever   *)
(*    the unobservable values are, given how the current position can be      *)
(*    reached; of the updates of estimates called min_/max_ only the tightest *)
(*    ones remain;                                                            *)
(*  - an assumption about the next observable inputs: those that are possible *)
(*    for some unobservable values that go with the current position when     *)
(*    estimates are updated in that way.                                      *)
(*                                                                           *)
(* Case: lines; accepted; sys, env (tokens of the printed constraints);       *)
(* envDead, sysDead (warnings); ints (integer variables: [name, post, est,    *)
(* lo, hi, bits] in order of declaration, pre and post); diffs, a sequence of *)
(* [sim, ref, lo, hi].                                                        *)
(***************************************************************************)
EXTENDS SlugsInput, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict

VarSections == {"[OBSERVABLE_INPUT]", "[UNOBSERVABLE_INPUT]", "[CONTROLLABLE_INPUT]", "[OUTPUT]"}
KindOf(sec) == CASE sec = "[OBSERVABLE_INPUT]" -> "O" [] sec = "[UNOBSERVABLE_INPUT]" -> "U" [] sec = "[CONTROLLABLE_INPUT]" -> "C" [] sec = "[OUTPUT]" -> "E"
FormSections == {"[ENV_INIT]", "[SYS_INIT]", "[ENV_TRANS]", "[SYS_TRANS]"}
AllowedIn(sec) ==
  CASE sec = "[ENV_INIT]"  -> {"O", "C", "U"}
    [] sec = "[SYS_INIT]"  -> {"O", "C", "U", "E"}
    [] sec = "[ENV_TRANS]" -> {"O", "C", "U", "E", "O'", "C'", "U'"}
    [] sec = "[SYS_TRANS]" -> {"O", "C", "U", "E", "O'", "C'", "U'", "E'"}

EKinds(vs) == TLCEval([nm \in {vs[k].name : k \in DOMAIN vs} \cup {vs[k].name \o "'" : k \in DOMAIN vs} |->
   LET ix == {k \in DOMAIN vs : vs[k].name = nm \/ vs[k].name \o "'" = nm}
       k == CHOOSE k \in ix : TRUE
   IN IF vs[k].name = nm THEN vs[k].kind ELSE vs[k].kind \o "'"])

EInit == [mode |-> "NONE", vars |-> << >>, err |-> "", fm |-> [s \in FormSections |-> << >>]]
EStep(st, line) ==
  IF st.err # "" \/ Len(line.raw) = 0 THEN st
  ELSE IF FirstChar(line.raw) = "#" THEN st
  ELSE IF FirstChar(line.raw) = "["
       THEN IF line.raw \in VarSections \cup FormSections THEN [st EXCEPT !.mode = line.raw] ELSE [st EXCEPT !.err = "unknown section"]
  ELSE IF st.mode = "NONE" THEN [st EXCEPT !.err = "line outside of any section"]
  ELSE IF st.mode \in VarSections THEN [st EXCEPT !.vars = Append(@, [name |-> line.raw, kind |-> KindOf(st.mode)])]
  ELSE IF Chk(EKinds(st.vars), line.tok, 1, AllowedIn(st.mode), 0) = Len(line.tok) + 1
       THEN [st EXCEPT !.fm[st.mode] = Append(@, line.tok)]
       ELSE [st EXCEPT !.err = "malformed formula"]
RECURSIVE EFrom(_, _, _)
EFrom(st, lines, k) == IF k > Len(lines) THEN st ELSE EFrom(EStep(st, lines[k]), lines, k+1)

(* set bits of t among the given bit positions *)
RECURSIVE Masked(_, _, _)
Masked(t, bs, k) == IF k > Len(bs) THEN 0 ELSE ((t \div Pow2[bs[k]]) % 2) * Pow2[bs[k]] + Masked(t, bs, k+1)

Judge(cs) ==
  LET st == EFrom(EInit, cs.lines, 1)
      vs == st.vars
      n == Len(vs)
      nms == {vs[k].name : k \in DOMAIN vs} \cup {vs[k].name \o "'" : k \in DOMAIN vs}
  IN IF st.err # "" \/ Cardinality(nms) # 2*n THEN (IF cs.accepted THEN "accepted" ELSE "ok")
  ELSE IF ~cs.accepted THEN "rejected"
  ELSE
  LET N == Pow2[n]
      full == 0..(N*N - 1)
      B(k) == {t \in full : (t \div Pow2[k]) % 2 = 1}
      pos == TLCEval([nm \in nms |-> LET k == CHOOSE k \in DOMAIN vs : vs[k].name = nm \/ vs[k].name \o "'" = nm IN IF vs[k].name = nm THEN k - 1 ELSE n + k - 1])
      lit == TLCEval([nm \in nms |-> B(pos[nm])])
      kinds == EKinds(vs)
      BitsOf(K) == SelectSeq([k \in 1..(2*n) |-> k-1], LAMBDA b : (IF b < n THEN vs[b+1].kind ELSE vs[b-n+1].kind \o "'") \in K)
      (* membership of t in the projection of a set T: some t2 in T agrees on the bits of kinds K *)
      view(K) == LET bs == BitsOf(K) IN TLCEval([t \in full |-> Masked(t, bs, 1)])
      seen == view({"O", "C", "E", "O'", "C'", "E'"})
      input == view({"O", "C", "U", "E", "O'", "C'", "U'"})
      visible == view({"O", "C", "E", "O'"})
      Proj(v, T) == LET im == TLCEval({v[t] : t \in T}) IN TLCEval({t \in full : v[t] \in im})
      fm(s) == ConjAll(lit, full, st.fm[s])
      init == {p \in 0..(N-1) : p \in fm("[ENV_INIT]") \cap fm("[SYS_INIT]")}
      ET == TLCEval(fm("[ENV_TRANS]"))
      ST == TLCEval(fm("[SYS_TRANS]"))
      Reach(T) == LET RECURSIVE R(_) R(P) == LET P2 == TLCEval(P \cup {t \div N : t \in {t \in T : (t % N) \in P}}) IN IF P2 = P THEN P ELSE R(P2) IN R(init)
      Out(P) == {t \in full : (t % N) \in P}
      r1 == Reach(ET \cap ST)
      allowed == full \ Proj(seen, (Out(r1) \cap ET) \ ST)
      (* tightest estimates; the bit declared last is the most important one *)
      Tight == LET RECURSIVE Tg(_, _)
                   Tg(k, T) ==
                     IF k = 0 THEN T
                     ELSE IF vs[k].kind # "E" \/ Len(vs[k].name) < 4 THEN Tg(k-1, T)
                     ELSE LET pre == SubSeq(vs[k].name, 1, 4)
                              want == IF pre = "min_" THEN B(n+k-1) ELSE full \ B(n+k-1)
                          IN IF pre \notin {"min_", "max_"} THEN Tg(k-1, T)
                             ELSE LET can == Proj(input, T \cap want) IN Tg(k-1, TLCEval((T \ can) \cup (T \cap want)))
               IN Tg(n, allowed)
      upd == Tight
      r2 == Reach(ET \cap ST \cap upd)
      ass == Proj(visible, Out(r2) \cap ET)
      possible == TLCEval(ET \cap ass \cap upd)
      r3 == Reach(possible)
      envDead == {p \in r3 : \A t \in {t \in full : t % N = p} : t \notin ass}
      hasUpd == Proj(input, upd)
      sysDead == {p \in r3 \ envDead : \E t \in full : t % N = p /\ t \notin hasUpd}
      onlyOver(tok, K) == \A i \in DOMAIN tok : tok[i] \in nms => kinds[tok[i]] \in K
      wf(tok, K) == Chk(kinds, tok, 1, K, 0) = Len(tok) + 1
      SeenK == {"O", "C", "E", "O'", "C'", "E'"}
      VisK == {"O", "C", "E", "O'"}
      (* integer variables *)
      runs == TLCEval({t \in possible : (t % N) \in r3})
      Val(iv, t) == LET RECURSIVE V(_) V(i) == IF i > Len(iv.bits) THEN 0 ELSE ((t \div Pow2[pos[iv.bits[i]]]) % 2) * Pow2[i-1] + V(i+1) IN iv.lo + V(1)
      Diffs(ref, sim) == LET vals == {<<Val(sim, t), Val(ref, t)>> : t \in runs}
                         IN {v[1] - v[2] : v \in {v \in vals : v[1] <= sim.hi /\ v[2] <= ref.hi}}
      DiffOk(d, ref, sim) == LET D == Diffs(ref, sim) IN
         /\ d.sim = sim.name \o "'" /\ d.ref = ref.name \o (IF ref.post THEN "'" ELSE "")
         /\ IF D = {} THEN d.lo = "none" /\ d.hi = "none"
            ELSE /\ \A x \in D : \A y \in D : TRUE
                 /\ d.lo = ToString(CHOOSE x \in D : \A y \in D : x <= y) /\ d.hi = ToString(CHOOSE x \in D : \A y \in D : x >= y)
      iv == cs.ints
      NI == Len(iv)
      pairs == SelectSeq([k \in 1..(NI*NI) |-> <<((k-1) \div NI) + 1, ((k-1) % NI) + 1>>], LAMBDA q : q[1] # q[2] /\ iv[q[2]].post /\ iv[q[2]].est)
  IN IF ~wf(cs.sys, SeenK) THEN "update constraint malformed or over unobservable values"
     ELSE IF ~wf(cs.env, VisK) THEN "assumption malformed or over values that are not visible"
     ELSE LET oSys == TLCEval(Den(lit, full, cs.sys, 1, << >>).set)
              oEnv == TLCEval(Den(lit, full, cs.env, 1, << >>).set)
          IN IF \E t \in ET \cap oSys : (t % N) \in Reach(ET \cap oSys) /\ t \notin ST THEN "estimates can become wrong"
             ELSE IF \E t \in ET \cap oSys : (t % N) \in Reach(ET \cap oSys) /\ t \notin oEnv THEN "assumption can be violated by the domain"
             ELSE IF oSys # upd THEN "update constraint is not the tightest"
             ELSE IF oEnv # ass THEN "assumption is not the tightest"
             ELSE IF cs.envDead # (envDead # {}) THEN "environment dead end warning"
             ELSE IF cs.sysDead # (sysDead # {}) THEN "system dead end warning"
             ELSE IF cs.noInit # (init = {}) THEN "no initial state warning"
             ELSE IF Len(cs.diffs) # Len(pairs) THEN "difference analysis incomplete"
             ELSE IF \E k \in DOMAIN pairs : ~DiffOk(cs.diffs[k], iv[pairs[k][1]], iv[pairs[k][2]]) THEN "difference analysis"
             ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
