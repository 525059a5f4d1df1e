------------------------------- MODULE BigGame -------------------------------
(***************************************************************************)
(* Certificates for large specifications.  GR1Game solves a game by sets   *)
(* of transitions and is limited to a handful of variables.  A correct     *)
(* controller (counterstrategy) is itself a proof that the specification   *)
(* is (un)realizable, and whether it is correct only depends on the        *)
(* transitions it has and on those that it must have: formulas are         *)
(* evaluated here on single transitions, so that the number of variables   *)
(* does not matter much.                                                   *)
(*                                                                         *)
(* A valuation is a sequence of Booleans, inputs first; a transition is    *)
(* the sequence of both valuations.                                        *)
(***************************************************************************)
EXTENDS SlugsInput

(* --- formulas, compiled: code and, for every index, the index behind the
   subformula that starts there --- *)
AND == -1   OR == -2   XOR == -3   NOT == -4   BUF == -5   REC == -6   NUM == -7
CodeOf(ix, tok) ==
  TLCEval([k \in 1..Len(tok) |->
     IF k > 1 /\ tok[k-1] \in {"$", "?"} THEN <<NUM, NumTable[tok[k]]>>
     ELSE CASE tok[k] = "&" -> <<AND, 0>> [] tok[k] = "|" -> <<OR, 0>> [] tok[k] = "^" -> <<XOR, 0>>
            [] tok[k] = "!" -> <<NOT, 0>> [] tok[k] = "$" -> <<BUF, 0>> [] tok[k] = "?" -> <<REC, 0>>
            [] tok[k] = "0" -> <<0, 0>> [] tok[k] = "1" -> <<1, 0>>
            [] OTHER -> <<2, ix[tok[k]]>>])
(* number of subformulas behind the operator at k *)
Arity(code, k) == LET o == code[k][1] IN
  IF o \in {AND, OR, XOR} THEN 2 ELSE IF o = NOT THEN 1 ELSE IF o = BUF THEN code[k+1][2] ELSE 0
Args(code, k) == IF code[k][1] \in {BUF, REC} THEN k+2 ELSE k+1
RECURSIVE Skip(_, _, _), NextFrom(_, _, _)
Skip(nx, k, m) == IF m = 0 THEN k ELSE Skip(nx, nx[k], m - 1)
(* filled from right to left *)
NextFrom(code, k, nx) ==
  IF k = 0 THEN nx
  ELSE IF code[k][1] = NUM THEN NextFrom(code, k-1, [nx EXCEPT ![k] = k+1])
  ELSE NextFrom(code, k-1, [nx EXCEPT ![k] = Skip(nx, Args(code, k), Arity(code, k))])
Compile(ix, tok) == LET code == CodeOf(ix, tok) IN
  [code |-> code, nx |-> TLCEval(NextFrom(code, Len(code), [k \in 1..Len(code) |-> 0]))]

RECURSIVE Ev(_, _, _, _), EvBuf(_, _, _, _, _)
Ev(f, k, v, mem) ==
  LET o == f.code[k][1] IN
  IF o = 2 THEN v[f.code[k][2]]
  ELSE IF o = AND THEN Ev(f, k+1, v, mem) /\ Ev(f, f.nx[k+1], v, mem)
  ELSE IF o = OR THEN Ev(f, k+1, v, mem) \/ Ev(f, f.nx[k+1], v, mem)
  ELSE IF o = NOT THEN ~Ev(f, k+1, v, mem)
  ELSE IF o = XOR THEN Ev(f, k+1, v, mem) # Ev(f, f.nx[k+1], v, mem)
  ELSE IF o = BUF THEN EvBuf(f, k+2, v, << >>, f.code[k+1][2])
  ELSE IF o = REC THEN mem[f.code[k+1][2] + 1]
  ELSE o = 1
EvBuf(f, k, v, mem, n) ==
  LET m == TLCEval(Append(mem, Ev(f, k, v, mem))) IN
  IF Len(m) = n THEN m[n] ELSE EvBuf(f, f.nx[k], v, m, n)
Holds(f, v) == Ev(f, 1, v, << >>)
AllHold(fs, v) == \A k \in 1..Len(fs) : Holds(fs[k], v)

(* --- a specification --- *)
BigOf(st) ==
  LET ins == Inputs(st.vars)  outs == Outputs(st.vars)
      n == Len(ins) + Len(outs)
      nm == [k \in 1..n |-> IF k <= Len(ins) THEN ins[k].name ELSE outs[k - Len(ins)].name]
      all == [k \in 1..(2*n) |-> IF k <= n THEN nm[k] ELSE nm[k-n] \o "'"]
      ix == TLCEval([s \in {all[k] : k \in 1..(2*n)} |-> CHOOSE k \in 1..(2*n) : all[k] = s])
      comp(s) == TLCEval([k \in 1..Len(st.fm[s]) |-> Compile(ix, st.fm[s][k])])
      truth == <<Compile(ix, <<"1">>)>>
      live(s) == IF st.fm[s] = << >> THEN truth ELSE comp(s)
  IN [nI |-> Len(ins), nO |-> Len(outs), n |-> n,
      IE |-> comp("ENV_INIT"), IS |-> comp("SYS_INIT"), E |-> comp("ENV_TRANS"), S |-> comp("SYS_TRANS"),
      A |-> live("ENV_LIVENESS"), G |-> live("SYS_LIVENESS")]

Bit(z, k) == (z \div Pow2[k-1]) % 2 = 1
Vals(m) == 0..(Pow2[m] - 1)
Bits(z, m) == [k \in 1..m |-> Bit(z, k)]
ZeroSeq(m) == [k \in 1..m |-> FALSE]
InPart(b, v) == SubSeq(v, 1, b.nI)
InCode(b, v) == LET RECURSIVE C(_) C(k) == IF k > b.nI THEN 0 ELSE (IF v[k] THEN Pow2[k-1] ELSE 0) + C(k+1) IN C(1)
Trn(p, q) == p \o q

(* the next inputs that E allows at position p; E never mentions next outputs *)
LegalIn(b, p) == {x \in Vals(b.nI) : AllHold(b.E, Trn(p, Bits(x, b.nI) \o ZeroSeq(b.nO)))}
(* admissible initial inputs; ENV_INIT mentions no outputs *)
StartIn(b) == {x \in Vals(b.nI) : AllHold(b.IE, Bits(x, b.nI) \o ZeroSeq(b.n + b.nO))}
IsStart(b, p) == AllHold(b.IS, Trn(p, ZeroSeq(b.n)))

(* --- graphs: nodes [val, rank, succ]; the flags of an edge n -> succ[n][k] --- *)
Flags(b, fs, raw) ==
  TLCEval([n \in 1..Len(raw) |-> [k \in 1..Len(raw[n].succ) |->
     {i \in 1..Len(fs) : Holds(fs[i], Trn(raw[n].val, raw[raw[n].succ[k]].val))}]])
EdgeIx(raw, n) == 1..Len(raw[n].succ)

(* nodes with an infinite run of edges in ok that has, for every i in I,
   infinitely many edges with i in fl *)
RECURSIVE BReach(_, _, _, _, _, _), BAll(_, _, _, _, _), BNu(_, _, _, _, _)
BReach(raw, ok, fl, i, Z, R) ==
  LET R2 == TLCEval(R \cup {n \in Z : \E k \in ok[n] : LET m == raw[n].succ[k] IN
                                    m \in R \/ (m \in Z /\ i \in fl[n][k])}) IN
  IF R2 = R THEN R ELSE BReach(raw, ok, fl, i, Z, R2)
BAll(raw, ok, fl, I, Z) ==
  IF I = {} THEN Z ELSE LET i == CHOOSE i \in I : TRUE IN BAll(raw, ok, fl, I \ {i}, BReach(raw, ok, fl, i, Z, {}))
BNu(raw, ok, fl, I, Z) == LET Z2 == BAll(raw, ok, fl, I, Z) IN IF Z2 = Z THEN Z ELSE BNu(raw, ok, fl, I, Z2)
===============================================================================
