------------------------------ MODULE StructuredLang ------------------------------
(***************************************************************************)
(* The structured specification language (doc/input_formats.md).              *)
(*                                                                           *)
(* Formulas are infix, over Boolean variables and comparisons of sums of      *)
(* integer variables and numerals; they are given as token sequences and are  *)
(* parsed and evaluated here with the documented precedences                   *)
(*       ! X  >  &  >  |  >  ^  >  ->  >  <->  .                               *)
(* An integer variable v: lo...hi becomes bits v@0.lo.hi, v@1, ... that hold   *)
(* v-lo in binary.  The variable keeps to its range initially and in every    *)
(* next step: as an assumption for inputs, as a guarantee for outputs.        *)
(*                                                                           *)
(* decls is the sequence of declarations [name, out, int, lo, hi]; Encode      *)
(* gives the bit positions and the context in which formulas are evaluated.   *)
(***************************************************************************)
EXTENDS SlugsInput

BitCount(d) == IF ~d.int THEN 1 ELSE CHOOSE b \in 0..8 : Pow2[b] > d.hi - d.lo /\ (b = 0 \/ Pow2[b-1] <= d.hi - d.lo)
BitName(d, i) == d.name \o "@" \o ToString(i) \o (IF i = 0 THEN "." \o ToString(d.lo) \o "." \o ToString(d.hi) ELSE "")
BitNames(d) == IF d.int THEN [i \in 1..BitCount(d) |-> BitName(d, i-1)] ELSE << d.name >>

Fail == [nxt |-> 0, set |-> {}]
FailN == [nxt |-> 0, val |-> << >>, width |-> -1]
At(tok, i) == IF i >= 1 /\ i <= Len(tok) THEN tok[i] ELSE ""

NextOps == {"X", "next", "()"}
NotOps == {"!", "~"}
AndOps == {"&", "&&", "/\\"}
OrOps == {"|", "||", "\\/"}
ImpOps == {"->", "-->"}
IffOps == {"<->", "<-->"}
CmpOps == {"=", "!=", "<", "<=", ">", ">="}

(* ctx: full (the transitions), bool (name -> set, primed names too), num
   (integer name -> value per transition, primed names too), lim (integer
   name -> [bits, lo]). primed: inside of the scope of a next operator. *)
LitOf(ctx, nm, primed) == IF primed THEN nm \o "'" ELSE nm

RECURSIVE NumE(_, _, _, _), NumM(_, _, _, _), NumA(_, _, _, _)
(* sums *)
NumE(ctx, tok, i, pr) ==
  LET a == NumM(ctx, tok, i, pr) IN
  IF a.nxt = 0 THEN FailN
  ELSE IF At(tok, a.nxt) # "+" THEN a
  ELSE LET b == NumE(ctx, tok, a.nxt + 1, pr) IN
       IF b.nxt = 0 THEN FailN ELSE [nxt |-> b.nxt, val |-> TLCEval([t \in ctx.full |-> a.val[t] + b.val[t]]), width |-> -1]
(* overwriting the low bits of the right operand by the left one *)
NumM(ctx, tok, i, pr) ==
  LET a == NumA(ctx, tok, i, pr) IN
  IF a.nxt = 0 \/ At(tok, a.nxt) # "LEASTSIGNIFICANTBITOVERWRITES" THEN a
  ELSE LET b == NumA(ctx, tok, a.nxt + 1, pr) IN
       IF b.nxt = 0 THEN FailN
       ELSE IF a.width < 0 \/ b.width < 0 \/ a.width >= b.width THEN FailN
       ELSE [nxt |-> b.nxt, width |-> -1, val |-> TLCEval([t \in ctx.full |-> a.val[t] + (b.val[t] - (b.val[t] % Pow2[a.width]))])]
NumA(ctx, tok, i, pr) ==
  LET w == At(tok, i) IN
  IF IsNum(w) THEN [nxt |-> i+1, val |-> [t \in ctx.full |-> NumTable[w]],
                    width |-> CHOOSE b \in 0..9 : Pow2[b] > NumTable[w] /\ (b = 0 \/ Pow2[b-1] <= NumTable[w])]
  ELSE IF LitOf(ctx, w, pr) \in DOMAIN ctx.num
       THEN [nxt |-> i+1, val |-> ctx.num[LitOf(ctx, w, pr)], width |-> ctx.lim[LitOf(ctx, w, pr)]]
  ELSE IF w = "(" THEN LET e == NumE(ctx, tok, i+1, pr) IN IF e.nxt = 0 \/ At(tok, e.nxt) # ")" THEN FailN ELSE [e EXCEPT !.nxt = @ + 1, !.width = -1]
  ELSE FailN

Compare(op, x, y) == CASE op = "=" -> x = y [] op = "!=" -> x # y [] op = "<" -> x < y [] op = "<=" -> x <= y [] op = ">" -> x > y [] op = ">=" -> x >= y

RECURSIVE Iff(_, _, _, _), Imp(_, _, _, _), XorE(_, _, _, _), Or(_, _, _, _), And(_, _, _, _), Un(_, _, _, _),
          IffT(_, _, _, _), ImpT(_, _, _, _), XorT(_, _, _, _), OrT(_, _, _, _), AndT(_, _, _, _)
IffT(ctx, tok, a, pr) == IF a.nxt = 0 \/ At(tok, a.nxt) \notin IffOps THEN a
  ELSE LET b == Imp(ctx, tok, a.nxt + 1, pr) IN IF b.nxt = 0 THEN Fail ELSE IffT(ctx, tok, [nxt |-> b.nxt, set |-> (a.set \cap b.set) \cup (ctx.full \ (a.set \cup b.set))], pr)
Iff(ctx, tok, i, pr) == IffT(ctx, tok, Imp(ctx, tok, i, pr), pr)
ImpT(ctx, tok, a, pr) == IF a.nxt = 0 \/ At(tok, a.nxt) \notin ImpOps THEN a
  ELSE LET b == XorE(ctx, tok, a.nxt + 1, pr) IN IF b.nxt = 0 THEN Fail ELSE ImpT(ctx, tok, [nxt |-> b.nxt, set |-> (ctx.full \ a.set) \cup b.set], pr)
Imp(ctx, tok, i, pr) == ImpT(ctx, tok, XorE(ctx, tok, i, pr), pr)
XorT(ctx, tok, a, pr) == IF a.nxt = 0 \/ At(tok, a.nxt) # "^" THEN a
  ELSE LET b == Or(ctx, tok, a.nxt + 1, pr) IN IF b.nxt = 0 THEN Fail ELSE XorT(ctx, tok, [nxt |-> b.nxt, set |-> (a.set \ b.set) \cup (b.set \ a.set)], pr)
XorE(ctx, tok, i, pr) == XorT(ctx, tok, Or(ctx, tok, i, pr), pr)
OrT(ctx, tok, a, pr) == IF a.nxt = 0 \/ At(tok, a.nxt) \notin OrOps THEN a
  ELSE LET b == And(ctx, tok, a.nxt + 1, pr) IN IF b.nxt = 0 THEN Fail ELSE OrT(ctx, tok, [nxt |-> b.nxt, set |-> a.set \cup b.set], pr)
Or(ctx, tok, i, pr) == OrT(ctx, tok, And(ctx, tok, i, pr), pr)
AndT(ctx, tok, a, pr) == IF a.nxt = 0 \/ At(tok, a.nxt) \notin AndOps THEN a
  ELSE LET b == Un(ctx, tok, a.nxt + 1, pr) IN IF b.nxt = 0 THEN Fail ELSE AndT(ctx, tok, [nxt |-> b.nxt, set |-> a.set \cap b.set], pr)
And(ctx, tok, i, pr) == AndT(ctx, tok, Un(ctx, tok, i, pr), pr)
Un(ctx, tok, i, pr) ==
  LET w == At(tok, i) IN
  IF w \in NotOps THEN LET a == Un(ctx, tok, i+1, pr) IN IF a.nxt = 0 THEN Fail ELSE [a EXCEPT !.set = ctx.full \ @]
  ELSE IF w \in NextOps THEN (IF pr THEN Fail ELSE Un(ctx, tok, i+1, TRUE))
  ELSE IF w = "TRUE" THEN [nxt |-> i+1, set |-> ctx.full]
  ELSE IF w = "FALSE" THEN [nxt |-> i+1, set |-> {}]
  ELSE IF LitOf(ctx, w, pr) \in DOMAIN ctx.bool THEN [nxt |-> i+1, set |-> ctx.bool[LitOf(ctx, w, pr)]]
  ELSE LET a == NumE(ctx, tok, i, pr) IN
       IF a.nxt # 0 /\ At(tok, a.nxt) \in CmpOps
       THEN LET b == NumE(ctx, tok, a.nxt + 1, pr) IN
            IF b.nxt = 0 THEN Fail ELSE [nxt |-> b.nxt, set |-> TLCEval({t \in ctx.full : Compare(tok[a.nxt], a.val[t], b.val[t])})]
       ELSE IF w \in {"(", "["}
            THEN LET e == Iff(ctx, tok, i+1, pr) IN IF e.nxt = 0 \/ At(tok, e.nxt) # (IF w = "(" THEN ")" ELSE "]") THEN Fail ELSE [e EXCEPT !.nxt = @ + 1]
            ELSE Fail

InfixOk(ctx, tok) == Iff(ctx, tok, 1, FALSE).nxt = Len(tok) + 1


(* the bits: inputs first, each in order of declaration *)
BitsOf(ds, o) == LET RECURSIVE Bs(_) Bs(k) == IF k > Len(ds) THEN << >> ELSE (IF ds[k].out = o THEN BitNames(ds[k]) ELSE << >>) \o Bs(k+1) IN Bs(1)

Encode(ds) ==
  LET names == TLCEval(BitsOf(ds, FALSE) \o BitsOf(ds, TRUE))
      nb == Len(names)
      N == Pow2[nb]
      full == 0..(N*N - 1)
      B(k) == {t \in full : (t \div Pow2[k]) % 2 = 1}
      posOf == TLCEval([nm \in {names[k] : k \in DOMAIN names} |-> (CHOOSE k \in DOMAIN names : names[k] = nm) - 1])
      boolNames == {names[k] : k \in DOMAIN names}
      bool == TLCEval([nm \in boolNames \cup {x \o "'" : x \in boolNames} |-> IF nm \in boolNames THEN B(posOf[nm]) ELSE B(nb + posOf[SubSeq(nm, 1, Len(nm)-1)])])
      ivs == SelectSeq(ds, LAMBDA d : d.int)
      NumOf(d, sh) == LET bn == BitNames(d)
                          RECURSIVE V(_, _)
                          V(t, k) == IF k > Len(bn) THEN 0 ELSE ((t \div Pow2[posOf[bn[k]] + sh]) % 2) * Pow2[k-1] + V(t, k+1)
                      IN [t \in full |-> d.lo + V(t, 1)]
      ivNames == {ivs[k].name : k \in DOMAIN ivs}
      IvOf(nm) == ivs[CHOOSE k \in DOMAIN ivs : ivs[k].name = nm]
      num == TLCEval([nm \in ivNames \cup {x \o "'" : x \in ivNames} |-> IF nm \in ivNames THEN NumOf(IvOf(nm), 0) ELSE NumOf(IvOf(SubSeq(nm, 1, Len(nm)-1)), nb)])
      lim == TLCEval([nm \in DOMAIN num |-> LET d == IF nm \in ivNames THEN IvOf(nm) ELSE IvOf(SubSeq(nm, 1, Len(nm)-1)) IN IF d.lo = 0 THEN BitCount(d) ELSE -1])
      plain == {ds[k].name : k \in {k \in DOMAIN ds : ~ds[k].int}}
      InR(out, primed) == {t \in full : \A k \in DOMAIN ivs : ivs[k].out = out => num[IF primed THEN ivs[k].name \o "'" ELSE ivs[k].name][t] <= ivs[k].hi}
  IN [names |-> names, N |-> N, full |-> full, bool |-> bool, posOf |-> posOf,
      ctx |-> [full |-> full, bool |-> [nm \in plain \cup {x \o "'" : x \in plain} |-> bool[nm]], num |-> num, lim |-> lim],
      kinds |-> TLCEval([nm \in DOMAIN bool |-> PreI]),
      (* the variables keep to their ranges *)
      nowI |-> TLCEval(InR(FALSE, FALSE)), nowO |-> TLCEval(InR(TRUE, FALSE)),
      nextI |-> TLCEval(InR(FALSE, TRUE)), nextO |-> TLCEval(InR(TRUE, TRUE))]

(* A formula is in prefix (slugsin) form over the bits, or infix.  A line that
   starts with a bracket would be the head of a section. *)
IsPrefixForm(e, f) == Chk(e.kinds, f.ptok, 1, {PreI}, 0) = Len(f.ptok) + 1
WellFormedLine(e, f) == f.tok[1] \notin {"[", "[]"} /\ (IsPrefixForm(e, f) \/ InfixOk(e.ctx, f.tok))
MeaningOf(e, f) == IF IsPrefixForm(e, f) THEN Den(e.bool, e.full, f.ptok, 1, << >>).set ELSE Iff(e.ctx, f.tok, 1, FALSE).set
RECURSIVE AllOf(_, _, _)
AllOf(e, fs, k) == IF k > Len(fs) THEN e.full ELSE MeaningOf(e, fs[k]) \cap AllOf(e, fs, k+1)

(* The game that a well-formed structured specification stands for. *)
StructuredGame(ds, forms) ==
  LET e == Encode(ds)
      Pts(S) == {t \in S : t < e.N}
      Lv(s) == IF forms[s] = << >> THEN << e.full >> ELSE TLCEval([k \in DOMAIN forms[s] |-> MeaningOf(e, forms[s][k])])
      nI == Len(BitsOf(ds, FALSE))
      nO == Len(BitsOf(ds, TRUE))
  IN [nI |-> nI, nO |-> nO, NX |-> Pow2[nI], NY |-> Pow2[nO], N |-> e.N, full |-> e.full,
      IE |-> TLCEval(Pts(AllOf(e, forms["ENV_INIT"], 1) \cap e.nowI)),
      IS |-> TLCEval(Pts(AllOf(e, forms["SYS_INIT"], 1) \cap e.nowO)),
      E |-> TLCEval(AllOf(e, forms["ENV_TRANS"], 1) \cap e.nextI),
      S |-> TLCEval(AllOf(e, forms["SYS_TRANS"], 1) \cap e.nextO),
      A |-> TLCEval(Lv("ENV_LIVENESS")), G |-> TLCEval(Lv("SYS_LIVENESS"))]
===============================================================================
