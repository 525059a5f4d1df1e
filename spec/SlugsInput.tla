------------------------------ MODULE SlugsInput ------------------------------
(***************************************************************************)
(* The slugsin input language (doc/input_formats.md): what a specification *)
(* file means.                                                             *)
(*                                                                         *)
(* A file is given as a sequence of lines; a line is a record              *)
(*   [raw |-> the trimmed line, tok |-> its blank separated tokens].       *)
(* Reading is a left-to-right state machine over the lines (StepLine); its *)
(* result is either a rejection or a Boolean game (operator Denote).       *)
(*                                                                         *)
(* Encoding.  With nI inputs and nO outputs, n = nI+nO, a position is an   *)
(* integer in 0..2^n-1: bit k-1 is the k-th input for k <= nI, bit nI+k-1  *)
(* the k-th output.  A transition (p,q) is the integer p + 2^n * q.        *)
(* Boolean functions are denoted by sets of transitions.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pow2[k \in 0..30] == IF k = 0 THEN 1 ELSE 2 * Pow2[k-1]

(* kinds of variables *)
PreI == "PreInput"   PostI == "PostInput"
PreO == "PreOutput"  PostO == "PostOutput"

SectionOf(raw) ==
  CASE raw = "[INPUT]"        -> "INPUT"
    [] raw = "[OUTPUT]"       -> "OUTPUT"
    [] raw = "[ENV_INIT]"     -> "ENV_INIT"
    [] raw = "[SYS_INIT]"     -> "SYS_INIT"
    [] raw = "[ENV_TRANS]"    -> "ENV_TRANS"
    [] raw = "[SYS_TRANS]"    -> "SYS_TRANS"
    [] raw = "[ENV_LIVENESS]" -> "ENV_LIVENESS"
    [] raw = "[SYS_LIVENESS]" -> "SYS_LIVENESS"
    [] OTHER                  -> "BAD"

(* which kinds of variables a formula in a section may mention *)
Allowed(sec) ==
  CASE sec = "ENV_INIT"  -> {PreI}
    [] sec = "SYS_INIT"  -> {PreI, PreO}
    [] sec = "ENV_TRANS" -> {PreI, PreO, PostI}
    [] OTHER             -> {PreI, PreO, PostI, PostO}

(* decimal numerals that may follow $ and ? *)
NumTable == [s \in {ToString(k) : k \in 0..400} |-> CHOOSE k \in 0..400 : ToString(k) = s]
IsNum(s) == s \in DOMAIN NumTable

FirstChar(s) == SubSeq(s, 1, 1)

(***************************************************************************)
(* Variables: a sequence of [name, out] records in order of declaration.   *)
(***************************************************************************)
Inputs(vars)  == SelectSeq(vars, LAMBDA v : ~v.out)
Outputs(vars) == SelectSeq(vars, LAMBDA v : v.out)

(* all names, in order of declaration, primed copy right after the plain one *)
NameList(vars) ==
  [k \in 1..(2*Len(vars)) |->
     LET v == vars[(k+1) \div 2] IN
     IF k % 2 = 1 THEN [name |-> v.name, kind |-> IF v.out THEN PreO ELSE PreI]
                  ELSE [name |-> v.name \o "'", kind |-> IF v.out THEN PostO ELSE PostI]]

Names(vars) == {NameList(vars)[k].name : k \in 1..(2*Len(vars))}
KindsOf(vars, nm) ==
  LET nl == NameList(vars)
      ix == {k \in DOMAIN nl : nl[k].name = nm}
  IN  nl[CHOOSE k \in ix : \A l \in ix : k <= l].kind
KindTable(vars) == TLCEval([nm \in Names(vars) |-> KindsOf(vars, nm)])

(***************************************************************************)
(* Formulas.  Chk scans a prefix formula and yields the index of the first *)
(* token behind it, or 0 if the text is not a formula.  `stored' is the    *)
(* number of elements of the innermost open memory buffer so far.          *)
(***************************************************************************)
RECURSIVE Chk(_, _, _, _, _), ChkBuf(_, _, _, _, _, _)
Chk(kinds, tok, i, allowed, stored) ==
  IF i = 0 \/ i > Len(tok) THEN 0
  ELSE LET op == tok[i] IN
    CASE op \in {"&", "|", "^"} ->
           Chk(kinds, tok, Chk(kinds, tok, i+1, allowed, stored), allowed, stored)
      [] op = "!" -> Chk(kinds, tok, i+1, allowed, stored)
      [] op \in {"0", "1"} -> i+1
      [] op = "$" -> IF i+1 > Len(tok) THEN 0
                     ELSE IF ~IsNum(tok[i+1]) THEN 0
                     ELSE IF NumTable[tok[i+1]] = 0 THEN 0
                     ELSE ChkBuf(kinds, tok, i+2, allowed, 0, NumTable[tok[i+1]])
      [] op = "?" -> IF i+1 > Len(tok) THEN 0
                     ELSE IF ~IsNum(tok[i+1]) THEN 0
                     ELSE IF NumTable[tok[i+1]] >= stored THEN 0
                     ELSE i+2
      [] OTHER -> IF op \notin DOMAIN kinds THEN 0
                  ELSE IF kinds[op] \notin allowed THEN 0
                  ELSE i+1
ChkBuf(kinds, tok, i, allowed, stored, n) ==
  IF i = 0 THEN 0
  ELSE IF stored = n THEN i
  ELSE ChkBuf(kinds, tok, Chk(kinds, tok, i, allowed, stored), allowed, stored+1, n)

WellFormed(vars, tok, allowed) == Chk(KindTable(vars), tok, 1, allowed, 0) = Len(tok) + 1

(* The denotation of a well-formed formula. lit maps names to sets, full is
   the set of all transitions, mem the buffer built so far. *)
RECURSIVE Den(_, _, _, _, _), DenBuf(_, _, _, _, _, _)
Den(lit, full, tok, i, mem) ==
  LET op == tok[i] IN
    CASE op = "&" -> LET a == Den(lit, full, tok, i+1, mem)
                         b == Den(lit, full, tok, a.nxt, mem)
                     IN [nxt |-> b.nxt, set |-> a.set \cap b.set]
      [] op = "|" -> LET a == Den(lit, full, tok, i+1, mem)
                         b == Den(lit, full, tok, a.nxt, mem)
                     IN [nxt |-> b.nxt, set |-> a.set \cup b.set]
      [] op = "^" -> LET a == Den(lit, full, tok, i+1, mem)
                         b == Den(lit, full, tok, a.nxt, mem)
                     IN [nxt |-> b.nxt, set |-> (a.set \ b.set) \cup (b.set \ a.set)]
      [] op = "!" -> LET a == Den(lit, full, tok, i+1, mem)
                     IN [nxt |-> a.nxt, set |-> full \ a.set]
      [] op = "1" -> [nxt |-> i+1, set |-> full]
      [] op = "0" -> [nxt |-> i+1, set |-> {}]
      [] op = "$" -> DenBuf(lit, full, tok, i+2, << >>, NumTable[tok[i+1]])
      [] op = "?" -> [nxt |-> i+2, set |-> mem[NumTable[tok[i+1]] + 1]]
      [] OTHER -> [nxt |-> i+1, set |-> lit[op]]
DenBuf(lit, full, tok, i, mem, n) ==
  LET a == Den(lit, full, tok, i, mem)
      m == Append(mem, a.set)
  IN  IF Len(m) = n THEN [nxt |-> a.nxt, set |-> m[n]]
      ELSE DenBuf(lit, full, tok, a.nxt, m, n)

(***************************************************************************)
(* Reading a file line by line.                                            *)
(***************************************************************************)
FormulaSections == {"ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS",
                    "ENV_LIVENESS", "SYS_LIVENESS"}

ReaderInit == [mode |-> "NONE", vars |-> << >>, err |-> "",
               fm |-> [s \in FormulaSections |-> << >>]]

StepLine(st, line) ==
  IF st.err # "" THEN st
  ELSE IF Len(line.raw) = 0 THEN st
  ELSE IF FirstChar(line.raw) = "#" THEN st
  ELSE IF FirstChar(line.raw) = "["
       THEN IF SectionOf(line.raw) = "BAD" THEN [st EXCEPT !.err = "unknown section"]
            ELSE [st EXCEPT !.mode = SectionOf(line.raw)]
  ELSE IF st.mode = "NONE" THEN [st EXCEPT !.err = "line outside of any section"]
  ELSE IF st.mode \in {"INPUT", "OUTPUT"}
       THEN [st EXCEPT !.vars = Append(@, [name |-> line.raw, out |-> st.mode = "OUTPUT"])]
  ELSE IF WellFormed(st.vars, line.tok, Allowed(st.mode))
       THEN [st EXCEPT !.fm[st.mode] = Append(@, line.tok)]
       ELSE [st EXCEPT !.err = "malformed formula"]

RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, lines, k) == IF k > Len(lines) THEN st
                          ELSE ReadFrom(StepLine(st, lines[k]), lines, k+1)
Read(lines) ==
  LET st == ReadFrom(ReaderInit, lines, 1) IN
  IF st.err # "" THEN st
  ELSE IF Cardinality(Names(st.vars)) # 2*Len(st.vars) THEN [st EXCEPT !.err = "duplicate name"]
  ELSE st

Accepted(lines) == Read(lines).err = ""

(***************************************************************************)
(* The game denoted by an accepted file.                                   *)
(***************************************************************************)
RECURSIVE ConjAll(_, _, _)
ConjAll(lit, full, fs) ==
  IF fs = << >> THEN full
  ELSE Den(lit, full, Head(fs), 1, << >>).set \cap ConjAll(lit, full, Tail(fs))

Each(lit, full, fs) == [k \in 1..Len(fs) |-> Den(lit, full, fs[k], 1, << >>).set]

Denote(st) ==
  LET nI   == Len(Inputs(st.vars))
      nO   == Len(Outputs(st.vars))
      n    == nI + nO
      N    == Pow2[n]
      full == 0..(N*N - 1)
      bitset(k) == {t \in full : (t \div Pow2[k]) % 2 = 1}
      inB  == [k \in 1..nI |-> Inputs(st.vars)[k].name]
      outB == [k \in 1..nO |-> Outputs(st.vars)[k].name]
      pos  == [nm \in {inB[k] : k \in 1..nI} \cup {outB[k] : k \in 1..nO} |->
                 IF \E k \in 1..nI : inB[k] = nm
                 THEN (CHOOSE k \in 1..nI : inB[k] = nm) - 1
                 ELSE nI + (CHOOSE k \in 1..nO : outB[k] = nm) - 1]
      lit  == TLCEval([nm \in Names(st.vars) |->
                 IF nm \in DOMAIN pos THEN bitset(pos[nm])
                 ELSE bitset(n + pos[SubSeq(nm, 1, Len(nm)-1)])])
      live(s) == IF st.fm[s] = << >> THEN << full >> ELSE Each(lit, full, st.fm[s])
  IN  [ nI |-> nI, nO |-> nO, NX |-> Pow2[nI], NY |-> Pow2[nO], N |-> N,
        full |-> full,
        IE |-> {p \in 0..(N-1) : p \in ConjAll(lit, full, st.fm["ENV_INIT"])},
        IS |-> {p \in 0..(N-1) : p \in ConjAll(lit, full, st.fm["SYS_INIT"])},
        E  |-> ConjAll(lit, full, st.fm["ENV_TRANS"]),
        S  |-> ConjAll(lit, full, st.fm["SYS_TRANS"]),
        A  |-> live("ENV_LIVENESS"),
        G  |-> live("SYS_LIVENESS") ]

GameOf(lines) == Denote(Read(lines))
===============================================================================
