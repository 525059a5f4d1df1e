------------------------------ MODULE BddMachine ------------------------------
(***************************************************************************)
(* The abstract machine behind all computations of slugs: registers hold   *)
(* Boolean functions over n variables, instructions combine them, queries  *)
(* ask about them.  A function is the set of its satisfying assignments,   *)
(* an assignment an integer in 0..2^n-1 (bit i = variable i).              *)
(*                                                                         *)
(* A behaviour of this module is the run of one program; every step is     *)
(* compared with what the real library recorded for it: the contents of    *)
(* ALL registers (an instruction changes its target and nothing else,      *)
(* whatever garbage collections and reorderings happened) and the answer   *)
(* to the query.  instructions are records [op, d, a, b, m, ans, regs].    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, pc, reg, verdict

Bit(x, i) == (x \div (2^i)) % 2
All(n) == 0..(2^n - 1)
(* the assignments that agree with x outside of the variables in mask m *)
Range(s) == {s[i] : i \in DOMAIN s}
Clear(x, m) == x - (x & m)
SubMasks(n, m) == {y \in All(n) : y & m = y}

Exists(n, f, m) == {x \in All(n) : \E y \in SubMasks(n, m) : Clear(x, m) + y \in f}
Forall(n, f, m) == {x \in All(n) : \A y \in SubMasks(n, m) : Clear(x, m) + y \in f}

(* the k-th variable of a mask, counted from 0 *)
Vars(n, m) == {i \in 0..(n-1) : Bit(m, i) = 1}
Kth(n, m, k) == CHOOSE i \in Vars(n, m) : Cardinality({j \in Vars(n, m) : j < i}) = k
Partner(n, mx, my, i) ==
  IF i \in Vars(n, mx) THEN Kth(n, my, Cardinality({j \in Vars(n, mx) : j < i}))
  ELSE IF i \in Vars(n, my) THEN Kth(n, mx, Cardinality({j \in Vars(n, my) : j < i}))
  ELSE i
RECURSIVE SumBits(_, _, _)
SumBits(n, p, x) == LET S[k \in 0..n] == IF k = 0 THEN 0 ELSE S[k-1] + Bit(x, p[k-1]) * 2^(k-1) IN S[n]
Swap(n, f, mx, my) ==
  LET p == [i \in 0..(n-1) |-> Partner(n, mx, my, i)] IN {x \in All(n) : SumBits(n, p, x) \in f}

Depends(n, f, i) == \E x \in All(n) : Bit(x, i) = 0 /\ ((x \in f) # (x + 2^i \in f))
Support(n, f) == {i \in 0..(n-1) : Depends(n, f, i)}
CubeSet(n, m, phases) == {x \in All(n) : x & m = phases & m}
Count(n, f, m) == Cardinality({x \in f : Clear(x, m) = 0})

(* what an instruction may write: the set of allowed results *)
Results(n, R, i) ==
  LET A == R[i.a + 1]
      B == R[i.b + 1]
      D == R[i.d + 1]
  IN
  CASE i.op = "const" -> {IF i.a = 1 THEN All(n) ELSE {}}
    [] i.op = "var" -> {{x \in All(n) : Bit(x, i.a) = 1}}
    [] i.op \in {"copy", "move"} -> {A}
    [] i.op = "file" -> {A}
    [] i.op = "self" -> {D}
    [] i.op = "not" -> {All(n) \ A}
    [] i.op = "and" -> {A \cap B}
    [] i.op = "or" -> {A \cup B}
    [] i.op = "xor" -> {(A \ B) \cup (B \ A)}
    [] i.op = "diff" -> {A \ B}
    [] i.op = "implies" -> {(All(n) \ A) \cup B}
    [] i.op = "andassign" -> {D \cap A}
    [] i.op = "orassign" -> {D \cup A}
    [] i.op = "exists" -> {Exists(n, A, i.m)}
    [] i.op = "forall" -> {Forall(n, A, i.m)}
    [] i.op = "exists1" -> {Exists(n, A, 2^i.b)}
    [] i.op = "forall1" -> {Forall(n, A, 2^i.b)}
    [] i.op = "andexists" -> {Exists(n, A \cap B, i.m)}
    [] i.op = "cube" -> {CubeSet(n, i.m, i.b)}
    [] i.op = "swap" -> {Swap(n, A, i.b, i.m)}
    [] i.op = "multiand" -> {{x \in All(n) : \A k \in 1..Len(R) : Bit(i.m, k-1) = 1 => x \in R[k]}}
    [] i.op = "multior" -> {{x \in All(n) : \E k \in 1..Len(R) : Bit(i.m, k-1) = 1 /\ x \in R[k]}}
    [] OTHER -> {}

(* simplification may return anything that agrees on the care set *)
Simplifies(i) == i.op \in {"restrict", "minimize"}
Writes(i) == Simplifies(i) \/ i.op \in {"const", "var", "copy", "move", "self", "not", "and", "or", "xor", "diff", "implies",
   "andassign", "orassign", "exists", "forall", "exists1", "forall1", "andexists", "cube", "swap", "multiand", "multior", "file"}

B01(b) == IF b THEN "1" ELSE "0"
AnswerOK(n, R, i) ==
  LET A == R[i.a + 1]
      B == R[i.b + 1]
  IN
  CASE i.op = "istrue" -> i.ans = B01(A = All(n))
    [] i.op = "isfalse" -> i.ans = B01(A = {})
    [] i.op = "isconst" -> i.ans = B01(A = {} \/ A = All(n))
    [] i.op \in {"eq", "gfp", "hash"} -> i.ans = B01(A = B)
    [] i.op = "ne" -> i.ans = B01(A # B)
    [] i.op = "le" -> i.ans = B01(A \subseteq B)
    [] i.op = "ge" -> i.ans = B01(B \subseteq A)
    [] i.op = "lt" -> i.ans = B01(A \subseteq B /\ A # B)
    [] i.op = "gt" -> i.ans = B01(B \subseteq A /\ A # B)
    [] i.op = "count" -> Support(n, A) \subseteq Vars(n, i.m) => i.ans = ToString(Count(n, A, i.m))
    [] OTHER -> i.ans = "-"

Observed(i) == [k \in 1..Len(i.regs) |-> Range(i.regs[k])]

StepOK(n, R, i) ==
  LET O == Observed(i) IN
  IF i.foreign THEN "a function depends on a variable it cannot depend on"
  ELSE IF ~AnswerOK(n, R, i) THEN "answer " \o i.ans
  ELSE IF \E k \in 1..Len(R) : (~Writes(i) \/ k # i.d + 1) /\ O[k] # R[k] THEN "another register changed"
  ELSE IF ~Writes(i) THEN "ok"
  ELSE IF Simplifies(i) THEN
       (IF O[i.d + 1] \cap R[i.b + 1] = R[i.a + 1] \cap R[i.b + 1] THEN "ok" ELSE "simplification differs on the care set")
  ELSE IF O[i.d + 1] \in Results(n, R, i) THEN "ok" ELSE "wrong result"

Init == /\ c \in 1..Len(Cases)
        /\ pc = 1
        /\ reg = [k \in 1..Cases[c].k |-> {}]
        /\ verdict = "pending"

Execute ==
  /\ verdict = "pending" /\ pc <= Len(Cases[c].prog)
  /\ LET cs == Cases[c]
         i == cs.prog[pc]
         v == StepOK(cs.n, reg, i)
     IN /\ verdict' = IF v = "ok" THEN "pending" ELSE v \o " (instruction " \o ToString(pc) \o ": " \o i.op \o ")"
        /\ reg' = Observed(i)
        /\ pc' = pc + 1
  /\ UNCHANGED c
Finish ==
  /\ verdict = "pending" /\ pc > Len(Cases[c].prog)
  /\ verdict' = IF Cases[c].clean THEN "ok" ELSE "run failed or nodes leaked: " \o Cases[c].raw
  /\ UNCHANGED <<c, pc, reg>>
Next == Execute \/ Finish
Spec == Init /\ [][Next]_<<c, pc, reg, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
