--------------------------- MODULE ReadableController ---------------------------
(***************************************************************************)
(* The whole way of a structured specification: translation, synthesis, and  *)
(* the tools that present the controller to a person                         *)
(*    explicitImplementationIntegerDecoder  (integers instead of bits)        *)
(*    explicitStrategyToGraphviz            (a graph for GraphViz).           *)
(* Both pictures must be of a controller that implements the game the         *)
(* STRUCTURED specification stands for, over its own (integer) variables; the  *)
(* slugsin file and slugs' own output play no role in the judgement.           *)
(*                                                                           *)
(* Case: decls, forms (as in StructuredLang), observed, robotics, recovery,   *)
(*   dec: decoded states [id, rank, vals (sequence of [n, int, v]), succ]      *)
(*   dot: nodes [id, rank, bits, succ] of the graph, head: names in the table, *)
(*   empty: the graph says that there is no implementation.                   *)
(***************************************************************************)
EXTENDS StructuredLang, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
EX == INSTANCE ExplicitStrategy

Rng(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Sum(_, _)
Sum(f, k) == IF k > Len(f) THEN 0 ELSE f[k] + Sum(f, k+1)

(* a decoded valuation shows every declared variable once, integers in their
   range (a variable with a single value has no bits and is not shown) *)
ValsOk(ds, vals) ==
  /\ \A k, l \in DOMAIN vals : k # l => vals[k].n # vals[l].n
  /\ {ds[k].name : k \in {k \in DOMAIN ds : BitCount(ds[k]) > 0}} \subseteq {vals[k].n : k \in DOMAIN vals}
  /\ \A k \in DOMAIN vals : \E j \in DOMAIN ds :
        /\ ds[j].name = vals[k].n /\ ds[j].int = vals[k].int
        /\ IF ds[j].int THEN vals[k].v \in ds[j].lo..ds[j].hi ELSE vals[k].v \in {0, 1}
ValueOf(vals, nm) == vals[CHOOSE k \in DOMAIN vals : vals[k].n = nm].v
(* position of a valuation: the bits of value - lo at the place of the variable's first bit *)
PosOfVals(ds, posOf, vals) ==
  Sum([k \in DOMAIN ds |-> IF ds[k].int
         THEN (IF ds[k].hi = ds[k].lo THEN 0 ELSE (ValueOf(vals, ds[k].name) - ds[k].lo) * Pow2[posOf[BitName(ds[k], 0)]])
         ELSE ValueOf(vals, ds[k].name) * Pow2[posOf[ds[k].name]]], 1)

Linked(ns) == /\ \A k, l \in DOMAIN ns : k # l => ns[k].id # ns[l].id
              /\ \A k \in DOMAIN ns : \A s \in Rng(ns[k].succ) : \E l \in DOMAIN ns : ns[l].id = s
Numbered(ns, pos(_)) ==
  TLCEval([k \in DOMAIN ns |-> [pos |-> pos(ns[k]), rank |-> ns[k].rank,
     succ |-> [i \in DOMAIN ns[k].succ |-> CHOOSE l \in DOMAIN ns : ns[l].id = ns[k].succ[i]]]])

Judge(cs) ==
  LET ds == cs.decls
      e == Encode(ds)
      g == TLCEval(StructuredGame(ds, cs.forms))
      W == TLCEval(SysWin(g))
      Case(ns) == [observed |-> cs.observed, robotics |-> cs.robotics, recovery |-> FALSE, ranks |-> TRUE, coop |-> FALSE, nodes |-> ns]
  IN IF ~Linked(cs.dec) THEN "decoded: states do not fit together"
     ELSE IF \E k \in DOMAIN cs.dec : ~ValsOk(ds, cs.dec[k].vals) THEN "decoded: variables or values"
     ELSE IF ~Linked(cs.dot) THEN "graph: nodes do not fit together"
     ELSE IF cs.empty # (Len(cs.dot) = 0) THEN "graph: says empty"
     ELSE IF cs.dot # << >> /\ (Len(cs.head) # Len(e.names) \/ Rng(cs.head) # Rng(e.names)
                                \/ \E k \in DOMAIN cs.dot : Len(cs.dot[k].bits) # Len(cs.head)) THEN "graph: table of variables"
     ELSE
     LET decoded == Numbered(cs.dec, LAMBDA n : PosOfVals(ds, e.posOf, n.vals))
         graph == Numbered(cs.dot, LAMBDA n : Sum([k \in DOMAIN n.bits |-> n.bits[k] * Pow2[e.posOf[cs.head[k]]]], 1))
         a == EX!JudgeGame(g, W, Case(decoded))
         b == EX!JudgeGame(g, W, Case(graph))
     IN IF a # "ok" THEN "decoded: " \o a
        ELSE IF b # "ok" THEN "graph: " \o b
        ELSE IF {<<cs.dec[k].id, cs.dec[k].rank, decoded[k].pos, Rng(cs.dec[k].succ)>> : k \in DOMAIN cs.dec}
                # {<<cs.dot[k].id, cs.dot[k].rank, graph[k].pos, Rng(cs.dot[k].succ)>> : k \in DOMAIN cs.dot} THEN "the two pictures differ"
        ELSE "ok"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Judge(Cases[c]) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
Conforms == verdict \in {"pending", "ok"}
===============================================================================
