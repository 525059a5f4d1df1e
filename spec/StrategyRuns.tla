----------------------------- MODULE StrategyRuns -----------------------------
(***************************************************************************)
(* Controllers as state machines.  The environment drives the printed      *)
(* controller with every legal sequence of inputs; the liveness            *)
(* requirement is checked as a temporal formula by TLC's own algorithm,    *)
(* independently of the fixed points of StrategyCheck and BigGame.         *)
(* A case: [lines, nodes], nodes [val, rank, succ].                        *)
(***************************************************************************)
EXTENDS BigGame, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, b, node, tick, a, g
vars == <<c, b, node, tick, a, g>>
MaxA == 6
MaxG == 6

raw == Cases[c].nodes
Sat(fs, max, t) == {k \in 1..max : k > Len(fs) \/ Holds(fs[k], t)}
Init == /\ c \in 1..Len(Cases) /\ b = BigOf(Read(Cases[c].lines))
        /\ Len(b.A) <= MaxA /\ Len(b.G) <= MaxG
        /\ node \in {n \in 1..Len(Cases[c].nodes) : Cases[c].nodes[n].rank = 0}
        /\ tick = FALSE /\ a = {} /\ g = {}
(* tick tells infinite runs from runs that end because no input is legal *)
Next == /\ \E k \in EdgeIx(raw, node) :
             LET m == raw[node].succ[k]  t == Trn(raw[node].val, raw[m].val) IN
             /\ AllHold(b.E, t)
             /\ node' = m /\ a' = Sat(b.A, MaxA, t) /\ g' = Sat(b.G, MaxG, t)
        /\ tick' = ~tick /\ UNCHANGED <<c, b>>
Spec == Init /\ [][Next]_vars

Safe == [][AllHold(b.S, Trn(raw[node].val, raw[node'].val))]_vars
Infinite == []<>tick /\ []<>~tick
Fair == \A k \in 1..MaxA : []<>(k \in a)
Implements == Infinite /\ Fair => \A k \in 1..MaxG : []<>(k \in g)
===============================================================================
