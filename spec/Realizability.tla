---------------------------- MODULE Realizability ----------------------------
(* Conformance of the reader and the realizability verdict: every case is a
   specification file together with what the real slugs said about it. *)
EXTENDS SlugsInput, GR1Game, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, verdict
vars == <<c, verdict>>

Expected(k) ==
  LET st == Read(Cases[k].lines) IN
  IF st.err # "" THEN "rejected"
  ELSE LET g == Denote(st)
           W == SysWin(g)
           real == IF Cases[k].robotics THEN RealizableRobotics(g, W) ELSE RealizableStd(g, W)
       IN IF real THEN "realizable" ELSE "unrealizable"

Init == c \in 1..Len(Cases) /\ verdict = "pending"
Next == verdict = "pending" /\ verdict' = Expected(c) /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Conforms == verdict # "pending" => verdict = Cases[c].observed
===============================================================================
