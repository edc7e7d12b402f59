------------------------------- MODULE MC_Spell -------------------------------
(* the spelled-out form of the documents in In.docs *)
EXTENDS Notation
VARIABLES i, seen
Init == i \in 1..Len(In.docs) /\ seen = FALSE
Next == ~seen /\ seen' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<<i, seen>>
R == Norm([t |-> "ref", n |-> In.docs[i].t], In.docs[i].d)
Fixed == ~seen \/ R.v # "ok" \/ Norm([t |-> "ref", n |-> In.docs[i].t], R.d) = R
Emitted == ~seen \/ Emit([i |-> i, v |-> R.v, w |-> R.d])
=============================================================================
