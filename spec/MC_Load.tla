------------------------------- MODULE MC_Load -------------------------------
(***************************************************************************)
(* Named partitionings while they are read from a configuration (C15,      *)
(* C20).  State: the partitions read so far; a transition reads one more.  *)
(* A name or an element that is already there makes the whole text invalid.*)
(***************************************************************************)
EXTENDS MC
CONSTANTS NP
VARIABLES parts, ok
Names == {"p", "q", ""}
Lists == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"">>, <<"c", "">>}
Elems(ps) == UNION {RangeOf(ps[i][2]) : i \in 1..Len(ps)}
Init == parts = <<>> /\ ok = TRUE
Next == /\ Len(parts) < NP
        /\ \E n \in Names, l \in Lists :
             /\ parts' = Append(parts, <<n, l>>)
             /\ ok' = (ok /\ n \notin Keys(parts) /\ RangeOf(l) \cap Elems(parts) = {})
Spec == Init /\ [][Next]_<<parts, ok>>
FindP(e) == LET i == FirstIdx(1, Len(parts), LAMBDA j : e \in RangeOf(parts[j][2])) IN IF i = 0 THEN <<>> ELSE <<parts[i][1]>>
\* an element is never in two partitions
Law == ok => \A i, j \in 1..Len(parts) : i # j => parts[i][1] # parts[j][1] /\ RangeOf(parts[i][2]) \cap RangeOf(parts[j][2]) = {}
\* what is rejected stays rejected
Mono == ok = (\A k \in 1..Len(parts) : LET before == SubSeq(parts, 1, k - 1) IN parts[k][1] \notin Keys(before) /\ RangeOf(parts[k][2]) \cap Elems(before) = {})
Emitted == Emit([parts |-> parts, ok |-> ok, find |-> <<<<"a", FindP("a")>>, <<"b", FindP("b")>>, <<"", FindP("")>>, <<"d", FindP("d")>>>>])
=============================================================================
