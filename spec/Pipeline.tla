------------------------------- MODULE Pipeline ------------------------------
(***************************************************************************)
(* The program's threads (C01): a getter that hands the input lines to T   *)
(* workers in turn through one queue per worker, the workers, and a        *)
(* printer that takes the results from the workers' result queues in the   *)
(* same turn.  The environment feeds lines, closes the input, and lets     *)
(* tasks come to their end in any order.                                   *)
(*                                                                         *)
(* What a user sees of all this is Shown: the results of the longest run   *)
(* of tasks, from the first, that have all been given and have all ended.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS T,        \* workers
          N,        \* tasks
          KINDS,    \* how tasks may end: "ok", "err", or "bad" (no task at all: it ends as soon as it is read)
          CALM      \* TRUE: the environment acts only when the program has come to rest, and its acts are recorded
VARIABLES fed, closed, ended, kind,           \* environment
          g, gdone, inq, run, wdone, outq,    \* getter and workers
          turn, printed, pdone,               \* printer
          hist                                \* the acts of the environment, each with how much is shown after it
env == <<fed, closed, ended, kind>>
work == <<g, gdone, inq, run, wdone, outq>>
prn == <<turn, printed, pdone>>
vars == <<env, work, prn, hist>>
W == 1..T
Tasks == 1..N
Shown == CHOOSE k \in 0..N : (\A t \in 1..k : t <= fed /\ t \in ended) /\ ~(k < N /\ k + 1 <= fed /\ k + 1 \in ended)
Init == /\ fed \in 0..N                       \* the tasks given as arguments
        /\ kind \in [Tasks -> KINDS] /\ closed = FALSE /\ ended = {t \in Tasks : kind[t] = "bad"}
        /\ g = 0 /\ gdone = FALSE /\ inq = [w \in W |-> <<>>] /\ run = [w \in W |-> 0] /\ wdone = [w \in W |-> FALSE] /\ outq = [w \in W |-> <<>>]
        /\ turn = 1 /\ printed = <<>> /\ pdone = FALSE /\ hist = <<<<"args", fed, Shown>>>>
(* ---- the program ---- *)
Slot(n) == ((n - 1) % T) + 1
Get == /\ g < fed /\ g' = g + 1 /\ inq' = [inq EXCEPT ![Slot(g + 1)] = Append(@, g + 1)]
       /\ UNCHANGED <<env, gdone, run, wdone, outq, prn, hist>>
GetEnd == /\ ~gdone /\ closed /\ g = fed /\ gdone' = TRUE /\ UNCHANGED <<env, g, inq, run, wdone, outq, prn, hist>>
Start(w) == /\ run[w] = 0 /\ inq[w] # <<>> /\ run' = [run EXCEPT ![w] = Head(inq[w])] /\ inq' = [inq EXCEPT ![w] = Tail(@)]
            /\ UNCHANGED <<env, g, gdone, wdone, outq, prn, hist>>
End(w) == /\ run[w] # 0 /\ run[w] \in ended /\ outq' = [outq EXCEPT ![w] = Append(@, run[w])] /\ run' = [run EXCEPT ![w] = 0]
          /\ UNCHANGED <<env, g, gdone, inq, wdone, prn, hist>>
Leave(w) == /\ ~wdone[w] /\ gdone /\ run[w] = 0 /\ inq[w] = <<>> /\ wdone' = [wdone EXCEPT ![w] = TRUE]
            /\ UNCHANGED <<env, g, gdone, inq, run, outq, prn, hist>>
Show == /\ ~pdone /\ outq[turn] # <<>> /\ printed' = Append(printed, Head(outq[turn])) /\ outq' = [outq EXCEPT ![turn] = Tail(@)]
         /\ turn' = (turn % T) + 1 /\ UNCHANGED <<env, g, gdone, inq, run, wdone, pdone, hist>>
ShowEnd == /\ ~pdone /\ outq[turn] = <<>> /\ wdone[turn] /\ pdone' = TRUE /\ UNCHANGED <<env, work, turn, printed, hist>>
Program == Get \/ GetEnd \/ Show \/ ShowEnd \/ \E w \in W : Start(w) \/ End(w) \/ Leave(w)
(* ---- the environment ---- *)
AtRest == ~ENABLED Program
Act(a) == hist' = IF CALM THEN Append(hist, a) ELSE hist
Feed == fed < N /\ ~closed /\ fed' = fed + 1 /\ UNCHANGED <<closed, ended, kind>> /\ Act(<<"feed", fed + 1, Shown'>>)
Close == ~closed /\ fed = N /\ closed' = TRUE /\ UNCHANGED <<fed, ended, kind>> /\ Act(<<"close", 0, Shown'>>)
Release(t) == t \notin ended /\ t <= fed /\ ended' = ended \cup {t} /\ UNCHANGED <<fed, closed, kind>> /\ Act(<<"end", t, Shown'>>)
World == (CALM => AtRest) /\ (Feed \/ Close \/ \E t \in Tasks : Release(t)) /\ UNCHANGED <<work, prn>>
Next == Program \/ World
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Program) /\ WF_vars(World)
(* ---- what must hold ---- *)
InOrder == \A i \in 1..Len(printed) : printed[i] = i
NotTooEarly == Len(printed) <= Shown
Complete == pdone => Len(printed) = N
Prompt == AtRest => Len(printed) = Shown
NoTrap == (AtRest /\ closed /\ ended = Tasks) => pdone
Ends == <>pdone
Emitted == (CALM /\ pdone) => PrintT(ToJson([kinds |-> kind, acts |-> hist]))
=============================================================================
