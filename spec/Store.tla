-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The cache file under programs that share it and that may be killed      *)
(* (C08).  A program is a group of threads with one connection, which they *)
(* use one at a time; its tasks, dealt out to the threads in turn, read an *)
(* entry and, when it is missing, compute and write it; its results are    *)
(* printed in order.  Everything that changes the file is a step of its    *)
(* own: the file appears empty; a transaction takes the write lock, keeps  *)
(* the old contents aside, leaves the pages torn for a while, has them     *)
(* complete, and is over when the old contents are dropped.  A program can *)
(* be killed between any two steps (its locks go, what it did to the file  *)
(* stays); whoever comes next and finds old contents kept aside with no    *)
(* writer puts them back first.  With Fine = FALSE the reads and writes    *)
(* are single steps: what can be observed must be the same.                *)
(*                                                                         *)
(* A scenario: [file, rows, groups: a sequence of                          *)
(*   [ops: sequence of [k, v], threads, rc, wc, after: groups that must be *)
(*    over before this one starts, mortal]]                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Fine
VARIABLES sc, file, rows, journal, owner, torn, pc, goal, at, conn, mutex, out, printed, dead, hist
vars == <<sc, file, rows, journal, owner, torn, pc, goal, at, conn, mutex, out, printed, dead, hist>>
disk == <<file, rows, journal, owner, torn>>
Scenarios == JsonDeserialize("inputs.json")
Absent == "-"
S == Scenarios[sc]
KeysOf(s) == UNION {{s.groups[g].ops[i].k : i \in 1..Len(s.groups[g].ops)} : g \in 1..Len(s.groups)} \cup {s.rows[i].k : i \in 1..Len(s.rows)}
Rows0(s) == [k \in KeysOf(s) |-> LET i == {i \in 1..Len(s.rows) : s.rows[i].k = k} IN IF i = {} THEN Absent ELSE s.rows[CHOOSE j \in i : TRUE].v]
NoRows == [k \in KeysOf(S) |-> Absent]
Groups == 1..Len(S.groups)
G(g) == S.groups[g]
Threads == UNION {{<<g, j>> : j \in 1..G(g).threads} : g \in Groups}
Line(t) == G(t[1]).ops[at[t]]
Over(g) == g \in dead \/ printed[g] = Len(G(g).ops)
AllOver == \A g \in Groups : Over(g)
Started(g) == \A i \in 1..Len(G(g).after) : Over(G(g).after[i])
On(t, p) == t[1] \notin dead /\ Started(t[1]) /\ pc[t] = p

Init == /\ sc \in 1..Len(Scenarios)
        /\ file = S.file /\ rows = Rows0(S) /\ journal = <<>> /\ owner = 0 /\ torn = FALSE
        /\ pc = [t \in Threads |-> "next"] /\ goal = [t \in Threads |-> "read"] /\ at = [t \in Threads |-> t[2]]
        /\ conn = [g \in Groups |-> FALSE] /\ mutex = [g \in Groups |-> 0]
        /\ out = [g \in Groups |-> [i \in 1..Len(G(g).ops) |-> <<>>]] /\ printed = [g \in Groups |-> 0] /\ dead = {} /\ hist = <<>>

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* the task of the thread is done with this result; the thread takes its next one
Result(t, v) == /\ out' = [out EXCEPT ![t[1]][at[t]] = <<v>>]
                /\ at' = [at EXCEPT ![t] = @ + G(t[1]).threads] /\ Go(t, "next") /\ goal' = [goal EXCEPT ![t] = "read"]
Unlock(t) == mutex' = [mutex EXCEPT ![t[1]] = 0]

Begin(t) == /\ On(t, "next") /\ at[t] <= Len(G(t[1]).ops)
            /\ IF G(t[1]).rc THEN Go(t, "enter") /\ goal' = [goal EXCEPT ![t] = "read"] /\ UNCHANGED <<at, out>>
               ELSE IF G(t[1]).wc THEN Go(t, "enter") /\ goal' = [goal EXCEPT ![t] = "write"] /\ UNCHANGED <<at, out>>
               ELSE Result(t, Line(t).v)
            /\ UNCHANGED <<sc, disk, conn, mutex, printed, dead, hist>>
Enter(t) == /\ On(t, "enter") /\ mutex[t[1]] = 0 /\ mutex' = [mutex EXCEPT ![t[1]] = t[2]]
            /\ Go(t, IF conn[t[1]] \/ ~Fine THEN goal[t] ELSE "create")
            /\ UNCHANGED <<sc, disk, goal, at, conn, out, printed, dead, hist>>
\* ---------------------------------------------------------------- opening
Create(t) == /\ On(t, "create") /\ file' = (IF file = "none" THEN "empty" ELSE file) /\ Go(t, "look")
             /\ UNCHANGED <<sc, rows, journal, owner, torn, goal, at, conn, mutex, out, printed, dead, hist>>
\* old contents with no writer: someone was killed
Hot == journal # <<>> /\ owner = 0
Recover(t) == /\ (On(t, "look") \/ On(t, "read") \/ On(t, "write") \/ On(t, "make")) /\ Fine /\ Hot
              /\ owner' = t[1] /\ torn' = TRUE /\ Go(t, "restore " \o pc[t])
              /\ UNCHANGED <<sc, file, rows, journal, goal, at, conn, mutex, out, printed, dead, hist>>
Restore(t) == /\ t[1] \notin dead /\ pc[t] \in {"restore look", "restore read", "restore write", "restore make"}
              /\ IF file # journal[1].file \/ rows # journal[1].rows
                 THEN file' = journal[1].file /\ rows' = journal[1].rows /\ UNCHANGED <<journal, owner, torn, pc>>
                 ELSE journal' = <<>> /\ owner' = 0 /\ torn' = FALSE /\ Go(t, SubSeq(pc[t], 9, Len(pc[t]))) /\ UNCHANGED <<file, rows>>
              /\ UNCHANGED <<sc, goal, at, conn, mutex, out, printed, dead, hist>>
Readable == ~Hot /\ ~torn
Look(t) == /\ On(t, "look") /\ Readable /\ Assert(file # "torn", "torn pages seen")
           /\ IF file = "table" THEN Go(t, goal[t]) /\ conn' = [conn EXCEPT ![t[1]] = TRUE] ELSE Go(t, "make") /\ UNCHANGED conn
           /\ UNCHANGED <<sc, disk, goal, at, mutex, out, printed, dead, hist>>
\* a transaction: the lock, the copy, the pages torn, the pages whole, the copy dropped
Lock(t, p, q) == On(t, p) /\ ~Hot /\ owner = 0 /\ owner' = t[1] /\ Go(t, q) /\ UNCHANGED <<sc, file, rows, journal, torn, goal, at, conn, mutex, out, printed, dead, hist>>
Copy(t, p, q) == On(t, p) /\ journal' = <<[file |-> file, rows |-> rows]>> /\ Go(t, q) /\ UNCHANGED <<sc, file, rows, owner, torn, goal, at, conn, mutex, out, printed, dead, hist>>
Tear(t, p, q) == On(t, p) /\ torn' = TRUE /\ file' = "torn" /\ Go(t, q) /\ UNCHANGED <<sc, rows, journal, owner, goal, at, conn, mutex, out, printed, dead, hist>>
Make(t) == IF On(t, "make locked") /\ file = "table" THEN \* somebody else made it
               owner' = 0 /\ Go(t, goal[t]) /\ conn' = [conn EXCEPT ![t[1]] = TRUE] /\ UNCHANGED <<sc, file, rows, journal, torn, goal, at, mutex, out, printed, dead, hist>>
           ELSE \/ Lock(t, "make", "make locked") \/ Copy(t, "make locked", "make copied") \/ Tear(t, "make copied", "make torn")
                \/ /\ On(t, "make torn") /\ file' = "table" /\ rows' = NoRows /\ Go(t, "make written")
                   /\ UNCHANGED <<sc, journal, owner, torn, goal, at, conn, mutex, out, printed, dead, hist>>
                \/ /\ On(t, "make written") /\ journal' = <<>> /\ owner' = 0 /\ torn' = FALSE /\ Go(t, goal[t]) /\ conn' = [conn EXCEPT ![t[1]] = TRUE]
                   /\ UNCHANGED <<sc, file, rows, goal, at, mutex, out, printed, dead, hist>>
\* ------------------------------------------------------- reading and writing
Read(t) == /\ On(t, "read") /\ (Fine => Readable) /\ (Fine => Assert(file = "table", "reading without a table"))
           /\ LET v == rows[Line(t).k] IN
              IF v # Absent THEN Result(t, v)
              ELSE IF G(t[1]).wc THEN Go(t, "enter") /\ goal' = [goal EXCEPT ![t] = "write"] /\ UNCHANGED <<at, out>>
              ELSE Result(t, Line(t).v)
           /\ Unlock(t) /\ UNCHANGED <<sc, disk, conn, printed, dead, hist>>
Committed(t) == hist' = Append(hist, [k |-> Line(t).k, v |-> Line(t).v])
Write(t) == IF ~Fine THEN /\ On(t, "write") /\ rows' = [rows EXCEPT ![Line(t).k] = Line(t).v] /\ file' = "table" /\ Committed(t) /\ Result(t, Line(t).v) /\ Unlock(t)
                          /\ UNCHANGED <<sc, journal, owner, torn, conn, printed, dead>>
            ELSE \/ Lock(t, "write", "write locked") \/ Copy(t, "write locked", "write copied") \/ Tear(t, "write copied", "write torn")
                 \/ /\ On(t, "write torn") /\ file' = "table" /\ rows' = [rows EXCEPT ![Line(t).k] = Line(t).v] /\ Go(t, "write written")
                    /\ UNCHANGED <<sc, journal, owner, torn, goal, at, conn, mutex, out, printed, dead, hist>>
                 \/ /\ On(t, "write written") /\ journal' = <<>> /\ owner' = 0 /\ torn' = FALSE /\ Committed(t) /\ Result(t, Line(t).v) /\ Unlock(t)
                    /\ UNCHANGED <<sc, file, rows, conn, printed, dead>>
Show(g) == /\ ~Over(g) /\ Started(g) /\ out[g][printed[g] + 1] # <<>> /\ printed' = [printed EXCEPT ![g] = @ + 1]
            /\ UNCHANGED <<sc, disk, pc, goal, at, conn, mutex, out, dead, hist>>
Kill(g) == /\ G(g).mortal /\ ~Over(g) /\ Started(g) /\ dead' = dead \cup {g}
           /\ IF owner = g THEN owner' = 0 /\ torn' = FALSE ELSE UNCHANGED <<owner, torn>>
           /\ UNCHANGED <<sc, file, rows, journal, pc, goal, at, conn, mutex, out, printed, hist>>
Work(t) == Begin(t) \/ Enter(t) \/ Create(t) \/ Recover(t) \/ Restore(t) \/ Look(t) \/ Make(t) \/ Read(t) \/ Write(t)
Next == (\E t \in Threads : Work(t)) \/ (\E g \in Groups : Show(g) \/ Kill(g))
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A g \in 1..3 : SF_vars(g \in Groups /\ Show(g)) /\ \A j \in 1..2 : SF_vars(<<g, j>> \in Threads /\ Work(<<g, j>>))
-----------------------------------------------------------------------------
\* what the next program would find
Contents == IF journal # <<>> THEN journal[1].rows ELSE rows
Replayed == FoldLeft(LAMBDA r, w : [r EXCEPT ![w.k] = w.v], Rows0(S), hist)
\* every completed write is there, in order, and nothing else
Durable == Contents = Replayed
Whole == file = "torn" => journal # <<>>
OneWriter == torn => owner # 0
Acknowledged == \A g \in Groups : \A i \in 1..printed[g] : out[g][i] # <<>>
NotStuck == AllOver \/ ENABLED Next
Ends == <>AllOver
Emitted == AllOver => PrintT(ToJson([sc |-> sc, printed |-> [g \in Groups |-> [i \in 1..printed[g] |-> out[g][i][1]]], rows |-> Contents, left |-> file]))
=============================================================================
