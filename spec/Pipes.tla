------------------------------- MODULE Pipes --------------------------------
(***************************************************************************)
(* A command that is given its STDIN while its STDOUT is taken (C21).      *)
(*                                                                         *)
(* Both are pipes that hold CAP chunks.  The command follows a script:     *)
(*   r  reads a chunk (it fails when there is none)                        *)
(*   w  writes a chunk                                                     *)
(*   i  reads to the end, writing every chunk it reads                     *)
(* and then reads and forgets what is left, unless the script starts with  *)
(* q: then it just ends.                                                   *)
(*                                                                         *)
(* The writer and the reader of the program work at the same time.  With   *)
(* SERIAL the reader waits for the writer, and TLC shows how both sides    *)
(* then wait for each other: Ends fails.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS CAP, L, SMAX, SERIAL
VARIABLES script, size,             \* what the command does, and how many chunks it is given
          left, wstate, inp,        \* writer: chunks to go; "on", "closed", "failed"; the pipe to the command
          pc, out, alive, full,     \* the command: next of its script; the pipe from it; whether it runs; whether it did all its script
          got, rdone                \* reader
vars == <<script, size, left, wstate, inp, pc, out, alive, full, got, rdone>>
Ops == {"r", "w", "i"}
Scripts == UNION {[1..n -> Ops] : n \in 0..L} 
Init == /\ script \in Scripts \cup {<<"q">> \o s : s \in Scripts} /\ size \in 0..SMAX
        /\ left = size /\ wstate = "on" /\ inp = 0 /\ pc = 1 /\ out = 0 /\ alive = TRUE /\ full = FALSE /\ got = 0 /\ rdone = FALSE
Polite == script = <<>> \/ script[1] # "q"
Same == UNCHANGED <<script, size>>
(* ---- the program ---- *)
Write == /\ wstate = "on" /\ left > 0 /\ alive /\ inp < CAP /\ inp' = inp + 1 /\ left' = left - 1 /\ UNCHANGED <<wstate, pc, out, alive, full, got, rdone>>
WriteFails == /\ wstate = "on" /\ left > 0 /\ ~alive /\ wstate' = "failed" /\ UNCHANGED <<left, inp, pc, out, alive, full, got, rdone>>
WriteEnd == /\ wstate = "on" /\ left = 0 /\ wstate' = "closed" /\ UNCHANGED <<left, inp, pc, out, alive, full, got, rdone>>
MayRead == SERIAL => wstate # "on"
Read == /\ MayRead /\ out > 0 /\ out' = out - 1 /\ got' = got + 1 /\ UNCHANGED <<left, wstate, inp, pc, alive, full, rdone>>
ReadEnd == /\ MayRead /\ ~rdone /\ out = 0 /\ ~alive /\ wstate # "on" /\ rdone' = TRUE /\ UNCHANGED <<left, wstate, inp, pc, out, alive, full, got>>
(* ---- the command ---- *)
Eof == inp = 0 /\ wstate # "on"
Now == IF pc <= Len(script) THEN script[pc] ELSE "end"
Move(n) == pc' = n
Quit(f) == alive' = FALSE /\ full' = f
R == /\ Now = "r"
     /\ \/ inp > 0 /\ inp' = inp - 1 /\ Move(pc + 1) /\ UNCHANGED <<alive, full>>
        \/ Eof /\ Quit(FALSE) /\ UNCHANGED <<inp, pc>>
     /\ UNCHANGED out
Wr == Now = "w" /\ out < CAP /\ out' = out + 1 /\ Move(pc + 1) /\ UNCHANGED <<inp, alive, full>>
I == /\ Now = "i"
     /\ \/ inp > 0 /\ out < CAP /\ inp' = inp - 1 /\ out' = out + 1 /\ UNCHANGED pc
        \/ Eof /\ Move(pc + 1) /\ UNCHANGED <<inp, out>>
     /\ UNCHANGED <<alive, full>>
Q == Now = "q" /\ Move(pc + 1) /\ UNCHANGED <<inp, out, alive, full>>
End == /\ Now = "end"
       /\ IF Polite THEN \/ inp > 0 /\ inp' = inp - 1 /\ UNCHANGED <<alive, full>>
                         \/ Eof /\ Quit(TRUE) /\ UNCHANGED inp
          ELSE Quit(TRUE) /\ UNCHANGED inp
       /\ UNCHANGED <<out, pc>>
Command == alive /\ (R \/ Wr \/ I \/ Q \/ End) /\ UNCHANGED <<left, wstate, got, rdone>>
Program == Write \/ WriteFails \/ WriteEnd \/ Read \/ ReadEnd
Next == (Program \/ Command) /\ Same
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Count(x) == Len(SelectSeq(script, LAMBDA y : y = x))
Ends == <>rdone
\* a command that reads all it is given is never an error, and everything it wrote is had
Outcome == IF wstate = "failed" THEN <<"err">> ELSE <<"ok", got>>
NothingLost == rdone => inp <= CAP /\ got <= Count("w") + size /\ (full /\ Count("i") = 0 => got = Count("w"))
PoliteIsFine == rdone /\ Polite /\ full => Outcome[1] = "ok"
Stuck == ~rdone => ENABLED Next
Emitted == rdone => PrintT(ToJson([script |-> script, size |-> size, outcome |-> Outcome]))
=============================================================================
