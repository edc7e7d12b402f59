-------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* A job as threads working through tasks (C03).                           *)
(*                                                                         *)
(* Shared: the configuration and the job context, which no step changes.   *)
(* Owned by a task: its URL, its context, and a scratchpad that starts     *)
(* empty.  Thread w gets the tasks at the positions w, w + NW, ...; threads *)
(* interleave rule by rule.  Isolated says that a task's line is the one   *)
(* the task gives when it is alone.                                        *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NW, L
Tasks == In.tasks                 \* [url, ctx]
Ruleset == In.rules
NT == Len(Tasks)
NR == Len(Ruleset)
VARIABLES seq, work, out
vars == <<seq, work, out>>

EnvT(t, u, sp) == [EnvOf(u, sp, <<>>) EXCEPT !.ctx = Tasks[t].ctx]
Line(r) == IF r.k = "ok" THEN Serialize(r.v.url) ELSE ""
\* the same task with nothing around it
Alone == [t \in 1..NT |-> Rules(Ruleset, EnvT(t, UrlOf(Tasks[t].url), NoSp0), C0)]
ASSUME \A t \in 1..NT : Alone[t].k # "out" /\ ParseUrl(Tasks[t].url).k = "ok"
AloneLine == [t \in 1..NT |-> Line(Alone[t])]

Idle == [at |-> 0, rule |-> 0, url |-> NoUrl, sp |-> NoSp0]
Start(i, s) == IF i > Len(s) THEN Idle ELSE [at |-> i, rule |-> 1, url |-> UrlOf(Tasks[s[i]].url), sp |-> NoSp0]
Init == /\ seq \in UNION {[1..n -> 1..NT] : n \in 1..L}
        /\ work = [w \in 1..NW |-> Start(w, seq)]
        /\ out = [i \in 1..Len(seq) |-> <<>>]
AllDone == \A i \in 1..Len(seq) : out[i] # <<>>
Step(w) ==
    LET k == work[w]
        t == seq[k.at]
        r == Rule(Ruleset[k.rule], EnvT(t, k.url, k.sp), C0)
        fin(line) == out' = [out EXCEPT ![k.at] = <<line>>] /\ work' = [work EXCEPT ![w] = Start(k.at + NW, seq)] IN
    /\ k.at # 0
    /\ IF r.k # "ok" THEN fin("")
       ELSE IF k.rule = NR THEN fin(Serialize(r.v.url))
       ELSE out' = out /\ work' = [work EXCEPT ![w] = [@ EXCEPT !.rule = @ + 1, !.url = r.v.url, !.sp = r.v.sp]]
    /\ seq' = seq
Next == \E w \in 1..NW : Step(w)
Spec == Init /\ [][Next]_vars
Isolated == \A i \in 1..Len(seq) : out[i] # <<>> => out[i][1] = AloneLine[seq[i]]
Emitted == AllDone => Emit([seq |-> seq, lines |-> [i \in 1..Len(seq) |-> out[i][1]]])
=============================================================================
