-------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* What the program reports (C02).  A task is one of the kinds below; the  *)
(* state is what has been reported for the tasks so far, and each          *)
(* transition reports the next task.  A report consists of the line in     *)
(* text mode, the kind of entry in JSON mode, and what it contributes to   *)
(* the exit code.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, SequencesExt
CONSTANTS N
VARIABLES nargs, final, kinds, lines, tags, ok, err      \* final: STDIN ends with a line break
U == "https://t.example/"
\* kind, its text, whether it can be an argument, its outcome and the line it shows
Table == <<
  [name |-> "url",        text |-> "http://t.example/a?drop=1",                     arg |-> TRUE,  tag |-> "ok",   line |-> U \o "a"],
  [name |-> "object",     text |-> "{\"url\":\"http://t.example/b\",\"context\":{\"vars\":{\"v\":\"w\"}}}", arg |-> TRUE, tag |-> "ok", line |-> U \o "b#w"],
  [name |-> "string",     text |-> "\"http://t.example/c\"",                        arg |-> TRUE,  tag |-> "ok",   line |-> U \o "c"],
  [name |-> "odd",        text |-> "foo:x\"y'z\\",                                  arg |-> TRUE,  tag |-> "ok",   line |-> "foo:x\"y'z\\"],
  [name |-> "crlf",       text |-> "http://t.example/d\r",                          arg |-> FALSE, tag |-> "ok",   line |-> U \o "d"],
  [name |-> "fails",      text |-> "http://t.example/fail",                         arg |-> TRUE,  tag |-> "task", line |-> ""],
  [name |-> "fails late", text |-> "http://t.example/late?drop=1",                  arg |-> TRUE,  tag |-> "task", line |-> ""],
  [name |-> "no url",     text |-> "t.example/a",                                   arg |-> TRUE,  tag |-> "make", line |-> ""],
  [name |-> "empty",      text |-> "",                                              arg |-> TRUE,  tag |-> "make", line |-> ""],
  [name |-> "no json",    text |-> "{\"url\":",                                     arg |-> TRUE,  tag |-> "make", line |-> ""],
  [name |-> "json no url",text |-> "{\"url\":\"x y\"}",                             arg |-> TRUE,  tag |-> "make", line |-> ""],
  [name |-> "string no url",text |-> "\"\"",                                        arg |-> TRUE,  tag |-> "make", line |-> ""],
  [name |-> "no utf-8",   text |-> "BYTES",                                         arg |-> FALSE, tag |-> "make", line |-> ""] >>
Kinds == 1..Len(Table)
Init == /\ nargs \in 0..N /\ final \in BOOLEAN /\ kinds = <<>> /\ lines = <<>> /\ tags = <<>> /\ ok = FALSE /\ err = FALSE
ReportTask(k) ==
    /\ Len(kinds) < nargs => Table[k].arg
    /\ kinds' = Append(kinds, k)
    /\ lines' = Append(lines, Table[k].line)
    /\ tags' = Append(tags, Table[k].tag)
    /\ ok' = (ok \/ Table[k].tag = "ok")
    /\ err' = (err \/ Table[k].tag # "ok")
    /\ UNCHANGED <<nargs, final>>
Next == Len(kinds) < N /\ \E k \in Kinds : ReportTask(k)
Spec == Init /\ [][Next]_<<nargs, final, kinds, lines, tags, ok, err>>
ExitCode == IF ~err THEN 0 ELSE IF ok THEN 2 ELSE 1
\* one report per task, in order; a failing task leaves an empty line and nothing else changes
Positions == Len(lines) = Len(kinds) /\ Len(tags) = Len(kinds)
Local == \A i \in 1..Len(kinds) : lines[i] = Table[kinds[i]].line /\ tags[i] = Table[kinds[i]].tag
Failures == \A i \in 1..Len(tags) : tags[i] # "ok" => lines[i] = ""
Codes == /\ ExitCode = 0 <=> \A i \in 1..Len(tags) : tags[i] = "ok"
         /\ ExitCode = 1 <=> Len(tags) > 0 /\ \A i \in 1..Len(tags) : tags[i] # "ok"
\* (nothing after the last line break is no task)
Possible == final \/ (Len(kinds) > nargs /\ Table[kinds[Len(kinds)]].text # "")
Emitted == /\ (kinds = <<>> /\ nargs = 0 /\ final) => PrintT(ToJson([table |-> Table]))
           /\ (nargs <= Len(kinds) /\ Possible) => PrintT(ToJson([nargs |-> nargs, final |-> final, kinds |-> kinds, lines |-> lines, tags |-> tags, code |-> ExitCode]))
=============================================================================
