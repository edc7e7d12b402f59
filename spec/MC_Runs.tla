------------------------------- MODULE MC_Runs -------------------------------
(***************************************************************************)
(* Programs that use the same cache file one after another (C07).  A run   *)
(* has its settings for reading and writing and its tasks; what it leaves  *)
(* in the cache is all that the next run gets from it.  In.histories gives *)
(* the histories to decide; the state walks through them run by run.       *)
(***************************************************************************)
EXTENDS MC
VARIABLES h, r, cache, lines, done
vars == <<h, r, cache, lines, done>>
Hs == In.histories
Init == h = 1 /\ r = 1 /\ cache = <<>> /\ lines = <<>> /\ done = <<>>
\* one task of a run: [lines, cache]
Task(run, acc, t) ==
    LET E == [EnvOf(UrlOf(t), NoSp0, <<>>) EXCEPT !.params.read_cache = run.rc, !.params.write_cache = run.wc]
        x == Rules(In.rules, E, [C0 EXCEPT !.cache = acc.cache]) IN
    [lines |-> Append(acc.lines, IF x.k = "ok" THEN Serialize(x.v.url) ELSE IF x.k = "err" THEN "" ELSE "OUT"), cache |-> IF x.k = "out" THEN acc.cache ELSE x.c.cache]
Run == /\ h <= Len(Hs) /\ r <= Len(Hs[h])
       /\ LET run == Hs[h][r] o == FoldLeft(LAMBDA acc, t : Task(run, acc, t), [lines |-> <<>>, cache |-> cache], run.tasks) IN
          cache' = o.cache /\ lines' = o.lines /\ done' = Append(done, [lines |-> o.lines, cache |-> o.cache])
       /\ r' = r + 1 /\ h' = h
NextHistory == h <= Len(Hs) /\ r > Len(Hs[h]) /\ h' = h + 1 /\ r' = 1 /\ cache' = <<>> /\ lines' = <<>> /\ done' = <<>>
Next == Run \/ NextHistory
Spec == Init /\ [][Next]_vars
\* a run that may not write leaves the cache alone; one that may not read never shows an older value than its own
Alone == [][(Run /\ ~Hs[h][r].wc) => cache' = cache]_vars
Grows == [][Run => Keys(cache) \subseteq Keys(cache')]_vars
Known == \A i \in 1..Len(lines) : lines[i] # "OUT"
Emitted == h <= Len(Hs) /\ r > Len(Hs[h]) => Emit([h |-> h, runs |-> done])
=============================================================================
