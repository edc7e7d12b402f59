------------------------------- MODULE MC_Args -------------------------------
(***************************************************************************)
(* Command lines.  A command line is built option by option and file by    *)
(* file; what the program then does with a probing task follows from the   *)
(* parameters that result: first the files, then the options as one diff.  *)
(* In.lines gives the command lines to decide, as indices into In.opts and  *)
(* In.diffs.                                                               *)
(***************************************************************************)
EXTENDS Params, MC
DS == In.diffs
D(i) == LET d == DS[i] IN [d EXCEPT !.flags = RangeOf(@), !.unflags = RangeOf(@), !.unvars = RangeOf(@), !.init_sets = RangeOf(@), !.del = RangeOf(@), !.init_maps = RangeOf(@), !.delmaps = RangeOf(@)]
CONSTANTS NF, NO        \* how many files and options; 0, 0 with In.lines: those
VARIABLES files, opts, n
vars == <<files, opts, n>>
Given == In.lines
Init == files = <<>> /\ opts = <<>> /\ n = 0
AddFile == \E i \in 1..Len(DS) : Len(files) < NF /\ opts = <<>> /\ files' = Append(files, i) /\ UNCHANGED <<opts, n>>
AddOpt == \E i \in 1..Len(In.opts) : Len(opts) < NO /\ opts' = Append(opts, i) /\ UNCHANGED <<files, n>>
Take == NF + NO = 0 /\ n < Len(Given) /\ n' = n + 1 /\ files' = Given[n + 1].files /\ opts' = Given[n + 1].opts
Next == AddFile \/ AddOpt \/ Take
Spec == Init /\ [][Next]_vars

Opts == [i \in 1..Len(opts) |-> In.opts[opts[i]]]
Bad == BadOptions(Opts)
Final == ApplyAll(Load(In.config), [i \in 1..Len(files) |-> D(files[i])] \o (IF opts = <<>> THEN <<>> ELSE <<ArgDiff(Opts)>>))
Probe == LET q == Final
             E == [EnvOf(UrlOf("https://probe.example/"), NoSp0, <<>>) EXCEPT !.params = AsParams(q)]
             r == Rules(In.rules, E, [C0 EXCEPT !.cache = In.cache]) IN
         [line |-> Serialize(r.v.url), cache |-> r.c.cache, via |-> Via(q)]
\* options that may stand in any order: the outcome depends only on the last value for a variable or a key
Shuffled == ~Bad /\ Len(opts) = 2 =>
    LET a == Opts[1] b == Opts[2] clash == a.o = b.o /\ a.o \in {"var", "insert-into-map"} IN
    clash \/ LET x == Apply(Load(In.config), ArgDiff(<<a, b>>)) y == Apply(Load(In.config), ArgDiff(<<b, a>>)) IN
             x.flags = y.flags /\ RangeOf(x.vars) = RangeOf(y.vars) /\ RangeOf(x.sets) = RangeOf(y.sets) /\ x.http = y.http /\ x.read_cache = y.read_cache /\ x.write_cache = y.write_cache
Emitted == (opts # <<>> \/ files # <<>>) => Emit([files |-> files, opts |-> opts, bad |-> Bad, out |-> IF Bad THEN <<>> ELSE <<Probe>>])
=============================================================================
