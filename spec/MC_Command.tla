----------------------------- MODULE MC_Command -----------------------------
(***************************************************************************)
(* Commands run for their output (C21): every combination of arguments,    *)
(* environment, directory and STDIN out of small sets of sources that are  *)
(* there, absent, empty, failing, or not fit for a command.  The command   *)
(* is the probe whose behaviour Interp writes down.                        *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NA            \* the longest list of arguments
VARIABLE cs
Here == SpVar("v")
Args == <<Str("a b"), Str(""), Str("-x=$UCV_A;*"), Str(EncodeCP(233)), Here, SNone, SErr, Str("nul" \o Chr(0)), Str("i"), Str("e:UCV_A"), Str("e:UCV_N"), Str("e:UCV_GONE"), Str("e:UCV_BAD"), Str("b"), Str("x:3"), Str("k"), Str("s:noise"), Str("o:end")>>
ArgLists == UNION {[1..n -> 1..Len(Args)] : n \in 0..NA}
Envs == <<<<>>, <<<<"UCV_N", Str("new")>>>>, <<<<"UCV_A", Str("")>>>>, <<<<"UCV_A", SNone>>>>, <<<<"UCV_N", SErr>>>>, <<<<"UCV_N", Str(Chr(0))>>>>, <<<<"UCV_N", Here>>, <<"UCV_A", Str("two=2")>>, <<"UCV_BAD", Str("good")>>>>>>
Ins == <<<<>>, <<Str("")>>, <<Str("text" \o Chr(10) \o EncodeCP(233) \o " more")>>, <<Here>>, <<SNone>>, <<SErr>>>>
Dirs == <<<<>>, <<"/usr">>, <<"/nonexistent">>>>
Cmd(as, es, dir, in) == X("CommandOutput", [program |-> "/ucv/probe", args |-> as, current_dir |-> dir, envs |-> es, stdin |-> in])
Plain(program) == X("CommandOutput", [program |-> program, args |-> <<>>, current_dir |-> <<>>, envs |-> <<>>, stdin |-> <<>>])
\* every list of arguments with every STDIN; every environment, directory and STDIN with an argument for each
Wide == {<<as, 1, 1, i>> : as \in ArgLists, i \in {1, 3}}
Deep == {<<as, e, d, i>> : as \in {<<10, 11, 12, 9>>, <<9>>, <<13>>, <<>>, <<6>>, <<11, 15, 1>>}, e \in 1..Len(Envs), d \in 1..Len(Dirs), i \in 1..Len(Ins)}
More == {<<as, e, d, 3>> : as \in {<<1>> \o x : x \in [1..1 -> 1..Len(Args)]}, e \in 1..Len(Envs), d \in {1, 2}}
Init == cs \in Wide \cup Deep \cup More \cup {<<<<>>, 0, p, 0>> : p \in 1..2}
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs
As == [j \in 1..Len(cs[1]) |-> Args[cs[1][j]]]
Node == IF cs[2] = 0 THEN Plain(<<"/nonexistent/program", "/ucv/probe">>[cs[3]])
        ELSE Cmd(IF cs[3] = 2 THEN <<Str("d")>> \o As ELSE As, Envs[cs[2]], Dirs[cs[3]], Ins[cs[4]])
S0 == Doc("https://www.example.com/p", <<>>, <<<<"v", "a value">>>>, <<>>)
E0 == EnvOf(UrlOf(S0.url), [flags |-> {}, vars |-> S0.vars], <<>>)
R == Src(Node, E0, C0)
Is(xs, j) == cs[1][j] \in xs
\* said without evaluating the command: words come out as they are, in order; what is missing is an error before anything runs
Law ==
    LET n == Len(cs[1])
        words == {1, 2, 3, 4, 5}
        word == <<"a b", "", "-x=$UCV_A;*", EncodeCP(233), "a value">>
        dir == IF cs[3] = 2 THEN "/usr" ELSE "" IN
    cs[2] = 0 \/
    /\ R.k # "out"
    /\ (\E j \in 1..n : Is({6, 7, 8}, j)) => R.k = "err"
    /\ (cs[2] \in {5, 6} \/ cs[3] = 3 \/ cs[4] \in {5, 6}) => R.k = "err"
    /\ (n > 0 /\ (\A j \in 1..n : Is(words, j)) /\ cs[2] \notin {5, 6} /\ cs[3] # 3 /\ cs[4] \notin {5, 6}) => R.k = "ok" /\ R.v = <<dir \o Cat([j \in 1..n |-> "[" \o word[cs[1][j]] \o "]"])>>
    /\ (cs[1] = <<9>> /\ R.k = "ok") => R.v = <<dir \o <<"", "", "text" \o Chr(10) \o EncodeCP(233) \o " more", "a value">>[cs[4]]>>
    /\ R.c = C0
Emitted == Emit([S0 EXCEPT !.steps = <<StepN("src", Node)>>])
=============================================================================
