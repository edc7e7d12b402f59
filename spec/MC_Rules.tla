------------------------------ MODULE MC_Rules ------------------------------
(***************************************************************************)
(* Rules, maps, repetition and common calls (C05).                         *)
(***************************************************************************)
EXTENDS MC
CONSTANTS LIMITS
VARIABLE cs
Frag == K("Fragment")
AppPath == ModP(K("Path"), AppendM("x"))
AppVarS(s) == AppVar("v", s)
Starts == << [url |-> "https://h.example.com/p", flags |-> <<>>, vars |-> <<>>],
             [url |-> "https://example.com/p?q=1#fr", flags |-> <<"f">>, vars |-> <<<<"v", "1">>>>],
             [url |-> "https://example.com/p?#", flags |-> <<"f", "g">>, vars |-> <<<<"v", "">>>>] >>
PathLen(s) == [k |-> "PartIs", part |-> K("Path"), value |-> Str(s)]
\* rules a Repeat may run: progress in the URL only, in a flag only, in a variable only, back and forth, errors
RL == << MRule(K("None")),
         NRule(X("Not", PathLen("/pxx")), AppPath, <<>>),
         MRule(SetFlag("f", TRUE)),
         NRule(VarIs("v", Str("1")), SetVar("v", Str("2")), <<IfM(VarIs("v", Str("2")), SetVar("v", Str("3")), <<>>)>>),
         NRule(VarIs("v", SNone), SetVar("v", Str("1")), <<IfM(VarIs("v", Str("1")), SetP(Frag, Str("one")), <<SetP(Frag, Str("more"))>>)>>),
         NRule(FlagIs("g"), SetFlag("g", FALSE), <<SetFlag("g", TRUE)>>),
         NRule(FlagIs("f"), SetP(Frag, Str("z")), <<SetFlag("f", TRUE)>>),
         MRule(AppVarS("y")),
         MRule(AppPath),
         MRule(MErrN),
         NRule(PathLen("/pxx"), MErrN, <<AppPath>>),
         MRule(All(<<SetFlag("g", TRUE), SetFlag("g", FALSE)>>)),
         NRule(K("Never"), MErrN, <<>>),
         NRule(MErrN, AppPath, <<AppPath>>),
         MRule(SetVar("v", SNone)) >>
NR == Len(RL)
Lims == SetToSortSeq(LIMITS, <)
\* maps: every combination of a matching key, if_null and else, over every kind of value
MapVals == <<SPart(Frag), SPart(K("Query")), SNone, Str("fr"), Str(""), SErr, SpVar("v"), SPart(K("Path"))>>
MapParts == <<Frag, K("Query"), K("Path"), K("Password"), K("Port")>>
MapM(tag) == SetVar("hit", Str(tag))
Shape(m, F(_)) == TMap(IF m % 2 = 1 THEN <<<<"", F("empty")>>, <<"fr", F("key")>>, <<"1", F("key1")>>>> ELSE <<>>,
                       IF (m \div 2) % 2 = 1 THEN <<F("null")>> ELSE <<>>, IF (m \div 4) % 2 = 1 THEN <<F("else")>> ELSE <<>>)
RMap(k, m) ==                    \* the map of a rule or mapper of kind k
    CASE k \in {"PartMap", "StringMap"} -> Shape(m, LAMBDA t : MapM(t))
      [] k \in {"PartRuleMap", "StringRuleMap"} -> Shape(m, LAMBDA t : MRule(MapM(t)))
      [] k \in {"PartRulesMap", "StringRulesMap"} -> Shape(m, LAMBDA t : <<MRule(AppPath), MRule(MapM(t))>>)
RKinds == <<"PartMap", "PartRuleMap", "PartRulesMap", "StringMap", "StringRuleMap", "StringRulesMap">>
\* common calls: the configuration defines them; arguments are visible only inside the call
CallNames == <<"show", "fails", "outer", "leak", "missing", "byname">>
Calls == << Call("show", <<>>, <<>>), Call("show", <<"a">>, <<<<"x", Str("1")>>>>), Call("show", <<>>, <<<<"x", SPart(K("Path"))>>>>), Call("show", <<"a">>, <<<<"x", SPart(Frag)>>>>),
            Call("show", <<>>, <<<<"x", SNone>>>>), Call("show", <<>>, <<<<"x", SErr>>>>), Call("fails", <<>>, <<>>), Call("outer", <<"a">>, <<<<"x", Str("o")>>>>),
            Call("outer", <<>>, <<>>), Call("missing", <<>>, <<<<"x", SErr>>>>), [Call("x", <<>>, <<>>) EXCEPT !.name = SPart(Frag)],
            [Call("x", <<>>, <<>>) EXCEPT !.name = SErr], [Call("x", <<"a">>, <<>>) EXCEPT !.name = Var("Scratchpad", "nm")], Call("leak", <<"a">>, <<<<"x", Str("1")>>>>) >>
CallM(i) == X("Common", Calls[i])
Wraps == <<"plain", "then", "ignore", "revert", "rule", "twice">>
WrapM(w, m) == CASE w = "plain" -> m
                 [] w = "then" -> All(<<m, SetVar("after", NTE(X("ErrorToNone", Var("Common", "x"))))>>)
                 [] w = "ignore" -> X("IgnoreError", m)
                 [] w = "revert" -> X("RevertOnError", m)
                 [] w = "rule" -> X("Rule", X("Common", m.x))
                 [] w = "twice" -> All(<<m, m>>)
T == K("Always")  F == K("Never")  EE == MErrN
Conds == <<T, F, EE>>
Marks == <<AppVarS("1"), AppVarS("2"), AppVarS("3")>>
Chain3(a, b, d) == X("ConditionChain", <<[condition |-> Conds[a], mapper |-> Marks[1]], [condition |-> Conds[b], mapper |-> Marks[2]], [condition |-> Conds[d], mapper |-> Marks[3]]>>)

Init ==
    \/ \E s \in 1..2, l \in 1..Len(Lims), a \in 1..NR : cs = <<"rep1", s, l, a>>
    \/ \E s \in 1..2, l \in 1..Len(Lims), a, b \in 1..NR : cs = <<"rep2", s, l, a, b>>
    \/ \E s \in 1..2, a, b \in 1..NR : cs = <<"list", s, a, b>>
    \/ \E s \in 1..2, g \in 1..3, a, b \in 1..NR : (a <= 11 /\ b <= 4) /\ cs = <<"shared", s, g, a, b>>
    \/ \E s \in 1..3, k \in 1..6, m \in 0..7, v \in 1..Len(MapVals) : (k <= 3 => v <= Len(MapParts)) /\ cs = <<"rmap", s, k, m, v>>
    \/ \E s \in 1..3, k \in {1, 4}, m \in 0..7, v \in 1..Len(MapVals) : (k <= 3 => v <= Len(MapParts)) /\ cs = <<"mmap", s, k, m, v>>
    \/ \E s \in 1..2, i \in 1..Len(Calls), w \in 1..Len(Wraps) : cs = <<"call", s, i, w>>
    \/ \E s \in 1..2, a, b, d \in 1..3 : cs = <<"chain", s, a, b, d>>
    \/ \E s \in 1..2, c \in 1..3, e \in 0..1, k \in 1..2 : cs = <<"if", s, c, e, k>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Rep(l, rs) == [k |-> "Repeat", rules |-> rs, limit |-> Lims[l]]
\* <<kind, node>>
TermK ==
    CASE cs[1] = "rep1" -> <<"rule", Rep(cs[3], <<RL[cs[4]]>>)>>
      [] cs[1] = "rep2" -> <<"rule", Rep(cs[3], <<RL[cs[4]], RL[cs[5]]>>)>>
      [] cs[1] = "list" -> <<"rules", <<RL[cs[3]], RL[cs[4]], MRule(AppVarS("end"))>>>>
      [] cs[1] = "shared" -> <<"rule", [k |-> "SharedCondition", condition |-> Conds[cs[3]], rules |-> <<RL[cs[4]], RL[cs[5]]>>]>>
      [] cs[1] \in {"rmap", "mmap"} ->
            <<IF cs[1] = "rmap" THEN "rule" ELSE "mapper",
              IF cs[3] <= 3 THEN [k |-> RKinds[cs[3]], part |-> MapParts[cs[5]], map |-> RMap(RKinds[cs[3]], cs[4])]
              ELSE [k |-> RKinds[cs[3]], value |-> MapVals[cs[5]], map |-> RMap(RKinds[cs[3]], cs[4])]>>
      [] cs[1] = "call" -> <<"mapper", WrapM(Wraps[cs[4]], CallM(cs[3]))>>
      [] cs[1] = "chain" -> <<"mapper", Chain3(cs[3], cs[4], cs[5])>>
      [] cs[1] = "if" -> IF cs[5] = 1 THEN <<"mapper", IfM(Conds[cs[3]], Marks[1], IF cs[4] = 1 THEN <<Marks[2]>> ELSE <<>>)>>
                         ELSE <<"rule", NRule(Conds[cs[3]], Marks[1], IF cs[4] = 1 THEN <<Marks[2]>> ELSE <<>>)>>
S0 == LET s == Starts[cs[2]] IN IF cs[1] = "call" /\ cs[2] = 1 THEN [s EXCEPT !.vars = <<<<"nm", "show">>>>] ELSE s
E0 == EnvOf(UrlOf(S0.url), [flags |-> RangeOf(S0.flags), vars |-> S0.vars], <<>>)
SameState(v, E) == Serialize(v.url) = Serialize(E.url) /\ SameSp(v.sp, E.sp)
RunK(t, E) == CASE t[1] = "mapper" -> Mapper(t[2], E, C0) [] t[1] = "rule" -> Rule(t[2], E, C0) [] t[1] = "rules" -> Rules(t[2], E, C0)
\* n passes over the rules, stopping at an error
RECURSIVE Passes(_, _, _)
Passes(rs, n, E) == IF n = 0 THEN Done(E, C0) ELSE Bind(Rules(rs, E, C0), LAMBDA v, c : Passes(rs, n - 1, Up(E, v)))
Law ==
    LET t == TermK
        r == RunK(t, E0) IN
    /\ r.k \in {"ok", "err"}
    \* a Repeat is its rules run limit times, except that further passes over a settled state are not needed
    /\ cs[1] \in {"rep1", "rep2"} =>
         LET q == Passes(t[2].rules, t[2].limit, E0) IN
         /\ r.k = q.k /\ SameState(r.v, Up(E0, q.v))
         /\ r.k = "ok" => (\/ \E n \in 0..t[2].limit : LET p == Passes(t[2].rules, n, E0) IN p.k = "ok" /\ SameState(r.v, Up(E0, p.v)))
    \* a list of rules is the left-to-right composition
    /\ cs[1] = "list" => LET a == Rule(t[2][1], E0, C0) IN (a.k = "err" => r.k = "err" /\ SameState(r.v, Up(E0, a.v)))
    \* a condition that does not hold leaves everything as it was
    /\ cs[1] = "shared" /\ cs[3] # 1 => SameState(r.v, E0) /\ (r.k = "err" <=> cs[3] = 3)
    \* a map without an entry for the value does nothing
    /\ cs[1] \in {"rmap", "mmap"} /\ cs[4] = 0 => SameState(r.v, E0)
    /\ cs[1] \in {"rmap", "mmap"} /\ r.k = "ok" =>
         LET v == IF cs[3] <= 3 THEN PGet(MapParts[cs[5]], E0.url).v ELSE Src(MapVals[cs[5]], E0, C0).v
             h == LookupAl(r.v.sp.vars, "hit") IN
         /\ (v = <<>> /\ (cs[4] \div 2) % 2 = 1 => h = <<"null">>)
         /\ (v = <<>> /\ (cs[4] \div 2) % 2 = 0 => h = IF cs[4] \div 4 = 1 THEN <<"else">> ELSE <<>>)
         /\ (v # <<>> => h # <<"null">>)
    \* arguments are gone after the call
    /\ cs[1] = "call" /\ Wraps[cs[4]] = "then" /\ r.k = "ok" => LookupAl(r.v.sp.vars, "after") = <<"">>
    \* only the first link whose condition holds runs
    /\ cs[1] = "chain" => LET f == FirstIdx(1, 3, LAMBDA i : cs[2 + i] # 2) IN
         IF f = 0 THEN SameState(r.v, E0) ELSE IF cs[2 + f] = 3 THEN r.k = "err" /\ SameState(r.v, E0)
         ELSE r.k = "ok" /\ SameState(r.v, Up(E0, Mapper(Marks[f], E0, C0).v))
Emitted == Emit(Doc(S0.url, S0.flags, S0.vars, <<StepN(TermK[1], TermK[2])>>))
=============================================================================
