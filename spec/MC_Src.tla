-------------------------------- MODULE MC_Src -------------------------------
(***************************************************************************)
(* String sources (C15): every kind of source over absent, empty, present  *)
(* and failing inner sources.                                              *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NB            \* how many base sources take part in the deepest products
VARIABLE cs
Cross(ls, F(_)) == [i \in 1..Prod([j \in 1..Len(ls) |-> Len(ls[j])]) |->
    LET d == Digits0(i - 1, [j \in 1..Len(ls) |-> Len(ls[j])]) IN F([j \in 1..Len(ls) |-> ls[j][d[j]]])]
\* present, absent, failing, empty, a part, an absent part, a failing conversion, a variable that is not there
B == <<Str("a"), SNone, SErr, Str(""), SPart(K("Fragment")), X("Modified", "") , SpVar("gone"), Str("b")>>
Base == [i \in 1..Len(B) |-> IF i = 6 THEN [k |-> "Modified", value |-> Str("q"), modification |-> X("StripPrefix", Str("a"))] ELSE B[i]]
Few == SubSeq(Base, 1, NB)
Mats == <<K("Always"), K("Never"), X("Error", "e"), X("Is", Str("a")), X("Is", SNone)>>
Mods == <<X("Append", Str("!")), X("Error", "e"), X("Set", SNone), X("IgnoreError", X("All", <<X("Append", Str("z")), X("Error", "e")>>)), X("StripPrefix", Str("a"))>>
Hand == Cross(<<<<"ErrorToNone", "ErrorToEmptyString", "NoneToEmptyString", "Debug">>, Base>>, LAMBDA a : X(a[1], a[2]))
   \o Cross(<<<<"ErrorToNone", "ErrorToEmptyString", "NoneToEmptyString">>, <<"ErrorToNone", "ErrorToEmptyString", "NoneToEmptyString">>, Base>>, LAMBDA a : X(a[1], X(a[2], a[3])))
   \o Cross(<<Base, Base>>, LAMBDA a : [k |-> "TryElse", try |-> a[1], else |-> a[2]])
   \o Cross(<<Base, Base>>, LAMBDA a : [k |-> "NoneTo", value |-> a[1], if_none |-> a[2]])
   \o Cross(<<Few, Few, Few>>, LAMBDA a : [k |-> "TryElse", try |-> [k |-> "TryElse", try |-> a[1], else |-> a[2]], else |-> a[3]])
   \o Cross(<<Few, Few, Few>>, LAMBDA a : [k |-> "NoneTo", value |-> [k |-> "TryElse", try |-> a[1], else |-> a[2]], if_none |-> a[3]])
   \o Cross(<<Base, Few, Few>>, LAMBDA a : [k |-> "IfStringIsNone", value |-> a[1], then |-> a[2], else |-> a[3]])
   \o Cross(<<Base, Mats, Few, <<Str("e"), SNone>>>>, LAMBDA a : [k |-> "IfStringMatches", value |-> a[1], matcher |-> a[2], then |-> a[3], else |-> a[4]])
   \o Cross(<<<<"Params", "Common", "Scratchpad">>, <<Str("n1"), Str("n3"), SNone, SErr>>, Few, <<Str("e"), SErr>>>>, LAMBDA a : [k |-> "IfFlag", flag |-> [type |-> a[1], name |-> a[2]], then |-> a[3], else |-> a[4]])
Joins == Cross(<<<<"", "-", EncodeCP(233)>>, Base>>, LAMBDA a : [k |-> "Join", sources |-> <<a[2]>>, join |-> a[1]])
   \o Cross(<<<<"", "-">>, Base, Base>>, LAMBDA a : [k |-> "Join", sources |-> <<a[2], a[3]>>, join |-> a[1]])
   \o Cross(<<Few, Few, Few>>, LAMBDA a : [k |-> "Join", sources |-> a, join |-> ", "])
   \o <<[k |-> "Join", sources |-> <<>>, join |-> "-"]>>
Keys3 == <<<<>>, <<<<"a", Str("A")>>, <<"", SNone>>>>, <<<<"b", SErr>>, <<"f", Str("F")>>>>>>
Maps == Cross(<<Base, Keys3, <<<<>>, <<Str("null")>>, <<SNone>>>>, <<<<>>, <<Str("else")>>, <<SErr>>>>>>, LAMBDA a : [k |-> "Map", value |-> a[1], map |-> TMap(a[2], a[3], a[4])])
   \o Cross(<<<<Str("n1"), Str("n2"), Str("n3"), Str("n4"), Str("none"), SNone, SErr>>, Base \o <<Str("zz"), Str("f")>>>>, LAMBDA a : [k |-> "ParamsMap", name |-> a[1], key |-> a[2]])
   \o Cross(<<<<Str("n1"), Str("n2"), Str("none"), SNone, SErr>>, Base \o <<Str("c"), Str("d")>>>>, LAMBDA a : [k |-> "ParamsNamedPartitioning", name |-> a[1], element |-> a[2]])
Names == <<Str("n1"), Str("n2"), Str("n3"), Str("x"), SNone, SErr>>
Vars == Cross(<<<<"Params", "JobContext", "TaskContext", "Common", "Scratchpad">>, Names>>, LAMBDA a : X("Var", [type |-> a[1], name |-> a[2]]))
   \o [i \in 1..5 |-> X("Var", [type |-> "Env", name |-> <<Str("UCV_A"), Str("UCV_EMPTY"), Str("UCV_BAD"), Str("UCV_NONE"), SNone>>[i]])]
Parts == <<K("Whole"), K("Scheme"), K("Username"), K("Password"), K("Host"), K("Port"), K("Path"), K("Query"), K("Fragment"), K("Domain"), K("RegDomain"), K("DomainMiddle"), K("FqdnPeriod"), X("PathSegment", -1), X("QueryParam", [name |-> "x", index |-> 0]), K("NextPathSegment")>>
Texts == Base \o <<Str("https://u:p@www.example.com:81/a/b?x=1#f"), Str("mailto:x"), SPart(K("Whole")), Str("//x")>>
Ext == [i \in 1..Len(Parts) |-> SPart(Parts[i])] \o Cross(<<Texts, Parts>>, LAMBDA a : [k |-> "ExtractPart", value |-> a[1], part |-> a[2]])
Moded == Cross(<<Base, Mods>>, LAMBDA a : [k |-> "Modified", value |-> a[1], modification |-> a[2]])
Hays == <<Str("a[b]c[d]"), Str("[x"), Str("x]"), Str("[[y]]"), Str(""), SNone, SErr>>
Delims == <<Str("["), Str("]"), Str(""), Str("[["), SNone, SErr>>
Btw == Cross(<<Hays, Delims, Delims>>, LAMBDA a : [k |-> "ExtractBetween", value |-> a[1], start |-> a[2], end |-> a[3]])
Rxs == Cross(<<Base \o <<Str("ab1"), Str("bbb")>>, In.rx>>, LAMBDA a : [k |-> "RegexFind", value |-> a[1], regex |-> a[2]])
Args == <<<<>>, <<<<"x", Str("A")>>>>, <<<<"x", SNone>>>>, <<<<"x", SErr>>>>, <<<<"y", Str("Y")>>>>>>
Calls == Cross(<<<<"lit", "none", "err", "arg", "nest", "flag", "missing">>, <<<<>>, <<"a">>, <<"b">>>>, Args>>, LAMBDA a : X("Common", Call(a[1], a[2], a[3])))
   \o <<X("Common", [Call("x", <<>>, <<>>) EXCEPT !.name = SNone]), X("Common", [Call("x", <<>>, <<>>) EXCEPT !.name = SErr])>>
Nodes == Base \o Hand \o Joins \o Maps \o Vars \o Ext \o Moded \o Btw \o Rxs \o Calls
States == << Doc("https://www.example.co.uk./a//b?x=1&y=&x=2#f", <<>>, <<>>, <<>>),
             DocCa("mailto:user@example.com", <<"n1", "n3">>, <<<<"n1", "sp">>, <<"n2", "">>, <<"x", "spx">>>>, <<[flags |-> <<"n1", "n3">>, vars |-> <<<<"n1", "ca">>, <<"n2", "">>>>]>>, <<>>) >>
Init == \E n \in 1..Len(Nodes), s \in 1..2 : cs = <<n, s>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs
Node == Nodes[cs[1]]
S0 == States[cs[2]]
E0 == EnvOf(UrlOf(S0.url), [flags |-> RangeOf(S0.flags), vars |-> S0.vars], S0.ca)
Ev(n) == Src(n, E0, C0)
\* "none", "err", or the value
Val(r) == IF r.k = "err" THEN <<"err">> ELSE IF r.v = <<>> THEN <<"none">> ELSE <<"ok", r.v[1]>>
Law ==
    LET n == Node
        r == Ev(n)
        o == Val(r)
        x(m) == Val(Ev(m)) IN
    r.k = "out" \/
    /\ n.k = "ErrorToNone" => o = IF x(n.x)[1] = "err" THEN <<"none">> ELSE x(n.x)
    /\ n.k = "ErrorToEmptyString" => o = IF x(n.x)[1] = "err" THEN <<"ok", "">> ELSE x(n.x)
    /\ n.k = "NoneToEmptyString" => o = IF x(n.x)[1] = "none" THEN <<"ok", "">> ELSE x(n.x)
    /\ n.k = "TryElse" => o = IF x(n.try)[1] = "err" THEN x(n.else) ELSE x(n.try)
    /\ n.k = "NoneTo" => o = IF x(n.value)[1] = "none" THEN x(n.if_none) ELSE x(n.value)
    /\ n.k = "IfStringIsNone" => o = IF x(n.value)[1] = "err" THEN <<"err">> ELSE IF x(n.value)[1] = "none" THEN x(n.then) ELSE x(n.else)
    /\ n.k = "Join" => LET d == FirstIdx(1, Len(n.sources), LAMBDA i : x(n.sources[i])[1] # "ok") IN
         o = IF d = 0 THEN <<"ok", JoinS([i \in 1..Len(n.sources) |-> x(n.sources[i])[2]], n.join)>> ELSE x(n.sources[d])
    /\ n.k = "Map" => x(n.value)[1] = "err" \/
         LET v == x(n.value)
             hit == v[1] = "ok" /\ v[2] \in Keys(n.map.map) IN
         o = CASE hit -> x(LookupAl(n.map.map, v[2])[1])
               [] ~hit /\ v[1] = "none" /\ n.map.if_null # <<>> -> x(n.map.if_null[1])
               [] OTHER -> IF n.map.else # <<>> THEN x(n.map.else[1]) ELSE <<"err">>
    /\ n.k = "Modified" => (x(n.value)[1] # "ok" => o = x(n.value))
    /\ n.k = "Part" => o[1] # "err"
    /\ r.c = C0
Emitted == Emit([S0 EXCEPT !.steps = <<StepN("src", Node)>>])
=============================================================================
