------------------------------ MODULE MC_Cond -------------------------------
(***************************************************************************)
(* Conditions (C06): every combinator over outcomes true, false and errors *)
(* of several kinds with every error filter, and every leaf condition over *)
(* a table of URLs and of values that match, do not match, are empty or    *)
(* absent.                                                                 *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NEST          \* how many base conditions take part in the nested filters
VARIABLE cs
T == K("Always")  F == K("Never")
E1 == X("Error", "e")
E2 == [k |-> "PartContains", part |-> K("Password"), value |-> Str("x"), where |-> K("Anywhere")]
E3 == [k |-> "StringContains", value |-> SNone, substring |-> Str("x"), where |-> K("Anywhere")]
TryC(a, b, f) == [k |-> "TryElse", try |-> a, else |-> b, filter |-> f]
E4 == TryC(E1, E2, <<>>)
Base == <<E1, T, F, E2, E3, E4>>
NBs == Len(Base)
Filters == <<<<>>, <<<<>>>>, <<<<"ExplicitError">>>>, <<<<"PartIsNone">>>>, <<<<"TryElseError">>>>, <<<<"ExplicitError", "StringSourceIsNone">>>> >>
NF == Len(Filters)
Treat(o, x, f) == [k |-> IF o = 1 THEN "TreatErrorAsPass" ELSE "TreatErrorAsFail", condition |-> x, filter |-> f]
Seqs(n, i) == [j \in 1..n |-> Base[Digits0(i, [q \in 1..n |-> NBs])[j]]]
Pow(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN NBs ELSE IF n = 2 THEN NBs * NBs ELSE NBs * NBs * NBs

Urls == <<"https://www.example.co.uk./a//b?x=1&y=&x=2#f", "http://user@example.com:8080/p?", "https://127.0.0.1/", "http://[::1]/?a", "mailto:user@example.com", "foo:/a/b",
          "foo://foo.test/a?b=c#d", "https://com/", "https://example.com./#", "https://a.b.example.github.io/x?%61=1&A=3", "https://localhost/p?x", "https://co.uk/a?=v&x=%20">>
HostVals == <<<<>>, <<"">>, <<"example.com">>, <<"example.com.">>, <<"www.example.co.uk.">>, <<"www.example.co.uk">>, <<"www">>, <<"example">>, <<"example.co.uk">>, <<"www.example">>, <<"co.uk">>, <<"com">>,
              <<"127.0.0.1">>, <<"[::1]">>, <<"foo.test">>, <<"foo">>, <<"test">>, <<"a.b">>, <<"github.io">>, <<"example.github.io">>, <<"localhost">>, <<"EXAMPLE.com">>>>
HostConds == <<"HostIs", "SubdomainIs", "RegDomainIs", "DomainIs", "DomainMiddleIs", "NotDomainSuffixIs", "DomainSuffixIs">>
Plain == <<"UrlHasHost", "HostIsFqdn", "HostIsDomain", "HostIsIp", "HostIsIpv4", "HostIsIpv6">>
Parts == <<K("Host"), K("Fragment"), K("Query"), K("Port"), K("Path"), K("Username"), K("Password"), X("PathSegment", -1), X("QueryParam", [name |-> "x", index |-> 1]), K("Subdomain"), K("FqdnPeriod"), K("NextPathSegment")>>
Vals == <<SNone, Str(""), Str("f"), Str("x"), Str("/p"), Str("8080"), SErr, SPart(K("Host")), SPart(K("Fragment")), Str("b")>>
Locs == <<K("Anywhere"), K("Start"), K("Equals"), X("After", 1), X("Error", "e")>>
Mats == <<T, F, E1, X("Is", Str("")), X("Is", Str("/p")), X("Is", SNone), [k |-> "Contains", value |-> Str("b"), where |-> K("Anywhere")]>>
Names == <<"x", "y", "a", "A", "", "zz">>
Sets == <<<<>>, <<"example.com", "f">>, <<"">>, <<"www.example.co.uk.", "127.0.0.1", "/p", "[::1]">>>>
FlagTypes == <<"Params", "Common", "Scratchpad">>
VarTypes == <<"Params", "JobContext", "TaskContext", "Common", "Scratchpad", "Env">>
VNames == <<"n1", "n2", "n3">>
VVals == <<SNone, Str(""), Str("pv"), Str("job"), Str("task"), Str("sp"), Str("ca"), SErr>>
EnvNames == <<"UCV_A", "UCV_EMPTY", "UCV_BAD", "UCV_NO">>
States == << Doc(Urls[1], <<>>, <<>>, <<>>), DocCa(Urls[1], <<"n1", "n3">>, <<<<"n1", "sp">>, <<"n2", "">>>>, <<[flags |-> <<"n1", "n3">>, vars |-> <<<<"n1", "ca">>, <<"n2", "">>>>]>>, <<>>) >>
Calls == <<Call("yes", <<>>, <<>>), Call("no", <<>>, <<>>), Call("err", <<>>, <<>>), Call("arg", <<>>, <<>>), Call("arg", <<>>, <<<<"x", Str("1")>>>>), Call("arg", <<>>, <<<<"x", SNone>>>>),
           Call("flag", <<"a">>, <<>>), Call("flag", <<"b">>, <<>>), Call("missing", <<>>, <<>>), [Call("x", <<>>, <<>>) EXCEPT !.name = SNone], [Call("x", <<>>, <<>>) EXCEPT !.name = SErr]>>
MapV(m) == TMap(IF m % 2 = 1 THEN <<<<"", T>>, <<"f", T>>, <<"/p", E1>>>> ELSE <<>>, IF (m \div 2) % 2 = 1 THEN <<E3>> ELSE <<>>, IF m \div 4 = 1 THEN <<X("Not", T)>> ELSE <<>>)
MapT(m) == TMap(IF m % 2 = 1 THEN <<<<"", F>>, <<"f", F>>>> ELSE <<>>, IF (m \div 2) % 2 = 1 THEN <<T>> ELSE <<>>, IF m \div 4 = 1 THEN <<T>> ELSE <<>>)
SIsNone == [k |-> "StringIs", left |-> SNone, right |-> SNone]

NU == Len(Urls)
Init ==
    \/ \E o \in 1..2, n \in 0..3 : \E i \in 0..(Pow(n) - 1) : cs = <<"seq", o, n, i>>
    \/ \E a, b, d \in 1..NBs : cs = <<"if", a, b, d>>
    \/ \E a \in 1..NBs : cs = <<"not", a>>
    \/ \E o \in 1..2, f \in 1..NF, a \in 1..NBs : cs = <<"treat", o, f, a>>
    \/ \E a, b \in 1..NBs, f \in 1..NF : cs = <<"try", a, b, f>>
    \/ \E o \in 1..2, f, g \in 1..NF, a, b \in 1..NEST : cs = <<"treattry", o, f, a, b, g>>
    \/ \E f, g \in 1..NF, a, b, d \in 1..NEST : cs = <<"trytry", f, g, a, b, d>>
    \/ \E o, p \in 1..2, f, g \in 1..NF, a \in 1..NBs : cs = <<"treattreat", o, p, f, g, a>>
    \/ \E u \in 1..NU, p \in 1..Len(Plain) : cs = <<"plain", u, p>>
    \/ \E u \in 1..NU, h \in 1..Len(HostConds), v \in 1..Len(HostVals) : cs = <<"host", u, h, v>>
    \/ \E u \in 1..NU, v \in 1..Len(Sets) : cs = <<"oneof", u, v>>
    \/ \E u \in 1..NU, n \in 1..Len(Names) : cs = <<"qhas", u, n>>
    \/ \E u \in 1..NU, v \in {"/", "/p", "", "/a//b", "user@example.com", "/a/b"} : cs = <<"path", u, v>>
    \/ \E u \in 1..NU, p \in 1..Len(Parts), v \in 1..Len(Vals) : cs = <<"partis", u, p, v>>
    \/ \E u \in 1..NU, p \in 1..Len(Parts), v \in 1..7, l \in 1..Len(Locs) : (u <= 2 \/ (l = 1 /\ v <= 4)) /\ cs = <<"partcontains", u, p, v, l>>
    \/ \E u \in 1..NU, p \in 1..Len(Parts), m \in 1..Len(Mats) : (u <= 3) /\ cs = <<"partmatches", u, p, m>>
    \/ \E u \in 1..NU, p \in 1..Len(Parts), s \in 1..Len(Sets) : cs = <<"partoneof", u, p, s>>
    \/ \E s \in 1..2, t \in 1..3, n \in 1..3 : cs = <<"flag", s, t, n>>
    \/ \E s \in 1..2, t \in 1..6, n \in 1..3, v \in 1..Len(VVals) : cs = <<"var", s, t, n, v>>
    \/ \E n \in 1..4, v \in {SNone, Str(""), Str("env a")} : cs = <<"env", n, v>>
    \/ \E a, b \in 1..Len(Vals) : cs = <<"stringis", a, b>>
    \/ \E a, b \in 1..Len(Vals), l \in 1..Len(Locs) : (l <= 2 \/ a <= 4) /\ cs = <<"strcontains", a, b, l>>
    \/ \E a \in 1..Len(Vals), m \in 1..Len(Mats) : cs = <<"strmatches", a, m>>
    \/ \E s \in 1..2, i \in 1..Len(Calls) : cs = <<"call", s, i>>
    \/ \E u \in 1..NU, p \in 1..7, m \in 0..7, b \in 1..2 : u <= 4 /\ cs = <<"partmap", u, p, m, b>>
    \/ \E v \in 1..Len(Vals), m \in 0..7, b \in 1..2 : cs = <<"strmap", v, m, b>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Term ==
    LET a == cs[2] IN
    CASE cs[1] = "seq" -> X(IF a = 1 THEN "All" ELSE "Any", Seqs(cs[3], cs[4]))
      [] cs[1] = "if" -> [k |-> "If", if |-> Base[a], then |-> Base[cs[3]], else |-> Base[cs[4]]]
      [] cs[1] = "not" -> X("Not", Base[a])
      [] cs[1] = "treat" -> Treat(a, Base[cs[4]], Filters[cs[3]])
      [] cs[1] = "try" -> TryC(Base[a], Base[cs[3]], Filters[cs[4]])
      [] cs[1] = "treattry" -> Treat(a, TryC(Base[cs[4]], Base[cs[5]], Filters[cs[6]]), Filters[cs[3]])
      [] cs[1] = "trytry" -> TryC(TryC(Base[cs[4]], Base[cs[5]], Filters[cs[3]]), Base[cs[6]], Filters[a])
      [] cs[1] = "treattreat" -> Treat(a, Treat(cs[3], Base[cs[6]], Filters[cs[5]]), Filters[cs[4]])
      [] cs[1] = "plain" -> K(Plain[cs[3]])
      [] cs[1] = "host" -> X(HostConds[cs[3]], HostVals[cs[4]])
      [] cs[1] = "oneof" -> X("HostIsOneOf", Sets[cs[3]])
      [] cs[1] = "qhas" -> X("QueryHasParam", Names[cs[3]])
      [] cs[1] = "path" -> X("PathIs", cs[3])
      [] cs[1] = "partis" -> [k |-> "PartIs", part |-> Parts[cs[3]], value |-> Vals[cs[4]]]
      [] cs[1] = "partcontains" -> [k |-> "PartContains", part |-> Parts[cs[3]], value |-> Vals[cs[4]], where |-> Locs[cs[5]]]
      [] cs[1] = "partmatches" -> [k |-> "PartMatches", part |-> Parts[cs[3]], matcher |-> Mats[cs[4]]]
      [] cs[1] = "partoneof" -> [k |-> "PartIsOneOf", part |-> Parts[cs[3]], values |-> Sets[cs[4]]]
      [] cs[1] = "flag" -> X("FlagIsSet", FlagRef(FlagTypes[cs[3]], VNames[cs[4]]))
      [] cs[1] = "var" -> [k |-> "VarIs", var |-> [type |-> VarTypes[cs[3]], name |-> Str(VNames[cs[4]])], value |-> VVals[cs[5]]]
      [] cs[1] = "env" -> [k |-> "VarIs", var |-> [type |-> "Env", name |-> Str(EnvNames[a])], value |-> cs[3]]
      [] cs[1] = "stringis" -> [k |-> "StringIs", left |-> Vals[a], right |-> Vals[cs[3]]]
      [] cs[1] = "strcontains" -> [k |-> "StringContains", value |-> Vals[a], substring |-> Vals[cs[3]], where |-> Locs[cs[4]]]
      [] cs[1] = "strmatches" -> [k |-> "StringMatches", value |-> Vals[a], matcher |-> Mats[cs[3]]]
      [] cs[1] = "call" -> X("Common", Calls[cs[3]])
      [] cs[1] = "partmap" -> [k |-> "PartMap", part |-> Parts[cs[3]], map |-> IF cs[5] = 1 THEN MapV(cs[4]) ELSE MapT(cs[4])]
      [] cs[1] = "strmap" -> [k |-> "StringMap", value |-> Vals[a], map |-> IF cs[4] = 1 THEN MapV(cs[3]) ELSE MapT(cs[3])]
HasUrl == cs[1] \in {"plain", "host", "oneof", "qhas", "path", "partis", "partcontains", "partmatches", "partoneof", "partmap"}
S0 == IF HasUrl THEN Doc(Urls[cs[2]], <<>>, <<>>, <<>>) ELSE IF cs[1] \in {"flag", "var", "call"} THEN States[cs[2]] ELSE States[1]
E0 == EnvOf(UrlOf(S0.url), [flags |-> RangeOf(S0.flags), vars |-> S0.vars], S0.ca)
Ev(t) == Cond(t, E0, C0)
\* "t", "f", or the name of the error
Out3(r) == IF r.k = "ok" THEN (IF r.v THEN "t" ELSE "f") ELSE r.e[1]
Law ==
    LET t == Term
        r == Ev(t)
        o == Out3(r)
        x(c) == Out3(Ev(c))
        isErr(s) == s \notin {"t", "f"} IN
    /\ r.k \in {"ok", "err"}
    /\ t.k = "Not" => o = CASE x(t.x) = "t" -> "f" [] x(t.x) = "f" -> "t" [] OTHER -> x(t.x)
    /\ t.k \in {"All", "Any"} =>
         LET stop == IF t.k = "All" THEN "f" ELSE "t"
             d == FirstIdx(1, Len(t.x), LAMBDA i : x(t.x[i]) = stop \/ isErr(x(t.x[i]))) IN
         o = IF d = 0 THEN (IF t.k = "All" THEN "t" ELSE "f") ELSE x(t.x[d])
    /\ t.k = "If" => o = CASE x(t.if) = "t" -> x(t.then) [] x(t.if) = "f" -> x(t.else) [] OTHER -> x(t.if)
    /\ t.k \in {"TreatErrorAsPass", "TreatErrorAsFail"} =>
         o = IF isErr(x(t.condition)) /\ (t.filter = <<>> \/ x(t.condition) \in RangeOf(t.filter[1])) THEN (IF t.k = "TreatErrorAsPass" THEN "t" ELSE "f") ELSE x(t.condition)
    /\ t.k = "TryElse" =>
         o = IF isErr(x(t.try)) /\ (t.filter = <<>> \/ x(t.try) \in RangeOf(t.filter[1])) THEN (IF isErr(x(t.else)) THEN "TryElseError" ELSE x(t.else)) ELSE x(t.try)
    \* a host condition without a value holds exactly for the URLs without that part
    /\ cs[1] = "host" => o = x([k |-> "PartIs", part |-> K(<<"Host", "Subdomain", "RegDomain", "Domain", "DomainMiddle", "NotDomainSuffix", "DomainSuffix">>[cs[3]]),
                                value |-> IF t.x = <<>> THEN SNone ELSE Str(t.x[1])])
    \* exactly one kind of host
    /\ cs[1] = "plain" => LET n == Cardinality({q \in {"HostIsDomain", "HostIsIpv4", "HostIsIpv6"} : x(K(q)) = "t"}) IN
         n = (IF x(K("UrlHasHost")) = "t" THEN 1 ELSE 0) /\ (x(K("HostIsFqdn")) = "t" => x(K("HostIsDomain")) = "t")
Emitted == Emit([S0 EXCEPT !.steps = <<StepN("cond", Term)>>])
=============================================================================
