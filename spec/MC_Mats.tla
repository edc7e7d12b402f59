------------------------------- MODULE MC_Mats -------------------------------
(***************************************************************************)
(* String matchers, string locations and character matchers (C16, and the  *)
(* segment ones for C11).                                                  *)
(***************************************************************************)
EXTENDS MC
CONSTANTS LEN, SEL      \* SEL: "all" | "segments"
VARIABLE cs
EE == EncodeCP(233)
RECURSIVE Words(_, _)
Words(al, n) == IF n = 0 THEN <<"">> ELSE LET w == Words(al, n - 1) IN
    [i \in 1..(Len(w) * Len(al)) |-> w[((i - 1) \div Len(al)) + 1] \o al[((i - 1) % Len(al)) + 1]]
RECURSIVE UptoN(_, _)
UptoN(al, n) == IF n = 0 THEN <<"">> ELSE UptoN(al, n - 1) \o Words(al, n)
Cross(ls, F(_)) == [i \in 1..Prod([j \in 1..Len(ls) |-> Len(ls[j])]) |->
    LET d == Digits0(i - 1, [j \in 1..Len(ls) |-> Len(ls[j])]) IN F([j \in 1..Len(ls) |-> ls[j][d[j]]])]
Hay == UptoN(<<"a", "b", EE>>, LEN)
Needles == <<"", "a", "ab", EE, "ba", "aa">>
Idx == [i \in 1..11 |-> i - 6]
Ends == <<<<>>>> \o [i \in 1..11 |-> <<i - 6>>]
T == K("Always")  F == K("Never")
Inner == <<K("Anywhere"), K("Start"), K("End"), K("Equals")>>
LPlain == <<T, F, X("Error", "e")>> \o Inner \o Cross(<<<<"StartsAt", "EndsAt", "After", "Before">>, Idx>>, LAMBDA a : X(a[1], a[2]))
   \o Cross(<<Idx, Ends, Inner>>, LAMBDA a : [k |-> "Range", start |-> a[1], end |-> a[2], location |-> a[3]])
   \o Cross(<<<<X("StartsAt", 1), X("Before", -1)>>, <<-1, 0, 1>>, <<<<>>, <<-1>>, <<2>>>>>>, LAMBDA a : [k |-> "Range", start |-> a[2], end |-> a[3], location |-> a[1]])
LSeg == Cross(<<<<"a", "b", "", EE, "ab">>, Inner \o <<X("StartsAt", 1)>>>>, LAMBDA a : [k |-> "AnySegment", split |-> a[1], location |-> a[2]])
   \o Cross(<<<<"a", "b", "", EE, "ab">>, Idx, Inner>>, LAMBDA a : [k |-> "NthSegment", split |-> a[1], n |-> a[2], location |-> a[3]])
\* combinators over a list of bases: true, false, several errors
CombOf(B) == Cross(<<<<"Not", "TreatErrorAsPass", "TreatErrorAsFail", "Debug">>, B>>, LAMBDA a : X(a[1], a[2]))
   \o Cross(<<<<"All", "Any", "FirstNotError">>, B, B, B>>, LAMBDA a : X(a[1], <<a[2], a[3], a[4]>>))
   \o Cross(<<<<"All", "Any", "FirstNotError">>, B, B>>, LAMBDA a : X(a[1], <<a[2], a[3]>>))
   \o Cross(<<<<"All", "Any", "FirstNotError">>, B>>, LAMBDA a : X(a[1], <<a[2]>>))
   \o <<X("All", <<>>), X("Any", <<>>)>>
   \o Cross(<<B, B, B>>, LAMBDA a : [k |-> "If", if |-> a[1], then |-> a[2], else |-> a[3]])
   \o Cross(<<B, B>>, LAMBDA a : [k |-> "TryElse", try |-> a[1], else |-> a[2]])
   \o Cross(<<B, B, B>>, LAMBDA a : [k |-> "TryElse", try |-> [k |-> "TryElse", try |-> a[1], else |-> a[2]], else |-> a[3]])
   \o Cross(<<<<"TreatErrorAsPass", "TreatErrorAsFail">>, <<"Not", "All", "Any", "FirstNotError">>, B, B>>, LAMBDA a : X(a[1], IF a[2] = "Not" THEN X("Not", a[3]) ELSE X(a[2], <<a[3], a[4]>>)))
LB == <<T, F, X("Error", "e"), X("StartsAt", 99), K("Start")>>
CB == <<T, F, K("Error"), X("IsDigitRadix", 1), X("Equals", "a")>>
MB == <<T, F, X("Error", "e"), X("Is", SNone), X("Is", Str("a"))>>

CharStrs == [i \in 1..128 |-> Chr(i - 1)] \o <<EncodeCP(233), EncodeCP(128), EncodeCP(133), EncodeCP(160), EncodeCP(8232), EncodeCP(26085), EncodeCP(128512), EncodeCP(12288)>>
CPlain == [i \in 1..19 |-> K(<<"IsAlphabetic", "IsAlphanumeric", "IsAscii", "IsAsciiAlphabetic", "IsAsciiAlphanumeric", "IsAsciiControl", "IsAsciiDigit", "IsAsciiGraphic", "IsAsciiHexdigit", "IsAsciiLowercase",
     "IsAsciiPunctuation", "IsAsciiUppercase", "IsAsciiWhitespace", "IsControl", "IsDigit", "IsLowercase", "IsNumeric", "IsUppercase", "IsWhitespace">>[i])]
   \o [i \in 1..7 |-> X("IsDigitRadix", <<0, 1, 2, 10, 16, 36, 37>>[i])] \o <<X("Equals", "a"), X("Equals", EE), [k |-> "Between", min |-> "b", max |-> "y"], [k |-> "Between", min |-> "z", max |-> "a"], X("IsOneOf", <<"a", EE>>), X("IsOneOf", <<>>)>>

Vals == <<Str(""), Str("a"), Str(EE), SNone, SErr, Str("ab")>>
Mod1(s) == X("Append", Str(s))
MPlain == <<T, F, X("Error", "e"), K("IsAscii"), X("IsOneOf", <<"a", "", "ab">>), X("IsOneOf", <<>>), X("OnlyTheseChars", <<"a", EE>>), X("OnlyTheseChars", <<>>)>>
   \o [i \in 1..6 |-> X("Is", Vals[i])] \o [i \in 1..6 |-> X("LengthIs", i - 1)]
   \o Cross(<<Vals, LB \o <<K("Equals"), K("End"), X("After", 1)>>>>, LAMBDA a : [k |-> "Contains", value |-> a[1], where |-> a[2]])
   \o Cross(<<Vals, Vals, <<K("Anywhere"), K("Equals"), X("StartsAt", 1)>>>>, LAMBDA a : [k |-> "ContainsAny", values |-> <<a[1], a[2]>>, where |-> a[3]]) \o <<[k |-> "ContainsAny", values |-> <<>>, where |-> K("Anywhere")]>>
   \o Cross(<<<<Str("n1"), Str("n2"), Str("n3"), Str("none"), SNone, SErr>>, <<K("Anywhere"), K("Equals"), X("StartsAt", 1), X("Error", "e")>>>>, LAMBDA a : [k |-> "ContainsAnyInList", list |-> a[1], where |-> a[2]])
   \o [i \in 1..5 |-> X("InSet", <<Str("n1"), Str("n2"), Str("none"), SNone, SErr>>[i])]
   \o Cross(<<<<Mod1("b"), X("StripPrefix", Str("a")), X("All", <<Mod1("b"), X("Error", "e")>>)>>, <<X("Is", Str("ab")), T, X("Error", "e")>>>>, LAMBDA a : [k |-> "Modified", modification |-> a[1], matcher |-> a[2]])
   \o Cross(<<<<"AllCharsMatch", "AnyCharMatches">>, CB \o <<K("IsAscii"), X("Not", X("Equals", "b")), X("Any", <<X("Equals", "a"), K("Error")>>)>>>>, LAMBDA a : X(a[1], a[2]))
   \o [i \in 1..4 |-> X("Common", <<Call("yes", <<>>, <<>>), Call("err", <<>>, <<>>), Call("is", <<>>, <<<<"x", Str("a")>>>>), Call("missing", <<>>, <<>>)>>[i])]
MSeg == Cross(<<<<Str("a"), Str("b"), Str(""), Str(EE), SNone>>, <<X("Is", Str("")), X("Is", Str("b")), X("Error", "e"), T, F>>>>, LAMBDA a : [k |-> "AnySegmentMatches", split |-> a[1], matcher |-> a[2]])
   \o Cross(<<<<Str("a"), Str("b"), Str(""), SNone>>, Idx, <<X("Is", Str("")), X("Is", Str("b")), F>>>>, LAMBDA a : [k |-> "NthSegmentMatches", split |-> a[1], n |-> a[2], matcher |-> a[3]])
   \o Cross(<<<<"SegmentsStartWith", "SegmentsEndWith">>, <<Str("b"), Str(""), Str(EE), SErr>>, Vals>>, LAMBDA a : [k |-> a[1], split |-> a[2], value |-> a[3]])
RxStrs == UptoN(<<"a", "b", "1">>, 3) \o <<"A", "a\nb", "\n", "b\na", "AB", "xaXb", "abab">>
GlobStrs == UptoN(<<"a", "b", "/", ".">>, 3) \o <<"A", "a]", "[", "a/b.b", ".a/b", "**">>

All0 == <<<<"loc", LPlain, Hay, Needles>>, <<"loc", CombOf(LB), <<"a", "b">>, <<"a">>>>, <<"charm", CPlain, CharStrs, <<"">>>>, <<"charm", CombOf(CB), <<"a", "b">>, <<"">>>>,
          <<"mat", MPlain, Hay, <<"">>>>, <<"mat", CombOf(MB), <<"a", "b">>, <<"">>>>, <<"mat", [i \in 1..Len(In.rx) |-> X("Regex", In.rx[i])], RxStrs, <<"">>>>, <<"mat", [i \in 1..Len(In.glob) |-> X("Glob", In.glob[i])], GlobStrs, <<"">>>>>>
Seg0 == <<<<"loc", LSeg, Hay, <<"a", "", "b">>>>, <<"mat", MSeg, Hay, <<"">>>>>>
Groups == IF SEL = "segments" THEN Seg0 ELSE All0 \o Seg0
Init == \E g \in 1..Len(Groups) : \E n \in 1..Len(Groups[g][2]), s \in 1..Len(Groups[g][3]), d \in 1..Len(Groups[g][4]) : cs = <<g, n, s, d>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Kind == Groups[cs[1]][1]
Node == Groups[cs[1]][2][cs[2]]
Text == Groups[cs[1]][3][cs[3]]
Needle == Groups[cs[1]][4][cs[4]]
E0 == EnvOf(UrlOf("https://www.example.co.uk/p?x=1"), NoSp0, <<>>)
Do(n) == CASE Kind = "loc" -> Loc(n, Text, Needle) [] Kind = "charm" -> CharM(n, Text) [] Kind = "mat" -> Mat(n, Text, E0, C0)
Out3(r) == IF r.k = "ok" THEN (IF r.v THEN "t" ELSE "f") ELSE IF r.k = "out" THEN "out" ELSE r.e[1]
Law ==
    LET n == Node
        o == Out3(Do(n))
        x(c) == Out3(Do(c))
        isErr(s) == s \notin {"t", "f", "out"}
        bi(a) == LET i == IF a < 0 THEN Len(Text) + a ELSE a IN IF i < 0 \/ i > Len(Text) THEN -1 ELSE IF IsBoundary(Text, i) THEN i ELSE -1 IN
    \/ o = "out"
    \/ /\ n.k = "Not" => o = CASE x(n.x) = "t" -> "f" [] x(n.x) = "f" -> "t" [] OTHER -> x(n.x)
       /\ n.k \in {"All", "Any"} =>
            LET stop == IF n.k = "All" THEN "f" ELSE "t"
                d == FirstIdx(1, Len(n.x), LAMBDA i : x(n.x[i]) = stop \/ isErr(x(n.x[i]))) IN
            o = IF d = 0 THEN (IF n.k = "All" THEN "t" ELSE "f") ELSE x(n.x[d])
       /\ n.k = "FirstNotError" => LET d == FirstIdx(1, Len(n.x), LAMBDA i : ~isErr(x(n.x[i]))) IN IF d # 0 THEN o = x(n.x[d]) ELSE isErr(o)
       /\ n.k = "If" => o = CASE x(n.if) = "t" -> x(n.then) [] x(n.if) = "f" -> x(n.else) [] OTHER -> x(n.if)
       /\ n.k = "TreatErrorAsPass" => o = IF isErr(x(n.x)) THEN "t" ELSE x(n.x)
       /\ n.k = "TreatErrorAsFail" => o = IF isErr(x(n.x)) THEN "f" ELSE x(n.x)
       /\ n.k = "TryElse" => o = IF ~isErr(x(n.try)) THEN x(n.try) ELSE IF isErr(x(n.else)) THEN "TryElseError" ELSE x(n.else)
       /\ Kind = "loc" =>
            /\ n.k \in {"StartsAt", "EndsAt", "After", "Before"} => isErr(o) = (bi(n.x) = -1)
            /\ n.k = "StartsAt" /\ bi(n.x) # -1 => (o = "t") = (\E j \in 0..Len(Text) : j = bi(n.x) /\ SubSeq(Text \o "  ", j + 1, j + Len(Needle)) = Needle)
            /\ n.k = "Range" /\ n.end # <<>> => (bi(n.start) = -1 \/ bi(n.end[1]) = -1 \/ bi(n.start) > bi(n.end[1])) = (o = "InvalidSlice" /\ TRUE) \/ n.location.k \in {"StartsAt", "Before"}
            /\ n.k = "Anywhere" => (o = "t") = (\E j \in 0..(Len(Text) - Len(Needle)) : SubSeq(Text, j + 1, j + Len(Needle)) = Needle)
       /\ Kind = "charm" /\ n.k = "Between" => (o = "t") = (CodePoint(n.min) <= CodePoint(Text) /\ CodePoint(Text) <= CodePoint(n.max))
Emitted == Emit(Doc("https://www.example.co.uk/p?x=1", <<>>, <<>>, <<StepD(Kind, Node, Text, Needle, <<>>)>>))
=============================================================================
