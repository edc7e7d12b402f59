------------------------------- MODULE MC_Mods -------------------------------
(***************************************************************************)
(* String modifications (C14) and segment operations on strings (C11):     *)
(* every modification with every argument of small pools, on every string  *)
(* of a small alphabet (a letter, the separator, a two-byte character) up  *)
(* to a length, and on tables of encoded texts.                            *)
(***************************************************************************)
EXTENDS MC
CONSTANTS LEN,          \* length of the enumerated strings, in characters
          SEL           \* "strings" | "segments" | "all"
VARIABLE cs
EE == EncodeCP(233)
Alpha3 == <<"a", ".", EE>>
RECURSIVE Words(_, _)
Words(al, n) == IF n = 0 THEN <<"">> ELSE LET w == Words(al, n - 1) IN
    [i \in 1..(Len(w) * Len(al)) |-> w[((i - 1) \div Len(al)) + 1] \o al[((i - 1) % Len(al)) + 1]]
RECURSIVE Upto3(_, _)
Upto3(al, n) == IF n = 0 THEN <<"">> ELSE Upto3(al, n - 1) \o Words(al, n)
Strings == Upto3(Alpha3, LEN)
\* all nodes F(x1, .., xn) for arguments from the given lists: index arithmetic over the product
Cross(ls, F(_)) == [i \in 1..Prod([j \in 1..Len(ls) |-> Len(ls[j])]) |->
    LET d == Digits0(i - 1, [j \in 1..Len(ls) |-> Len(ls[j])]) IN F([j \in 1..Len(ls) |-> ls[j][d[j]]])]
RECURSIVE Cats(_)
Cats(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Cats(Tail(ls))

Vals == <<Str(""), Str("a"), Str("."), Str(EE), Str("aa"), Str("a."), SNone, SErr>>
Lits == <<Str(""), Str("a"), Str("."), Str(EE), Str("a.")>>
Idx == [i \in 1..13 |-> i - 7]
Ends == <<<<>>>> \o [i \in 1..13 |-> <<i - 7>>]
Seps == <<Str("."), Str(""), Str("a"), Str(EE), Str(".a"), Str("zz")>>
Segs == <<Str("x"), Str(""), Str("a.b"), SNone, SErr>>

Plain == <<K("None"), X("Error", "e"), K("Lowercase"), K("Uppercase"), X("UrlEncode", "JsEncodeUriComponent")>>
Unary == Cross(<<<<"Set", "Append", "Prepend", "StripPrefix", "StripSuffix", "StripMaybePrefix", "StripMaybeSuffix">>, Vals>>, LAMBDA a : X(a[1], a[2]))
Repl == Cross(<<Lits \o <<SNone>>, Lits \o <<SErr>>>>, LAMBDA a : [k |-> "Replace", find |-> a[1], replace |-> a[2]])
Repln == Cross(<<Lits, <<Str("x"), Str("aa"), SNone>>, <<0, 1, 2, 9>>>>, LAMBDA a : [k |-> "Replacen", find |-> a[1], replace |-> a[2], count |-> a[3]])
Ranges == Cross(<<Idx, Ends>>, LAMBDA a : [k |-> "KeepRange", start |-> a[1], end |-> a[2]])
RRange == Cross(<<Idx, Ends, <<Str("xy"), SNone>>>>, LAMBDA a : [k |-> "ReplaceRange", start |-> a[1], end |-> a[2], replace |-> a[3]])
Ins == Cross(<<Idx, <<Str("x"), Str(EE), SNone, SErr>>>>, LAMBDA a : [k |-> "Insert", index |-> a[1], value |-> a[2]]) \o [i \in 1..13 |-> X("RemoveChar", Idx[i])]
Btw == Cross(<<Vals, Vals>>, LAMBDA a : [k |-> "ExtractBetween", start |-> a[1], end |-> a[2]])
SetSeg == Cross(<<<<"SetSegment", "InsertSegment">>, Seps, Idx, Segs>>, LAMBDA a : [k |-> a[1], split |-> a[2], index |-> a[3], value |-> a[4]])
KeepSeg == Cross(<<Seps \o <<SNone>>, Idx>>, LAMBDA a : [k |-> "KeepNthSegment", split |-> a[1], index |-> a[2]])
SegRange == Cross(<<Seps, Idx, Ends>>, LAMBDA a : [k |-> "KeepSegmentRange", split |-> a[1], start |-> a[2], end |-> a[3]])

\* combinators over modifications that succeed, fail at once, or fail after a partial effect
App(s) == X("Append", Str(s))
B == <<App("x"), X("Error", "e"), X("All", <<App("y"), X("Error", "e")>>), X("StripPrefix", Str("a")), X("IgnoreError", X("All", <<App("z"), X("Set", SNone)>>)), X("RevertOnError", X("All", <<App("w"), X("Error", "e")>>))>>
Comb == Cross(<<<<"IgnoreError", "RevertOnError", "Debug">>, B>>, LAMBDA a : X(a[1], a[2]))
   \o Cross(<<B, B>>, LAMBDA a : [k |-> "TryElse", try |-> a[1], else |-> a[2]])
   \o Cross(<<B, B, B>>, LAMBDA a : [k |-> "TryElse", try |-> [k |-> "TryElse", try |-> a[1], else |-> a[2]], else |-> a[3]])
   \o Cross(<<<<"All", "FirstNotError">>, B, B, B>>, LAMBDA a : X(a[1], <<a[2], a[3], a[4]>>))
   \o <<X("All", <<>>), X("FirstNotError", <<>>)>>
   \o Cross(<<<<"IgnoreError", "RevertOnError">>, <<"All", "FirstNotError">>, B, B>>, LAMBDA a : X(a[1], X(a[2], <<a[3], a[4]>>)))
   \o Cross(<<<<K("Always"), K("Never"), X("Error", "e"), X("Is", Str("a"))>>, B, <<<<>>, <<App("e")>>, <<X("Error", "e")>>>>>>, LAMBDA a : [k |-> "IfMatches", matcher |-> a[1], then |-> a[2], else |-> a[3]])
   \o Cross(<<<<K("Always"), K("Never"), X("Error", "e"), X("PathIs", "/p")>>, B, <<<<>>, <<App("e")>>>>>>, LAMBDA a : [k |-> "If", condition |-> a[1], then |-> a[2], else |-> a[3]])
   \o Cross(<<<<SNone, Str("a"), Str(""), Str("b"), SErr>>, <<<<>>, <<<<"a", App("A")>>, <<"", App("E")>>>>>>, <<<<>>, <<App("null")>>>>, <<<<>>, <<X("Error", "e")>>>>>>,
            LAMBDA a : [k |-> "StringMap", value |-> a[1], map |-> TMap(a[2], a[3], a[4])])
   \o <<X("Common", Call("app", <<>>, <<<<"x", Str("arg")>>>>)), X("Common", Call("app", <<>>, <<>>)), X("Common", Call("err", <<>>, <<>>)), X("Common", Call("missing", <<>>, <<>>)), X("IgnoreError", X("Common", Call("err", <<>>, <<>>)))>>

\* encodings
Raw == Upto3(<<"a", "/", EE>>, 2) \o <<"a b", "%", "a%2Fb", "ab?", "~!*'()", ";,/?:@&=+$#", EncodeCP(128512), "\"<>`{}|", EncodeCP(0) \o "x", EncodeCP(127), ">>>", "???", "abcd", "abcde">>
PctTexts == <<"%41", "%4", "%", "%%41", "%e9", "%c3%a9", "%C3%A9", "a+b", "%2525", "%zz", "%e6%97%a5", "%F0%9F%98%80", "%ff", "%c3", "%41%", "%4g%41">>
B64Texts == <<"", "YQ==", "YQ", "YQ=", "YWI=", "YWI", "YWJj", "Pz8_", "Pz8/", "Pj4-", "Pj4+", "_w==", "/w==", "w6k=", "w6k", "YR==", "YQ===", "Y", "=", "YQ==YQ==", "Y Q", "YWJjZA", "8J-YgA==", "8J+YgA==", "AA==", "@">>
B64(a, e, d) == [alphabet |-> a, encode_padding |-> e, decode_padding |-> d]
B64s == Cross(<<<<"UrlSafe", "Standard">>, <<TRUE, FALSE>>, <<"Indifferent", "RequireCanonical", "RequireNone">>>>, LAMBDA a : B64(a[1], a[2], a[3]))
EncNodes == [i \in 1..3 |-> X("UrlEncode", <<"JsEncodeUriComponent", "JsEncodeUri", "NonAlphanumeric">>[i])] \o <<K("UrlDecode")>> \o [i \in 1..Len(B64s) |-> X("Base64Encode", B64s[i])]
DecNodes == <<K("UrlDecode")>> \o [i \in 1..Len(B64s) |-> X("Base64Decode", B64s[i])]

\* JSON
Q(s) == ReplaceN(s, "'", "\"", -1)
JsonTexts == <<Q("{'a':'x','b':{'c':['y',{'d':'z'},1,null]}}"), Q("{'':'e','~':'t','/':'s','a/b':{'c~d':'q'}}"), Q("['p','q']"), Q("'str'"), "null", "1", "", "{", Q("{'a':1}"), Q("{'a':'x'} x"), Q(" {'a' : 'w' } "),
   Q("{'a':'x','a':'y'}"), Q("{'a':'\\u00e9\\n'}"), Q("{'0':'zero','01':'o'}"), "tru", Q("{'a':'x',}"), Q("['a' 'b']"), Q("{'a':'\\ud83d\\ude00'}"), Q("{'a':'\\ud83d'}"), Q("{'a':-0.5e+3,'b':'n'}"), Q("[01]")>>
Ptrs == <<"", "/", "/a", "/b/c/0", "/b/c/1/d", "/b/c/2", "/b/c/3", "/b/c/4", "/b/c/00", "/b/c/-", "/~0", "/~1", "/a~1b/c~0d", "a", "/0", "/1", "/01", "/a/", "/b">>
PtrNodes == [i \in 1..Len(Ptrs) |-> X("JsonPointer", Str(Ptrs[i]))] \o <<X("JsonPointer", SNone)>>

\* regular expressions: compiled outside, see inputs.json
RxStrs == Upto3(<<"a", "b", "1">>, 3) \o <<"a1b2", "abcab", "A", "a\nb", "\n", "ab ab", "$1">>
Tmpls == <<"$0", "x", "[$1]", "${1}b", "$1b", "$$", "$n", "${n}", "$2", "", "$", "a$">>
RxN == Len(In.rx)
RxNodes == [i \in 1..RxN |-> X("RegexFind", In.rx[i])]
   \o Cross(<<In.rx, Tmpls>>, LAMBDA a : [k |-> "RegexCaptures", regex |-> a[1], replace |-> Str(a[2])])
   \o Cross(<<In.rx, <<"$0", "[$1]", "">>>>, LAMBDA a : [k |-> "RegexReplace", regex |-> a[1], replace |-> Str(a[2])])
   \o Cross(<<In.rx, <<"$0", "<$1$0>", "">>>>, LAMBDA a : [k |-> "RegexReplaceAll", regex |-> a[1], replace |-> Str(a[2])])
   \o Cross(<<In.rx, <<0, 1, 2>>>>, LAMBDA a : [k |-> "RegexReplacen", regex |-> a[1], n |-> a[2], replace |-> Str("-")])
   \o Cross(<<In.rx, <<"", ",">>>>, LAMBDA a : [k |-> "JoinAllRegexCaptures", regex |-> a[1], replace |-> Str("$1"), join |-> Str(a[2])])
QTexts == <<"", "a", "a=1", "a=1&b=2", "a=1&a=2&b", "&", "a&&b", "=", "=1", "%61=1", "a=1=2&b=&c", "A=1&a", "a+b=1&a b">>
QNodes == Cross(<<<<"RemoveQueryParamsMatching", "AllowQueryParamsMatching">>, <<K("Always"), K("Never"), X("Error", "e"), X("Is", Str("a")), X("Is", Str("")), X("IsOneOf", <<"b", "%61">>), X("Is", SNone)>>>>, LAMBDA a : X(a[1], a[2]))

StringGroups == <<<<Plain \o Unary \o Repl \o Repln \o Ranges \o RRange \o Ins \o Btw, Strings>>, <<Comb, <<"a", "", "b", "ab">>>>, <<EncNodes, Raw \o PctTexts>>, <<DecNodes, B64Texts \o PctTexts>>,
                  <<PtrNodes, JsonTexts>>, <<RxNodes, RxStrs>>, <<QNodes, QTexts>>>>
SegStrings == Upto3(Alpha3, LEN) \o <<"a.b.c.d", "a..b.", "..", ".....", "a.a.a.a.a">>
SegGroups == <<<<SetSeg \o KeepSeg \o SegRange, SegStrings>>>>
Groups == IF SEL = "strings" THEN StringGroups ELSE IF SEL = "segments" THEN SegGroups ELSE StringGroups \o SegGroups
Init == \E g \in 1..Len(Groups) : \E n \in 1..Len(Groups[g][1]), s \in 1..Len(Groups[g][2]) : cs = <<g, n, s>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Node == Groups[cs[1]][1][cs[2]]
Text == Groups[cs[1]][2][cs[3]]
E0 == EnvOf(UrlOf("https://www.example.co.uk/p?x=1"), NoSp0, <<>>)
Do(n, s) == Mod(n, s, E0, C0)
Single == Node.k \notin {"All", "FirstNotError", "TryElse", "IgnoreError", "RevertOnError", "Debug", "If", "IfMatches", "StringMap", "Common"}
IsLit(n) == n.k = "String"
SegV(sp, i, s) == NegNth(Split(s, sp), i)
Law ==
    LET n == Node
        s == Text
        r == Do(n, s) IN
    /\ r.k \in {"ok", "err", "out"}
    /\ r.k = "ok" => IsUtf8(r.v)
    /\ r.k = "err" /\ Single => r.v = s                                \* a failed single modification leaves the string
    /\ n.k = "RevertOnError" /\ r.k = "err" => r.v = s
    /\ n.k = "IgnoreError" => r.k = "ok"
    /\ n.k = "UrlEncode" => LET d == Do(K("UrlDecode"), r.v) IN d.k = "ok" /\ d.v = s
    /\ n.k = "Base64Encode" /\ ~(n.x.encode_padding /\ n.x.decode_padding = "RequireNone") /\ ~(~n.x.encode_padding /\ n.x.decode_padding = "RequireCanonical") =>
         LET d == Do(X("Base64Decode", n.x), r.v) IN d.k = "ok" /\ d.v = s
    /\ n.k = "Insert" /\ r.k = "ok" /\ IsLit(n.value) /\ n.index >= 0 => Len(r.v) = Len(s) + Len(n.value.x) /\ Upto(r.v, n.index) = Upto(s, n.index)
    /\ n.k = "KeepRange" /\ r.k = "ok" => HasStr(s, r.v)
    /\ n.k = "ReplaceRange" /\ r.k = "ok" => LET q == Do([k |-> "KeepRange", start |-> n.start, end |-> n.end], s) IN q.k = "ok" /\ Len(r.v) = Len(s) - Len(q.v) + 2
    /\ n.k = "Replacen" /\ n.count = 9 /\ r.k = "ok" => r.v = Do([k |-> "Replace", find |-> n.find, replace |-> n.replace], s).v
    /\ n.k = "ExtractBetween" /\ r.k = "ok" => IsLit(n.start) /\ HasStr(s, n.start.x \o r.v \o n.end.x) /\ (n.end.x = "" => r.v = "") /\ (n.end.x # "" => ~HasStr(r.v, n.end.x))
    /\ n.k = "SetSegment" /\ r.k = "ok" /\ IsLit(n.split) /\ n.split.x = "." /\ n.value.k = "String" /\ ~HasStr(n.value.x, ".") =>
         /\ SegV(".", n.index, r.v) = <<n.value.x>>
         /\ Len(Split(r.v, ".")) = Len(Split(s, "."))
    /\ n.k = "SetSegment" /\ r.k = "err" /\ IsLit(n.split) /\ n.value.k # "Error" => n.index >= Len(Split(s, n.split.x)) \/ -n.index > Len(Split(s, n.split.x))
    /\ n.k = "InsertSegment" /\ r.k = "ok" /\ n.split.x = "." /\ n.value.k = "String" /\ ~HasStr(n.value.x, ".") =>
         /\ Len(Split(r.v, ".")) = Len(Split(s, ".")) + 1
         /\ n.index >= 0 => SegV(".", n.index, r.v) = <<n.value.x>>
    /\ n.k = "KeepNthSegment" /\ r.k = "ok" => IsLit(n.split) /\ SegV(n.split.x, n.index, s) = <<r.v>>
Emitted == Emit(Doc("https://www.example.co.uk/p?x=1", <<>>, <<>>, <<StepD("mod", Node, Text, "", <<>>)>>))
=============================================================================
