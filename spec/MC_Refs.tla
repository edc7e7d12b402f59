------------------------------ MODULE MC_Refs -------------------------------
(***************************************************************************)
(* Every character at every place where a start tag, a reference or an     *)
(* escape could take one, every named reference, and character codes at    *)
(* and around every boundary, in every notation (C19).                     *)
(***************************************************************************)
EXTENDS MC
CONSTANTS STRIDE        \* which of the character codes away from boundaries
VARIABLE cs             \* <<kind, number>>: one document of the steps it stands for
\* every ASCII character, and some others
Cs == [i \in 1..128 |-> Chr(i - 1)] \o [i \in 1..10 |-> EncodeCP(<<128, 133, 160, 233, 8232, 8239, 12288, 65279, 65296, 128512>>[i])]
Holes ==
  [lit |-> << <<"\"\\x", "1\"">>, <<"\"\\x4", "\"">>, <<"\"\\x41", "\"">>, <<"\"\\u", "041\"">>, <<"\"\\u0", "41\"">>, <<"\"\\u00", "1\"">>, <<"\"\\u004", "\"">>, <<"\"\\u0041", "\"">>,
              <<"\"\\u{", "1}\"">>, <<"\"\\u{4", "}\"">>, <<"\"\\u{41", "\"">>, <<"\"\\u{1F60", "}\"">>, <<"\"\\", "\"">>, <<"\"\\", "1\"">>, <<"\"\\1", "\"">>, <<"\"\\12", "\"">>, <<"\"\\4", "1\"">>, <<"\"\\0", "\"">>, <<"\"", "\"">>, <<"'", "'">>, <<"", "a\"">>,
              <<"\"\\ud83d", "\"">>, <<"\"\\ud83d\\", "de00\"">>, <<"\"\\ud83d\\u", "e00\"">>, <<"\"\\ud83d\\ud", "00\"">>, <<"'\\u{", "}'">>, <<"'\\", "'">> >>,
   text |-> << <<"&#", "5;">>, <<"&#6", ";">>, <<"&#65", "">>, <<"&#x", "1;">>, <<"&#X", "1;">>, <<"&#x4", ";">>, <<"&#x1F60", ";">>, <<"&", "amp;">>, <<"&a", "mp;">>, <<"&amp", "">>, <<"&am", ";">>, <<"", "&amp;">>, <<"&", "#65;">>, <<"&", ";">> >>,
   tag |-> << <<"<", " x=1>">>, <<"<a", "x=1>">>, <<"<a", " x=1>">>, <<"<a ", "x=1>">>, <<"<a x", "=1>">>, <<"<a x=", "1>">>, <<"<a x=1", ">">>, <<"<a x='1", "'>">>, <<"<a x=\"1", "\">">>, <<"<a x='1'", ">">>, <<"<a x=''", "y>">>, <<"<a x", ">">>, <<"<a x ", "=1>">>, <<"<a x= ", "1>">>,
              <<"<a y", "x=1>">>, <<"<a y=1", "x=2>">>, <<"", "a x=1>">>, <<"<a x=&#4", "9;>">>, <<"<a x=1 /", ">">>, <<"<a x=1 y", "">> >>]
Points == <<1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 33, 126, 127, 128, 132, 133, 134, 159, 160, 161, 173, 255, 256, 5759, 5760, 5761, 8191, 8192, 8202, 8203, 8231, 8232, 8233, 8234, 8238, 8239, 8240, 8286, 8287, 8288, 12287, 12288, 12289,
            55295, 55296, 56319, 56320, 57343, 57344, 64975, 64976, 65007, 65533, 65534, 65535, 65536, 131070, 131071, 1114109, 1114111, 1114112, 1114113, 2097152, 16777216, 268435456, 2147483647, 0>>
Codes == Points \o [i \in 1..(70000 \div STRIDE) |-> i * STRIDE]
Names == SetToSeq(DOMAIN EntityTab)
HexDig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexDig[n + 1] ELSE HexOf(n \div 16) \o HexDig[(n % 16) + 1]
Pad4(h) == SubSeq("000", 1, IF Len(h) < 4 THEN 4 - Len(h) ELSE 0) \o h
\* what one document holds: <<reader, text>> pairs
PerDoc == 20
Pack(n) == (n + PerDoc - 1) \div PerDoc
PartOf(i, n) == [j \in 1..(IF i * PerDoc > n THEN n - (i - 1) * PerDoc ELSE PerDoc) |-> (i - 1) * PerDoc + j]
Init == \/ \E x \in DOMAIN Holes : \E h \in 1..Len(Holes[x]) : \E p \in 1..Pack(Len(Cs)) : cs = <<"hole", x, h, p>>
        \/ \E p \in 1..Pack(Len(Names)) : cs = <<"name", "text", 0, p>>
        \/ \E k \in 1..Len(Codes) : cs = <<"code", "text", 0, k>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs
Texts ==
    CASE cs[1] = "hole" -> LET h == Holes[cs[2]][cs[3]] IN [j \in DOMAIN PartOf(cs[4], Len(Cs)) |-> <<cs[2], h[1] \o Cs[PartOf(cs[4], Len(Cs))[j]] \o h[2]>>]
      [] cs[1] = "name" -> FoldLeft(LAMBDA acc, k : acc \o <<<<"text", "&" \o Names[k] \o ";">>, <<"text", "x&" \o Names[k] \o "&amp;">>, <<"tag", "<a x='&" \o Names[k] \o ";'>">>>>, <<>>, PartOf(cs[4], Len(Names)))
      [] OTHER -> LET n == Codes[cs[4]]
                      h == HexOf(n) IN
            <<<<"text", "&#" \o ToString(n) \o ";">>, <<"text", "&#0" \o ToString(n) \o "0;">>, <<"text", "&#x" \o h \o ";">>, <<"text", "&#X00" \o UpperAscii(h) \o ";">>, <<"tag", "<a x='&#" \o ToString(n) \o ";'>">>,
              <<"lit", "'\\u{" \o h \o "}'">>, <<"lit", "\"\\u{" \o SubSeq("000", 1, IF Len(h) < 2 THEN 3 ELSE IF Len(h) < 5 THEN 5 - Len(h) ELSE 0) \o UpperAscii(h) \o "}\"">>>>
            \o (IF n < 65536 THEN <<<<"lit", "'\\u" \o Pad4(h) \o "'">>, <<"lit", "'\\ud800\\u" \o Pad4(h) \o "'">>, <<"lit", "'\\udbff\\u" \o UpperAscii(Pad4(h)) \o "'">>, <<"lit", "'\\u" \o Pad4(h) \o "\\udc00'">>, <<"lit", "'\\u" \o Pad4(h) \o "\\udfff'">>>> ELSE <<>>)
            \o (IF n < 256 THEN <<<<"lit", "'\\x" \o SubSeq(Pad4(h), 3, 4) \o "'">>>> ELSE <<>>)
NodeOf(r) == CASE r = "tag" -> X("GetHtmlAttribute", Str("x")) [] r = "text" -> K("UnescapeHtmlText") [] r = "lit" -> K("GetJsStringLiteralPrefix")
E0 == EnvOf(UrlOf("https://www.example.com/"), NoSp0, <<>>)
Law ==
    /\ \A i \in 1..Len(Texts) : LET o == Mod(NodeOf(Texts[i][1]), Texts[i][2], E0, C0) IN (o.k = "ok" => IsUtf8(o.v)) /\ (o.k = "err" => o.v = Texts[i][2])
    \* a named reference is what the table says, in text and in an attribute; without its ; it is an error
    /\ cs[1] = "name" => \A i \in 1..Len(Texts) : LET o == Mod(NodeOf(Texts[i][1]), Texts[i][2], E0, C0) IN
           o.k # "out" => (o.k = "err") = (i % 3 = 2)
    \* a code means the same character however it is written
    /\ cs[1] = "code" => LET o(i) == LET q == Mod(NodeOf(Texts[i][1]), Texts[i][2], E0, C0) IN IF q.k = "err" THEN <<>> ELSE <<q.v>> IN
           /\ o(1) = o(3) /\ o(1) = o(4) /\ o(6) = o(7)
           /\ o(1) # <<>> => o(1)[1] = EncodeCP(Codes[cs[4]])
           \* (a literal takes at most five digits, as documented)
           /\ (o(1) # <<>> /\ Len(HexOf(Codes[cs[4]])) <= 5) => o(6) = o(1)
Emitted == Emit(Doc("https://www.example.com/", <<>>, <<>>, [i \in 1..Len(Texts) |-> StepD("mod", NodeOf(Texts[i][1]), Texts[i][2], "", <<>>)]))
=============================================================================
