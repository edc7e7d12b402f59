-------------------------------- MODULE MC_Html ------------------------------
(***************************************************************************)
(* Texts read as HTML start tags, HTML text and JavaScript literals (C19). *)
(* State: a reader and the text given so far; a transition types one more  *)
(* token.  Every text of up to N tokens is reached.                        *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NA, NT, NJ          \* tokens per attribute list, text, literal
VARIABLES r, ks               \* the reader, and the tokens typed (the first chooses how the text starts)
Toks == [tag |-> <<" ", "x", "X", "y", "=", "\"", "'", "&lt;", ">", "/">>,
         text |-> <<"&", "lt", "#", "x", "65", "1F600", ";", "notin", "a", EncodeCP(233)>>,
         lit |-> <<"\\", "x", "u", "{", "}", "0", "41", "d83d", "de00", "n", "\"", "'", "\n", "\r", EncodeCP(8232), EncodeCP(233)>>]
Starts == [tag |-> <<"<a", "<a ", "<a x=1 ">>, text |-> <<"">>, lit |-> <<"\"", "'">>]
Lim == [tag |-> NA, text |-> NT, lit |-> NJ]
t == Starts[r][ks[1]] \o Cat([i \in 1..Len(ks) - 1 |-> Toks[r][ks[i + 1]]])
Init == \E x \in DOMAIN Toks : \E k \in 1..Len(Starts[x]) : r = x /\ ks = <<k>>
Next == /\ Len(ks) <= Lim[r]
        /\ \E k \in 1..Len(Toks[r]) : ks' = Append(ks, k)
        /\ r' = r
Spec == Init /\ [][Next]_<<r, ks>>
Node == CASE r = "tag" -> X("GetHtmlAttribute", Str("x")) [] r = "text" -> K("UnescapeHtmlText") [] r = "lit" -> K("GetJsStringLiteralPrefix")
E0 == EnvOf(UrlOf("https://www.example.com/"), NoSp0, <<>>)
Do == Mod(Node, t, E0, C0)
Law ==
    LET o == Do IN
    /\ o.k = "err" => o.v = t
    /\ o.k = "ok" => IsUtf8(o.v)
    \* a literal ends where it ends: what follows does not matter
    /\ r = "lit" /\ o.k = "ok" => LET p == JsLiteral(t \o "\"x'") IN p.k = "ok" /\ p.v = o.v
    /\ r = "lit" /\ ~HasStr(t, "\\") /\ o.k = "ok" => LET q == SubSeq(t, 1, 1) IN t = q \o o.v \o q \o SubSeq(t, Len(o.v) + 3, Len(t))
    \* text without & is itself
    /\ r = "text" /\ ~HasStr(t, "&") => o.k = "ok" /\ o.v = t
    \* a tag ends at its >
    /\ r = "tag" /\ o.k = "ok" => HasStr(t, ">")
    /\ r = "tag" /\ o.k = "ok" => LET p == Mod(Node, t \o " x=2>", E0, C0) IN p.k = "ok" /\ p.v = o.v
    \* another name compares as the same name in another case
    /\ r = "tag" => Mod(X("GetHtmlAttribute", Str("X")), t, E0, C0) = o
\* also as it ends when the tag or the literal is closed
Emitted == Emit(Doc("https://www.example.com/", <<>>, <<>>, <<StepD("mod", Node, t, "", <<>>)>> \o
    (IF r = "text" \/ (r = "tag" /\ HasStr(t, ">")) THEN <<>> ELSE <<StepD("mod", Node, t \o (IF r = "tag" THEN ">" ELSE SubSeq(t, 1, 1)), "", <<>>)>>)))
=============================================================================
