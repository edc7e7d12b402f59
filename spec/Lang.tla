-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The small languages the configuration embeds: regular expressions,      *)
(* globs, base64, HTML start tags, HTML character references and           *)
(* JavaScript string literals.  Each is written from its own standard.     *)
(***************************************************************************)
EXTENDS UrlLib

(* ----------------------- regular expressions --------------------------- *)
\* Nodes: set(s, neg), rep(n, min, max, lazy) (max = -1: unbounded), grp(n, i), alt(o), bol, eol.
\* A regex: [re |-> node sequence, ng |-> number of groups, names |-> <<<<name, i>>..>>]
WordChars == Alnums \cup {"_"}
RECURSIVE RxM(_, _, _, _)
RECURSIVE RxAlt(_, _, _, _, _)
\* first match of the work list w at position i of s: <<>> or <<end, captures>>
RxM(w, s, i, c) ==
    IF w = <<>> THEN <<i, c>>
    ELSE LET n == Head(w)
             t == Tail(w) IN
    CASE n.k = "set" -> IF i <= Len(s) /\ HasStr(n.s, Ch(s, i)) # n.neg THEN RxM(t, s, i + 1, c) ELSE <<>>
      [] n.k = "bol" -> IF i = 1 THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "eol" -> IF i = Len(s) + 1 THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "mbol" -> IF i = 1 \/ (i > 1 /\ Ch(s, i - 1) = n.lt) THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "meol" -> IF i = Len(s) + 1 \/ (i <= Len(s) /\ Ch(s, i) = n.lt) THEN RxM(t, s, i, c) ELSE <<>>
      \* lines that end with \r, \n or \r\n
      [] n.k = "crbol" -> IF i = 1 \/ (i > 1 /\ (Ch(s, i - 1) = "\n" \/ (Ch(s, i - 1) = "\r" /\ (i > Len(s) \/ Ch(s, i) # "\n")))) THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "creol" -> IF i = Len(s) + 1 \/ (i <= Len(s) /\ (Ch(s, i) = "\r" \/ (Ch(s, i) = "\n" /\ (i = 1 \/ Ch(s, i - 1) # "\r")))) THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "wb"  -> IF (i > 1 /\ Ch(s, i - 1) \in WordChars) # (i <= Len(s) /\ Ch(s, i) \in WordChars)
                        THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "chk" -> IF i > n.p THEN RxM(t, s, i, c) ELSE <<>>
      [] n.k = "open" -> RxM(t, s, i, [c EXCEPT ![n.i] = <<@[1], @[2], i>>])
      [] n.k = "close" -> RxM(t, s, i, [c EXCEPT ![n.i] = <<@[3], i, @[3]>>])
      [] n.k = "grp" -> RxM(<<[k |-> "open", i |-> n.i]>> \o n.n \o <<[k |-> "close", i |-> n.i]>> \o t, s, i, c)
      [] n.k = "alt" -> RxAlt(n.o, t, s, i, c)
      [] n.k = "rep" ->
            IF n.min > 0
            THEN RxM(n.n \o <<[n EXCEPT !.min = @ - 1, !.max = IF @ < 0 THEN @ ELSE @ - 1]>> \o t, s, i, c)
            ELSE LET more == IF n.max = 0 THEN <<>>
                             ELSE RxM(n.n \o <<[k |-> "chk", p |-> i], [n EXCEPT !.max = IF @ < 0 THEN @ ELSE @ - 1]>> \o t, s, i, c) IN
                 IF n.lazy THEN LET r == RxM(t, s, i, c) IN IF r # <<>> THEN r ELSE more
                 ELSE IF more # <<>> THEN more ELSE RxM(t, s, i, c)
RxAlt(os, t, s, i, c) ==
    IF os = <<>> THEN <<>>
    ELSE LET r == RxM(Head(os) \o t, s, i, c) IN IF r # <<>> THEN r ELSE RxAlt(Tail(os), t, s, i, c)

\* leftmost match starting at or after position i: <<>> or <<start, end, captures>> (end exclusive)
RECURSIVE RxFrom(_, _, _)
RxFrom(rx, s, i) ==
    IF i > Len(s) + 1 THEN <<>>
    ELSE LET r == RxM(rx.re, s, i, [g \in 1..rx.ng |-> <<0, 0, 0>>]) IN
         IF r = <<>> THEN RxFrom(rx, s, i + 1) ELSE <<i, r[1], r[2]>>
\* all non-overlapping matches (an empty match directly after a match is skipped)
RECURSIVE RxAll(_, _, _, _)
RxAll(rx, s, i, last) ==
    LET m == RxFrom(rx, s, i) IN
    IF m = <<>> THEN <<>>
    ELSE IF m[1] = m[2] /\ m[2] = last
         THEN LET m2 == RxFrom(rx, s, i + 1) IN
              IF m2 = <<>> THEN <<>> ELSE <<m2>> \o RxAll(rx, s, m2[2], m2[2])
         ELSE <<m>> \o RxAll(rx, s, m[2], m[2])
RxText(s, m) == SubSeq(s, m[1], m[2] - 1)
RxGroup(s, m, g) == IF g = 0 THEN RxText(s, m)
                    ELSE IF g <= Len(m[3]) /\ m[3][g][2] > 0 THEN SubSeq(s, m[3][g][1], m[3][g][2] - 1) ELSE ""
RxNamed(rx, s, m, name) ==
    IF name # "" /\ AllIn(name, Digits) THEN (IF Len(name) > 3 THEN "" ELSE RxGroup(s, m, DecVal(name)))
    ELSE LET g == LookupAl(rx.names, name) IN IF g = <<>> THEN "" ELSE RxGroup(s, m, g[1])
\* expansion of $name, ${name}, $$
RECURSIVE RxExpand(_, _, _, _)
RxExpand(rx, s, m, t) ==
    LET d == Find(t, "$")
        r == From(t, d + 1)
        e == FirstIdx(1, Len(r), LAMBDA j : Ch(r, j) \notin WordChars)
        name == IF e = 0 THEN r ELSE Upto(r, e - 1)
        b == Find(r, "}") IN
    IF d = 0 THEN t
    ELSE Upto(t, d - 1) \o
         (IF r = "" THEN "$"
          ELSE IF Ch(r, 1) = "$" THEN "$" \o RxExpand(rx, s, m, From(r, 2))
          ELSE IF Ch(r, 1) = "{" THEN
               (IF b = 0 THEN "$" \o RxExpand(rx, s, m, r)
                ELSE RxNamed(rx, s, m, SubSeq(r, 2, b - 1)) \o RxExpand(rx, s, m, From(r, b + 1)))
          ELSE IF name = "" THEN "$" \o RxExpand(rx, s, m, r)
          ELSE RxNamed(rx, s, m, name) \o RxExpand(rx, s, m, From(r, Len(name) + 1)))
\* replacement of the first n matches (n = 0: all)
RxReplace(rx, s, n, rep) ==
    LET ms == RxAll(rx, s, 1, 0)
        k == IF n = 0 \/ n > Len(ms) THEN Len(ms) ELSE n
        piece(j) == SubSeq(s, IF j = 1 THEN 1 ELSE ms[j - 1][2], ms[j][1] - 1) \o RxExpand(rx, s, ms[j], rep) IN
    IF k = 0 THEN s ELSE Cat([j \in 1..k |-> piece(j)]) \o From(s, ms[k][2])
RxOK(rx, s) == rx # <<>> /\ IsAscii(s)

(* ------------------------------- globs --------------------------------- *)
\* tokens: c(s) one character, any, star, in(s), ex(s);  options cs (case sensitive), sep, dot
GEq(c, d, o) == IF o.cs THEN c = d ELSE LowerAscii(c) = LowerAscii(d)
GIn(c, set, o) == HasStr(set, c) \/ (~o.cs /\ (HasStr(set, LowerAscii(c)) \/ HasStr(set, UpperAscii(c))))
RECURSIVE GlobM(_, _, _, _)
GlobM(ts, s, fs, o) ==                       \* fs: at the start or directly after a separator
    IF ts = <<>> THEN s = ""
    ELSE LET t == Head(ts) IN
         IF t.k = "star" THEN
            \/ GlobM(Tail(ts), s, fs, o)
            \/ /\ s # ""
               /\ ~(fs /\ o.dot /\ Ch(s, 1) = ".")
               /\ ~(o.sep /\ Ch(s, 1) = "/")
               /\ GlobM(ts, From(s, 2), Ch(s, 1) = "/", o)
         ELSE /\ s # ""
              /\ LET c == Ch(s, 1) IN
                 /\ IF t.k = "c" THEN GEq(c, t.s, o)
                    ELSE /\ ~(o.sep /\ c = "/")
                         /\ ~(fs /\ o.dot /\ c = ".")
                         /\ CASE t.k = "any" -> TRUE
                              [] t.k = "in" -> GIn(c, t.s, o)
                              [] t.k = "ex" -> ~GIn(c, t.s, o)
                 /\ GlobM(Tail(ts), From(s, 2), c = "/", o)

(* ------------------------------- base64 -------------------------------- *)
B64Common == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
B64Url == B64Common \o "-_"
B64Std == B64Common \o "+/"
B64Alpha(a) == IF a = "Standard" THEN B64Std ELSE B64Url
B64Enc(s, alpha, pad) ==
    LET n == Len(s)
        b(i) == IF i <= n THEN Code[Ch(s, i)] ELSE 0
        c(v) == Ch(alpha, v + 1)
        grp(g) == LET p == 3 * g + 1
                      l == IF n - p + 1 >= 3 THEN 3 ELSE n - p + 1 IN
            c(b(p) \div 4) \o c((b(p) % 4) * 16 + b(p + 1) \div 16)
            \o (IF l >= 2 THEN c((b(p + 1) % 16) * 4 + b(p + 2) \div 64) ELSE IF pad THEN "=" ELSE "")
            \o (IF l >= 3 THEN c(b(p + 2) % 64) ELSE IF pad THEN "=" ELSE "") IN
    Cat([g \in 1..((n + 2) \div 3) |-> grp(g - 1)])
\* <<>> on malformed input, else <<bytes>>; mode: Indifferent, RequireCanonical, RequireNone
B64Dec(s, alpha, mode) ==
    LET d == TrimEnd(s, {"="})
        np == Len(s) - Len(d)
        n == Len(d)
        m == n % 4
        val(i) == IF i <= n THEN Find(alpha, Ch(d, i)) - 1 ELSE 0
        trail == IF m = 2 THEN val(n) % 16 ELSE IF m = 3 THEN val(n) % 4 ELSE 0
        full == [g \in 1..((n + 3) \div 4) |->
            LET p == 4 * (g - 1) + 1
                l == IF n - p + 1 >= 4 THEN 4 ELSE n - p + 1 IN
            Chr(val(p) * 4 + val(p + 1) \div 16)
            \o (IF l >= 3 THEN Chr((val(p + 1) % 16) * 16 + val(p + 2) \div 4) ELSE "")
            \o (IF l >= 4 THEN Chr((val(p + 2) % 4) * 64 + val(p + 3)) ELSE "")] IN
    IF \E i \in 1..n : ~HasStr(alpha, Ch(d, i)) THEN <<>>
    ELSE IF m = 1 \/ trail # 0 THEN <<>>
    ELSE IF np > 0 /\ (m = 0 \/ np > 4 - m) THEN <<>>
    ELSE IF mode = "RequireCanonical" /\ m # 0 /\ np # 4 - m THEN <<>>
    ELSE IF mode = "RequireNone" /\ np > 0 THEN <<>>
    ELSE <<Cat(full)>>

(* --------------------- HTML character references ----------------------- *)
EntityTab == JsonDeserialize("entities.json")     \* name -> UTF-8 bytes
\* characters the program's documentation rejects: controls and white space
CpControl(n) == n < 32 \/ (n >= 127 /\ n < 160)
CpSpace(n) == n \in {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ (n >= 8192 /\ n <= 8202)
CpValid(n) == n >= 0 /\ n <= 1114111 /\ ~(n >= 55296 /\ n <= 57343)
NumRef(n) == IF n = -2 \/ ~CpValid(n) \/ CpControl(n) \/ CpSpace(n) THEN <<>> ELSE <<EncodeCP(n)>>
CharRef(r) ==
    IF StartsWith(r, "#x") \/ StartsWith(r, "#X")
    THEN IF Len(r) > 2 /\ AllIn(From(r, 3), HexDigs) THEN NumRef(RadVal(From(r, 3), 16, 0)) ELSE <<>>
    ELSE IF StartsWith(r, "#")
    THEN IF Len(r) > 1 /\ AllIn(From(r, 2), Digits) THEN NumRef(RadVal(From(r, 2), 10, 0)) ELSE <<>>
    ELSE IF r \in DOMAIN EntityTab THEN <<EntityTab[r]>> ELSE <<>>
\* every & starts a reference that ends with ; -- anything else is an error
RECURSIVE Unescape(_)
Unescape(s) ==                                    \* UOk / UErr
    LET a == Find(s, "&") IN
    IF a = 0 THEN UOk(s)
    ELSE LET r == From(s, a + 1)
             n == Find(r, "&")
             seg == IF n = 0 THEN r ELSE Upto(r, n - 1)
             e == Find(seg, ";") IN
         IF e = 0 THEN UErr(<<>>)
         ELSE LET v == CharRef(Upto(seg, e - 1)) IN
              IF v = <<>> THEN UErr(<<>>)
              ELSE LET rest == Unescape(From(r, e + 1)) IN
                   IF rest.k = "ok" THEN UOk(Upto(s, a - 1) \o v[1] \o rest.v) ELSE rest

(* -------------------------- HTML start tags ---------------------------- *)
HSpace == {"\t", "\n", Chr(13), " "}
\* The tag's attributes in order as <<name, <<>> | <<raw value>>>>, from the tokenizer of the HTML
\* standard.  The documented contract turns parse errors into errors; white space FF and
\* characters that are parse errors only inside unquoted values are not described (OUT).
RECURSIVE HAttrs(_, _, _)
RECURSIVE HAfterName(_, _, _, _)
HTok(acc) == [k |-> "ok", v |-> acc]
HEof == UErr(<<"UnfinishedTag">>)
HSyn == UErr(<<"Syntax">>)
HAfterVal(s, i, acc) ==                           \* after a quoted value
    IF i > Len(s) THEN HEof
    ELSE LET c == Ch(s, i) IN
         IF c \in HSpace THEN HAttrs(s, i + 1, acc)
         ELSE IF c = ">" THEN HTok(acc)
         ELSE IF c = "/" THEN (IF i + 1 > Len(s) THEN HEof ELSE IF Ch(s, i + 1) = ">" THEN HTok(acc) ELSE HSyn)
         ELSE HSyn
HValue(s, i, name, acc) ==                        \* at the first character after "="
    LET j == FirstIdx(i, Len(s), LAMBDA k : Ch(s, k) \notin HSpace) IN
    IF j = 0 THEN HEof
    ELSE LET c == Ch(s, j) IN
      IF c = ">" THEN HSyn
      ELSE IF c \in {DQ, "'"} THEN
        LET e == FindFrom(s, c, j + 1)
            z == FindFrom(s, Chr(0), j + 1) IN
        IF z # 0 /\ (e = 0 \/ z < e) THEN HSyn
        ELSE IF e = 0 THEN HEof
        ELSE HAfterVal(s, e + 1, Append(acc, <<name, <<SubSeq(s, j + 1, e - 1)>>>>))
      ELSE LET e == FirstIdx(j, Len(s), LAMBDA k : Ch(s, k) \in HSpace \cup {">"})
               v == IF e = 0 THEN From(s, j) ELSE SubSeq(s, j, e - 1) IN
        IF AnyIn(v, {DQ, "'", "<", "=", "`"}) THEN UOut
        ELSE IF HasStr(v, Chr(0)) THEN HSyn
        ELSE IF e = 0 THEN HEof
        ELSE IF Ch(s, e) = ">" THEN HTok(Append(acc, <<name, <<v>>>>))
        ELSE HAttrs(s, e + 1, Append(acc, <<name, <<v>>>>))
HAfterName(s, i, name, acc) ==                    \* after the white space following a name
    LET j == FirstIdx(i, Len(s), LAMBDA k : Ch(s, k) \notin HSpace) IN
    IF j = 0 THEN HEof
    ELSE IF Ch(s, j) = "=" THEN HValue(s, j + 1, name, acc)
    ELSE HAttrs(s, j, Append(acc, <<name, <<>>>>))
HAttrs(s, i, acc) ==                              \* before an attribute name
    LET j == FirstIdx(i, Len(s), LAMBDA k : Ch(s, k) \notin HSpace) IN
    IF j = 0 THEN HEof
    ELSE LET c == Ch(s, j) IN
      IF c = ">" THEN HTok(acc)
      ELSE IF c = "/" THEN (IF j + 1 > Len(s) THEN HEof ELSE IF Ch(s, j + 1) = ">" THEN HTok(acc) ELSE HSyn)
      ELSE IF c = "=" THEN HSyn
      ELSE LET e == FirstIdx(j, Len(s), LAMBDA k : Ch(s, k) \in HSpace \cup {"/", ">", "="})
               n == IF e = 0 THEN From(s, j) ELSE SubSeq(s, j, e - 1) IN
           IF AnyIn(n, {Chr(0), DQ, "'", "<"}) THEN HSyn
           ELSE IF e = 0 THEN HEof
           ELSE IF Ch(s, e) = "=" THEN HValue(s, e + 1, n, acc)
           ELSE HAfterName(s, e, n, acc)
HTag(s) ==
    IF s = "" THEN HEof
    ELSE IF Ch(s, 1) # "<" THEN HSyn
    ELSE IF Len(s) = 1 THEN HEof
    ELSE IF Ch(s, 2) \notin Alphas THEN HSyn
    ELSE LET e == FirstIdx(2, Len(s), LAMBDA k : Ch(s, k) \in HSpace \cup {"/", ">"})
             n == IF e = 0 THEN From(s, 2) ELSE SubSeq(s, 2, e - 1) IN
         IF HasStr(n, Chr(0)) THEN HSyn
         ELSE IF e = 0 THEN HEof
         ELSE IF Ch(s, e) = ">" THEN HTok(<<>>)
         ELSE IF Ch(s, e) = "/" THEN (IF e + 1 > Len(s) THEN HEof ELSE IF Ch(s, e + 1) = ">" THEN HTok(<<>>) ELSE HSyn)
         ELSE HAttrs(s, e + 1, <<>>)
\* value of the LAST attribute called name (documented): ok <<>> (absent), ok << <<>> >> (no value), ok << <<v>> >>
HtmlAttr(s, name) ==
    IF HasStr(s, Chr(12)) THEN UOut
    ELSE LET t == HTag(s) IN
    IF t.k # "ok" THEN t
    ELSE LET i == LastIdx(1, Len(t.v), LAMBDA k : LowerAscii(t.v[k][1]) = LowerAscii(name)) IN
         IF i = 0 THEN UOk(<<>>)
         ELSE IF t.v[i][2] = <<>> THEN UOk(<<<<>>>>)
         ELSE LET u == Unescape(t.v[i][2][1]) IN
              IF u.k = "ok" THEN UOk(<<<<u.v>>>>) ELSE UErr(<<"UnescapeTextError">>)

(* -------------------- JavaScript string literals ----------------------- *)
\* ok value | err (the text does not start with a quote; a malformed escape; half of a surrogate pair; \u{..} with
\* more than five digits, as documented) | out (the text ends within the literal)
JEsc1 == [c \in {"b", "f", "n", "r", "t", "v"} |->
    CASE c = "b" -> Chr(8) [] c = "f" -> Chr(12) [] c = "n" -> "\n" [] c = "r" -> Chr(13) [] c = "t" -> "\t" [] c = "v" -> Chr(11)]
HexN(s) == RadVal(s, 16, 0)
LS == EncodeCP(8232)
PS == EncodeCP(8233)
Cut(s, a, b) == IF a > Len(s) THEN "" ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
RECURSIVE JLit(_, _, _, _)
JLit(s, i, q, acc) ==
    IF i > Len(s) THEN UOut
    ELSE LET c == Ch(s, i)
             d(k) == IF i + k <= Len(s) THEN Ch(s, i + k) ELSE "" IN
      IF c = q THEN UOk(acc)
      ELSE IF c \in {"\n", Chr(13)} THEN UOut
      ELSE IF c # BS THEN JLit(s, i + 1, q, acc \o c)
      ELSE LET e == d(1) IN
        IF e = "" THEN UOut
        ELSE IF e = "\n" THEN JLit(s, i + 2, q, acc)
        ELSE IF e = Chr(13) THEN JLit(s, IF d(2) = "\n" THEN i + 3 ELSE i + 2, q, acc)
        ELSE IF Cut(s, i + 1, i + 3) \in {LS, PS} THEN JLit(s, i + 4, q, acc)
        ELSE IF e \in Digits8 THEN
            LET n1 == Code[e] - 48
                two == d(2) # "" /\ d(2) \in Digits8
                n2 == IF two THEN n1 * 8 + Code[d(2)] - 48 ELSE 0
                three == two /\ e \in {"0", "1", "2", "3"} /\ d(3) # "" /\ d(3) \in Digits8 IN
            IF three THEN JLit(s, i + 4, q, acc \o EncodeCP(n2 * 8 + Code[d(3)] - 48))
            ELSE IF two THEN JLit(s, i + 3, q, acc \o EncodeCP(n2))
            ELSE JLit(s, i + 2, q, acc \o EncodeCP(n1))
        ELSE IF e = "x" THEN
            LET h == Cut(s, i + 2, i + 3) IN
            IF Len(h) = 2 /\ AllIn(h, HexDigs) THEN JLit(s, i + 4, q, acc \o EncodeCP(HexN(h)))
            ELSE IF AllIn(h, HexDigs) THEN UOut ELSE UErr(<<>>)
        ELSE IF e = "u" /\ d(2) = "{" THEN
            LET z == FindFrom(s, "}", i + 3)
                h == Cut(s, i + 3, z - 1) IN
            IF z = 0 THEN UOut
            ELSE IF h = "" \/ ~AllIn(h, HexDigs) \/ Len(h) > 5 THEN UErr(<<>>)
            ELSE IF ~CpValid(HexN(h)) THEN UErr(<<>>) ELSE JLit(s, z + 1, q, acc \o EncodeCP(HexN(h)))
        ELSE IF e = "u" THEN
            LET h == Cut(s, i + 2, i + 5)
                h2 == Cut(s, i + 8, i + 11) IN
            IF ~AllIn(h, HexDigs) THEN UErr(<<>>)
            ELSE IF Len(h) # 4 THEN UOut
            ELSE LET n == HexN(h) IN
              IF CpValid(n) THEN JLit(s, i + 6, q, acc \o EncodeCP(n))
              ELSE IF n <= 56319 /\ Cut(s, i + 6, i + 7) = BS \o "u" /\ Len(h2) = 4 /\ AllIn(h2, HexDigs)
                      /\ HexN(h2) >= 56320 /\ HexN(h2) <= 57343
              THEN JLit(s, i + 12, q, acc \o EncodeCP(65536 + (n - 55296) * 1024 + (HexN(h2) - 56320)))
              ELSE IF ~HasStr(From(s, i + 6), q) THEN UOut
              ELSE UErr(<<>>)                              \* half of a surrogate pair is no character
        ELSE IF e \in DOMAIN JEsc1 THEN JLit(s, i + 2, q, acc \o JEsc1[e])
        ELSE JLit(s, i + 2, q, acc \o e)
JsLiteral(s) == IF s = "" THEN UOut
                ELSE IF Ch(s, 1) \notin {DQ, "'"} THEN UErr(<<"SyntaxError">>)
                ELSE JLit(s, 2, Ch(s, 1), "")
=============================================================================
