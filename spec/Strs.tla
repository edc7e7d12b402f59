-------------------------------- MODULE Strs --------------------------------
(***************************************************************************)
(* Byte strings.  Every string of the system is represented as a TLA+      *)
(* string with one character (code 0..255) per UTF-8 byte, so that Len,    *)
(* SubSeq and indices count bytes exactly as the implementation does.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

Latin == JsonDeserialize("latin1.json")       \* <<chr(0), ..., chr(255)>>
Code  == [c \in {Latin[i] : i \in 1..256} |-> (CHOOSE i \in 1..256 : Latin[i] = c) - 1]
Chr(n) == Latin[n + 1]
CharsIn(a, b) == {Latin[i + 1] : i \in a..b}

Ch(s, i) == SubSeq(s, i, i)                    \* 1-based character
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
CharSet(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}

Digits  == CharsIn(48, 57)
Lowers  == CharsIn(97, 122)
Uppers  == CharsIn(65, 90)
Alphas  == Lowers \cup Uppers
Alnums  == Alphas \cup Digits
HexDigs == Digits \cup CharsIn(65, 70) \cup CharsIn(97, 102)
HighBytes == CharsIn(128, 255)
ContBytes == CharsIn(128, 191)

AllIn(s, S) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in S
AnyIn(s, S) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in S
IsAscii(s) == ~AnyIn(s, HighBytes)

\* least i in a..b with P(i), or 0
FirstIdx(a, b, P(_)) ==
    LET f[i \in a..(b + 1)] == IF i > b THEN 0 ELSE IF P(i) THEN i ELSE f[i + 1] IN
    IF a > b THEN 0 ELSE f[a]
LastIdx(a, b, P(_)) ==
    LET f[i \in (a - 1)..b] == IF i < a THEN 0 ELSE IF P(i) THEN i ELSE f[i - 1] IN
    IF a > b THEN 0 ELSE f[b]

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
From(s, i) == SubSeq(s, i, Len(s))             \* from 1-based i to the end
Upto(s, i) == SubSeq(s, 1, i)

\* 1-based position of the first occurrence of p in s at or after i, 0 if none
FindFrom(s, p, i) == FirstIdx(i, Len(s) - Len(p) + 1, LAMBDA j : SubSeq(s, j, j + Len(p) - 1) = p)
Find(s, p) == FindFrom(s, p, 1)
RFind(s, p) == LastIdx(1, Len(s) - Len(p) + 1, LAMBDA j : SubSeq(s, j, j + Len(p) - 1) = p)
HasStr(s, p) == Find(s, p) # 0
FindSet(s, S) == FirstIdx(1, Len(s), LAMBDA j : SubSeq(s, j, j) \in S)

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
JoinS(ss, sep) == IF ss = <<>> THEN ""
                  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ss), Tail(ss))

\* UTF-8 character boundary test for the 0-based byte index i
IsBoundary(s, i) == \/ i = 0 \/ i = Len(s)
                    \/ (i > 0 /\ i < Len(s) /\ SubSeq(s, i + 1, i + 1) \notin ContBytes)
\* the sequence of the (UTF-8) characters of s
CharStarts(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : SubSeq(s, i, i) \notin ContBytes)
UChars(s) == LET st == CharStarts(s) IN
    [k \in 1..Len(st) |-> SubSeq(s, st[k], IF k = Len(st) THEN Len(s) ELSE st[k + 1] - 1)]

\* str::split (non-overlapping, left to right; "" as separator yields every character between two "")
RECURSIVE SplitNE(_, _, _)
SplitNE(s, sep, n) ==                 \* n: maximal number of cuts, -1 for no bound
    LET i == IF n = 0 THEN 0 ELSE Find(s, sep) IN
    IF i = 0 THEN <<s>>
    ELSE <<Upto(s, i - 1)>> \o SplitNE(From(s, i + Len(sep)), sep, n - 1)
Split(s, sep) == IF sep = "" THEN <<"">> \o UChars(s) \o <<"">> ELSE SplitNE(s, sep, -1)

\* str::split_once: <<>> or <<before, after>>
SplitOnce(s, sep) == LET i == Find(s, sep) IN
    IF i = 0 THEN <<>> ELSE <<Upto(s, i - 1), From(s, i + Len(sep))>>

\* str::replace / replacen (n = -1: all).  "" matches before every character and at the end.
ReplaceN(s, find, rep, n) ==
    IF find # "" THEN JoinS(SplitNE(s, find, n), rep)
    ELSE LET u == UChars(s)
             k == IF n = -1 \/ n > Len(u) + 1 THEN Len(u) + 1 ELSE n IN
         Cat([i \in 1..(Len(u) + 1) |-> (IF i <= k THEN rep ELSE "") \o (IF i <= Len(u) THEN u[i] ELSE "")])

LowerTab == [c \in Uppers |-> Chr(Code[c] + 32)]
UpperTab == [c \in Lowers |-> Chr(Code[c] - 32)]
MapChars(s, F(_)) == Cat([i \in 1..Len(s) |-> F(SubSeq(s, i, i))])
LowerAscii(s) == IF AnyIn(s, Uppers) THEN MapChars(s, LAMBDA c : IF c \in Uppers THEN LowerTab[c] ELSE c) ELSE s
UpperAscii(s) == IF AnyIn(s, Lowers) THEN MapChars(s, LAMBDA c : IF c \in Lowers THEN UpperTab[c] ELSE c) ELSE s

StripPrefixOr(s, p) == IF StartsWith(s, p) THEN From(s, Len(p) + 1) ELSE s
StripSuffixOr(s, p) == IF EndsWith(s, p) THEN Upto(s, Len(s) - Len(p)) ELSE s

TrimBoth(s, S) ==
    LET a == FirstIdx(1, Len(s), LAMBDA i : SubSeq(s, i, i) \notin S)
        b == LastIdx(1, Len(s), LAMBDA i : SubSeq(s, i, i) \notin S) IN
    IF a = 0 THEN "" ELSE SubSeq(s, a, b)
TrimEnd(s, S) ==
    LET b == LastIdx(1, Len(s), LAMBDA i : SubSeq(s, i, i) \notin S) IN Upto(s, b)

HexVal == [c \in HexDigs |-> IF c \in Digits THEN Code[c] - 48
                             ELSE IF c \in Uppers THEN Code[c] - 55 ELSE Code[c] - 87]
HexUp == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
PctTab == [c \in {Latin[i] : i \in 1..256} |-> "%" \o HexUp[(Code[c] \div 16) + 1] \o HexUp[(Code[c] % 16) + 1]]

DecVal(s) == FoldLeft(LAMBDA a, c : a * 10 + (Code[c] - 48), 0, Chars(s))   \* at most 9 digits
Num(n) == ToString(n)

PctEnc(s, S) == IF AnyIn(s, S) THEN MapChars(s, LAMBDA c : IF c \in S THEN PctTab[c] ELSE c) ELSE s

\* percent-decoding (invalid sequences stay)
RECURSIVE PctDec(_)
PctDec(s) ==
    LET i == Find(s, "%") IN
    IF i = 0 THEN s
    ELSE IF i + 2 <= Len(s) /\ Ch(s, i + 1) \in HexDigs /\ Ch(s, i + 2) \in HexDigs
         THEN Upto(s, i - 1) \o Chr(HexVal[Ch(s, i + 1)] * 16 + HexVal[Ch(s, i + 2)]) \o PctDec(From(s, i + 3))
         ELSE Upto(s, i) \o PctDec(From(s, i + 1))

\* well-formed UTF-8
Utf8Width(b) == IF b < 128 THEN 1 ELSE IF b >= 194 /\ b <= 223 THEN 2
                ELSE IF b >= 224 /\ b <= 239 THEN 3 ELSE IF b >= 240 /\ b <= 244 THEN 4 ELSE 0
RECURSIVE Utf8OK(_, _)
Utf8OK(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET b == Code[Ch(s, i)]
             w == Utf8Width(b) IN
         /\ w > 0
         /\ i + w - 1 <= Len(s)
         /\ \A j \in 1..(w - 1) : Ch(s, i + j) \in ContBytes
         /\ (w = 3 => LET c == Code[Ch(s, i + 1)] IN (b = 224 => c >= 160) /\ (b = 237 => c <= 159))
         /\ (w = 4 => LET c == Code[Ch(s, i + 1)] IN (b = 240 => c >= 144) /\ (b = 244 => c <= 143))
         /\ Utf8OK(s, i + w)
IsUtf8(s) == IsAscii(s) \/ Utf8OK(s, 1)

\* code point of a one-character byte string; encoding of a code point
CodePoint(u) ==
    LET b(i) == Code[Ch(u, i)] IN
    IF Len(u) = 1 THEN b(1)
    ELSE IF Len(u) = 2 THEN (b(1) % 32) * 64 + (b(2) % 64)
    ELSE IF Len(u) = 3 THEN (b(1) % 16) * 4096 + (b(2) % 64) * 64 + (b(3) % 64)
    ELSE (b(1) % 8) * 262144 + (b(2) % 64) * 4096 + (b(3) % 64) * 64 + (b(4) % 64)
EncodeCP(n) ==
    IF n < 128 THEN Chr(n)
    ELSE IF n < 2048 THEN Chr(192 + (n \div 64)) \o Chr(128 + (n % 64))
    ELSE IF n < 65536 THEN Chr(224 + (n \div 4096)) \o Chr(128 + ((n \div 64) % 64)) \o Chr(128 + (n % 64))
    ELSE Chr(240 + (n \div 262144)) \o Chr(128 + ((n \div 4096) % 64)) \o Chr(128 + ((n \div 64) % 64)) \o Chr(128 + (n % 64))

\* ---- index arithmetic of the configuration language (0-based results, -1 = none) ----
NegIndex(i, len) == IF i < 0 THEN (IF len + i >= 0 THEN len + i ELSE -1)
                    ELSE IF i < len THEN i ELSE -1
NegBoundary(i, len) == IF i = len THEN len ELSE NegIndex(i, len)
\* <<>> or <<start, end>> (0-based, end exclusive); end given as optional <<>> / <<e>>
NegRange(st, en, len) ==
    LET a == NegBoundary(st, len)
        b == IF en = <<>> THEN len ELSE NegBoundary(en[1], len) IN
    IF a = -1 \/ b = -1 \/ b < a THEN <<>> ELSE <<a, b>>
NegNth(seq, i) == LET k == NegIndex(i, Len(seq)) IN IF k = -1 THEN <<>> ELSE <<seq[k + 1]>>
InsertAtSeq(seq, k, x) == SubSeq(seq, 1, k) \o <<x>> \o SubSeq(seq, k + 1, Len(seq))  \* before 0-based k
RemoveAtSeq(seq, k) == SubSeq(seq, 1, k) \o SubSeq(seq, k + 2, Len(seq))
\* bytes [a, b) of s, <<>> unless both ends are character boundaries
Slice(s, a, b) == IF IsBoundary(s, a) /\ IsBoundary(s, b) THEN <<SubSeq(s, a + 1, b)>> ELSE <<>>

RangeOf(seq) == {seq[i] : i \in 1..Len(seq)}
\* association lists: sequences of <<key, value>>
Keys(al) == {al[i][1] : i \in 1..Len(al)}
LookupAl(al, k) == LET i == FirstIdx(1, Len(al), LAMBDA j : al[j][1] = k) IN
    IF i = 0 THEN <<>> ELSE <<al[i][2]>>
PutAl(al, k, v) == IF k \in Keys(al) THEN [i \in 1..Len(al) |-> IF al[i][1] = k THEN <<k, v>> ELSE al[i]]
                   ELSE Append(al, <<k, v>>)
DelAl(al, k) == SelectSeq(al, LAMBDA p : p[1] # k)
=============================================================================
