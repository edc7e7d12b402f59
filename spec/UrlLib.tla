------------------------------- MODULE UrlLib -------------------------------
(***************************************************************************)
(* URLs as the program sees them: parsing, serialising, the setters every  *)
(* URL part is built from, resolution of references, and host facts.       *)
(*                                                                         *)
(* Operators that can fail return [k |-> "ok", v |-> ..],                  *)
(* [k |-> "err", e |-> <<names>>] (a chain of error names; a prefix is     *)
(* enough) or [k |-> "out"] for inputs the specification does not describe *)
(* (non-ASCII hosts, file: URLs, unusual IPv6 spellings).                  *)
(***************************************************************************)
EXTENDS Strs

UOk(v) == [k |-> "ok", v |-> v]
UErr(e) == [k |-> "err", e |-> e]
UOut == [k |-> "out"]

C0Ctl == CharsIn(0, 31)
CONTROLS == CharsIn(0, 31) \cup CharsIn(127, 255)
DQ == "\""
BS == "\\"
FRAGMENTSET == CONTROLS \cup {" ", DQ, "<", ">", "`"}
PATHSET == FRAGMENTSET \cup {"#", "?", "{", "}"}
USERINFOSET == PATHSET \cup {"/", ":", ";", "=", "@", "[", BS, "]", "^", "|"}
PATHSEGSET == PATHSET \cup {"/", "%"}
SPATHSEGSET == PATHSEGSET \cup {BS}
QUERYSET == CONTROLS \cup {" ", DQ, "#", "<", ">"}
SQUERYSET == QUERYSET \cup {"'"}
TABNL == {"\t", "\n", Chr(13)}
C0Space == CharsIn(0, 32)
DomDeny == C0Space \cup {Chr(127), "%", "#", "/", ":", "<", ">", "?", "@", "[", BS, "]", "^", "|"}
OpaqueDeny == {Chr(0), "\t", "\n", Chr(13), " ", "#", "/", ":", "<", ">", "?", "@", "[", BS, "]", "^", "|"}

DropTN(s) == IF AnyIn(s, TABNL) THEN MapChars(s, LAMBDA c : IF c \in TABNL THEN "" ELSE c) ELSE s

SpecialSchemes == {"http", "https", "ws", "wss", "ftp", "file"}
IsSpecial(sch) == sch \in SpecialSchemes
DefaultPort(sch) == CASE sch = "http" -> <<80>> [] sch = "ws" -> <<80>> [] sch = "https" -> <<443>>
                      [] sch = "wss" -> <<443>> [] sch = "ftp" -> <<21>> [] OTHER -> <<>>

SchemeChars == Alnums \cup {"+", "-", "."}
ValidScheme(s) == s # "" /\ Ch(s, 1) \in Alphas /\ AllIn(s, SchemeChars)

(* ------------------------------ hosts ---------------------------------- *)
Digits8 == CharsIn(48, 55)
RECURSIVE RadVal(_, _, _)
\* value of s in radix r; -1: not a number; -2: at least 2^31 (TLC's integers are 32-bit)
RadVal(s, r, acc) ==
    IF s = "" THEN acc
    ELSE IF Ch(s, 1) \notin HexDigs \/ HexVal[Ch(s, 1)] >= r THEN -1
    ELSE IF acc = -2 \/ acc > (2147483647 - HexVal[Ch(s, 1)]) \div r
         THEN RadVal(From(s, 2), r, -2)
    ELSE RadVal(From(s, 2), r, acc * r + HexVal[Ch(s, 1)])
V4Num(p) == IF p = "" THEN -1
            ELSE IF StartsWith(p, "0x") \/ StartsWith(p, "0X") THEN RadVal(From(p, 3), 16, 0)
            ELSE IF Len(p) >= 2 /\ Ch(p, 1) = "0" THEN RadVal(From(p, 2), 8, 0)
            ELSE RadVal(p, 10, 0)
EndsInNumber(d) ==
    LET ps == Split(d, ".")
        qs == IF ps[Len(ps)] = "" /\ Len(ps) > 1 THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
        l == qs[Len(qs)] IN
    IF ps[Len(ps)] = "" /\ Len(ps) = 1 THEN FALSE
    ELSE (l # "" /\ AllIn(l, Digits)) \/ V4Num(l) # -1
Pow256(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 256 ELSE IF n = 2 THEN 65536 ELSE 16777216
V4Parse(d) ==
    LET ps == Split(d, ".")
        qs == IF ps[Len(ps)] = "" THEN SubSeq(ps, 1, Len(ps) - 1) ELSE ps
        ns == [i \in 1..Len(qs) |-> V4Num(qs[i])] IN
    IF Len(qs) > 4 THEN UErr(<<"InvalidIpv4Address">>)
    ELSE IF \E i \in 1..Len(ns) : ns[i] = -1 THEN UErr(<<"InvalidIpv4Address">>)
    ELSE IF \E i \in 1..(Len(ns) - 1) : ns[i] > 255 \/ ns[i] = -2 THEN UErr(<<"InvalidIpv4Address">>)
    ELSE LET n == Len(ns)
             l == ns[n] IN
         IF n = 1 /\ l = -2 THEN UOut          \* needs more than 31 bits
         ELSE IF l = -2 \/ (n > 1 /\ l >= Pow256(5 - n)) THEN UErr(<<"InvalidIpv4Address">>)
         ELSE LET b(k) == \* k-th octet, 1..4
                  IF k < n THEN ns[k] ELSE (l \div Pow256(4 - k)) % 256 IN
              UOk([k |-> "ipv4", s |-> JoinS([i \in 1..4 |-> Num(b(i))], ".")])
KnownV6 == {"[::1]", "[::]", "[2001:db8::1]", "[fe80::1]"}

HostOpaque(h) ==
    IF StartsWith(h, "[") THEN
        IF ~EndsWith(h, "]") THEN UErr(<<"InvalidIpv6Address">>)
        ELSE IF h \in KnownV6 THEN UOk([k |-> "ipv6", s |-> h]) ELSE UOut
    ELSE IF AnyIn(h, OpaqueDeny) THEN UErr(<<"InvalidDomainCharacter">>)
    ELSE UOk([k |-> "domain", s |-> PctEnc(h, CONTROLS)])
HostSpecial(h) ==
    IF StartsWith(h, "[") THEN
        IF ~EndsWith(h, "]") THEN UErr(<<"InvalidIpv6Address">>)
        ELSE IF h \in KnownV6 THEN UOk([k |-> "ipv6", s |-> h]) ELSE UOut
    ELSE LET d == LowerAscii(PctDec(h)) IN
         IF ~IsAscii(d) THEN UOut
         ELSE IF AnyIn(d, DomDeny) THEN UErr(<<>>)
         ELSE IF d = "" THEN UErr(<<"EmptyHost">>)
         ELSE IF \E i \in 1..Len(Split(d, ".")) : StartsWith(Split(d, ".")[i], "xn--") THEN UOut
         ELSE IF EndsInNumber(d) THEN V4Parse(d)
         ELSE UOk([k |-> "domain", s |-> d])

(* ------------------------------ paths ---------------------------------- *)
DotDots == {"..", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E", "%2e.", "%2E.", ".%2e", ".%2E"}
Dots == {".", "%2e", "%2E"}
UpToLastSlash(p) == Upto(p, RFind(p, "/"))
Shorten(p) == IF p = "" THEN p ELSE UpToLastSlash(p)
\* acc: the path so far, rest: unparsed input (tabs and newlines removed), sp: special,
\* seg: path-segment-setter context (slashes are data), enc: encode set
RECURSIVE PathLoop(_, _, _, _, _)
PathLoop(acc, rest, sp, seg, enc) ==
    LET i == IF seg THEN 0 ELSE FindSet(rest, IF sp THEN {"/", BS} ELSE {"/"})
        raw == IF i = 0 THEN rest ELSE Upto(rest, i - 1)
        e == PctEnc(raw, enc)
        sl == i # 0
        next(a) == IF sl THEN PathLoop(a, From(rest, i + 1), sp, seg, enc) ELSE a IN
    IF e \in DotDots THEN
        LET a1 == IF EndsWith(acc, "/") /\ HasStr(Upto(acc, Len(acc) - 1), "/") THEN Upto(acc, Len(acc) - 1) ELSE acc
            a2 == Shorten(a1)
            a3 == IF sl /\ ~EndsWith(a2, "/") THEN a2 \o "/" ELSE a2 IN next(a3)
    ELSE IF e \in Dots THEN next(IF EndsWith(acc, "/") THEN acc ELSE acc \o "/")
    ELSE next(acc \o e \o (IF sl THEN "/" ELSE ""))

\* parse_path_start on the part of the input that belongs to the path
PathStart(inp0, sp) ==
    LET inp == DropTN(inp0) IN
    IF sp THEN
        LET r == IF inp # "" /\ Ch(inp, 1) \in {"/", BS} THEN From(inp, 2) ELSE inp IN
        PathLoop("/", r, TRUE, FALSE, PATHSET)
    ELSE IF inp = "" THEN ""
    ELSE IF Ch(inp, 1) = "/" THEN PathLoop("", inp, FALSE, FALSE, PATHSET)
    ELSE PathLoop("/", inp, FALSE, FALSE, PATHSET)
OpaquePath(inp) == PctEnc(DropTN(inp), CONTROLS)

(* ------------------------------ parsing -------------------------------- *)
QueryEnc(sch, q) == PctEnc(DropTN(q), IF IsSpecial(sch) THEN SQUERYSET ELSE QUERYSET)
FragEnc(f) == PctEnc(DropTN(f), FRAGMENTSET)

NoUrl == [scheme |-> "", sl |-> FALSE, user |-> "", pass |-> "", host |-> <<>>, port |-> <<>>,
          path |-> "", query |-> <<>>, frag |-> <<>>, cab |-> FALSE]

\* split "rest" (no tabs/newlines) into <<before ?/#, query opt, fragment opt>>
SplitQF(s) ==
    LET h == Find(s, "#")
        a == IF h = 0 THEN s ELSE Upto(s, h - 1)
        f == IF h = 0 THEN <<>> ELSE <<From(s, h + 1)>>
        q == Find(a, "?") IN
    <<IF q = 0 THEN a ELSE Upto(a, q - 1), IF q = 0 THEN <<>> ELSE <<From(a, q + 1)>>, f>>

\* authority and everything after it ("rest" begins right after the slashes)
AfterSlashes(sch, rest) ==
    LET sp == IsSpecial(sch)
        stop == IF sp THEN {"/", "?", "#", BS} ELSE {"/", "?", "#"}
        e == FindSet(rest, stop)
        auth == IF e = 0 THEN rest ELSE Upto(rest, e - 1)
        tail == IF e = 0 THEN "" ELSE From(rest, e)
        at == RFind(auth, "@")
        ui == IF at = 0 THEN "" ELSE Upto(auth, at - 1)
        hp == From(auth, at + 1)
        c == Find(ui, ":")
        rawu == IF c = 0 THEN ui ELSE Upto(ui, c - 1)
        rawp == IF c = 0 THEN "" ELSE From(ui, c + 1)
        hasUser == rawu # "" \/ (c # 0 /\ rawp # "")
        close == IF StartsWith(hp, "[") THEN Find(hp, "]") ELSE 0
        pc == IF StartsWith(hp, "[") /\ close = 0 THEN 0
              ELSE FindFrom(hp, ":", close + 1)
        hs == IF pc = 0 THEN hp ELSE Upto(hp, pc - 1)
        ps == IF pc = 0 THEN "" ELSE From(hp, pc + 1)
        h == IF sp THEN HostSpecial(hs) ELSE HostOpaque(hs)
        qf == SplitQF(tail)
        pd == FirstIdx(1, Len(ps), LAMBDA i : Ch(ps, i) \notin Digits)
        pz == FirstIdx(1, Len(ps), LAMBDA i : Ch(ps, i) # "0")
        pv == IF ps = "" \/ pz = 0 THEN "0" ELSE From(ps, pz) IN
    IF at = 1 /\ hp = "" /\ tail # "" THEN UErr(<<"EmptyHost">>)
    ELSE IF hs = "" /\ sp THEN UErr(<<"EmptyHost">>)
    ELSE IF hs = "" /\ (hasUser \/ pc # 0) THEN UErr(<<"EmptyHost">>)
    ELSE IF h.k # "ok" THEN h
    ELSE IF pd # 0 \/ Len(pv) > 5 \/ (pv # "" /\ pd = 0 /\ Len(pv) <= 5 /\ DecVal(pv) > 65535) THEN UErr(<<"InvalidPort">>)
    ELSE LET p == IF ps = "" THEN <<>> ELSE <<DecVal(pv)>>
             port == IF p = DefaultPort(sch) THEN <<>> ELSE p IN
      UOk([scheme |-> sch, sl |-> TRUE,
         user |-> PctEnc(rawu, USERINFOSET), pass |-> PctEnc(rawp, USERINFOSET),
         host |-> IF hs = "" THEN <<>> ELSE <<h.v>>, port |-> port,
         path |-> PathStart(qf[1], sp),
         query |-> IF qf[2] = <<>> THEN <<>> ELSE <<QueryEnc(sch, qf[2][1])>>,
         frag |-> IF qf[3] = <<>> THEN <<>> ELSE <<FragEnc(qf[3][1])>>, cab |-> FALSE])

RECURSIVE SkipSlashes(_)
SkipSlashes(s) == IF s # "" /\ Ch(s, 1) \in {"/", BS} THEN SkipSlashes(From(s, 2)) ELSE s

MkQF(u, qf) == [u EXCEPT !.query = IF qf[2] = <<>> THEN <<>> ELSE <<QueryEnc(u.scheme, qf[2][1])>>,
                         !.frag = IF qf[3] = <<>> THEN <<>> ELSE <<FragEnc(qf[3][1])>>]

\* scheme of s, "" if there is none
SchemeOf(s) == LET c == Find(s, ":") IN
    IF c < 2 THEN "" ELSE IF ValidScheme(Upto(s, c - 1)) THEN LowerAscii(Upto(s, c - 1)) ELSE ""

ParseWithScheme(sch, rest) ==
    IF sch = "file" THEN UOut
    ELSE IF IsSpecial(sch) THEN AfterSlashes(sch, SkipSlashes(rest))
    ELSE IF StartsWith(rest, "//") THEN AfterSlashes(sch, From(rest, 3))
    ELSE LET qf == SplitQF(rest) IN
         IF StartsWith(rest, "/") THEN
            UOk(MkQF([NoUrl EXCEPT !.scheme = sch, !.path = PathStart(qf[1], FALSE)], qf))
         ELSE UOk(MkQF([NoUrl EXCEPT !.scheme = sch, !.cab = TRUE, !.path = OpaquePath(qf[1])], qf))

ParseUrl(s0) ==
    LET s == DropTN(TrimBoth(s0, C0Space))
        sch == SchemeOf(s) IN
    IF sch = "" THEN UErr(<<"RelativeUrlWithoutBase">>)
    ELSE ParseWithScheme(sch, From(s, Len(sch) + 2))

HasAuthority(u) == u.sl
Serialize(u) ==
    u.scheme \o ":"
    \o (IF u.sl THEN "//"
          \o (IF u.user # "" \/ u.pass # "" THEN u.user \o (IF u.pass # "" THEN ":" \o u.pass ELSE "") \o "@" ELSE "")
          \o (IF u.host # <<>> THEN u.host[1].s ELSE "")
          \o (IF u.port # <<>> THEN ":" \o Num(u.port[1]) ELSE "")
        ELSE IF StartsWith(u.path, "//") THEN "/." ELSE "")     \* a path, not an authority
    \o u.path
    \o (IF u.query # <<>> THEN "?" \o u.query[1] ELSE "")
    \o (IF u.frag # <<>> THEN "#" \o u.frag[1] ELSE "")

\* RFC 3986 / WHATWG resolution of a reference against a base
Join(base, s0) ==
    LET s == DropTN(TrimBoth(s0, C0Space))
        sch == SchemeOf(s)
        sp == IsSpecial(base.scheme)
        slash == IF sp THEN {"/", BS} ELSE {"/"}
        qf == SplitQF(s)
        baseDir == UpToLastSlash(base.path) IN
    IF sch # "" /\ ~(sch = base.scheme /\ sp) THEN ParseWithScheme(sch, From(s, Len(sch) + 2))
    ELSE IF sch # "" THEN                              \* same special scheme: "http:foo" is relative
        LET r == From(s, Len(sch) + 2) IN
        IF Len(r) >= 2 /\ Ch(r, 1) \in slash /\ Ch(r, 2) \in slash
        THEN AfterSlashes(sch, SkipSlashes(r)) ELSE UOut
    ELSE IF base.cab THEN
        IF StartsWith(s, "#") THEN UOk([base EXCEPT !.frag = <<FragEnc(From(s, 2))>>])
        ELSE UErr(<<"RelativeUrlWithCannotBeABaseBase">>)
    ELSE IF s = "" THEN UOk([base EXCEPT !.frag = <<>>])
    ELSE IF Ch(s, 1) = "#" THEN UOk([base EXCEPT !.frag = <<FragEnc(From(s, 2))>>])
    ELSE IF Ch(s, 1) = "?" THEN UOk(MkQF(base, qf))
    ELSE IF Ch(s, 1) \in slash THEN
        IF Len(s) >= 2 /\ Ch(s, 2) \in slash THEN
            IF sp THEN AfterSlashes(base.scheme, SkipSlashes(s)) ELSE AfterSlashes(base.scheme, From(s, 3))
        ELSE UOk(MkQF([base EXCEPT !.path = PathLoop("/", From(qf[1], 2), sp, FALSE, PATHSET)], qf))
    ELSE IF base.path = "" THEN UOut
    ELSE UOk(MkQF([base EXCEPT !.path = PathLoop(baseDir, qf[1], sp, FALSE, PATHSET)], qf))

(* ------------------------------ setters -------------------------------- *)
SetScheme(u, s0) ==
    LET s == DropTN(s0)
        c == Find(s, ":")
        n == IF c = 0 THEN s ELSE Upto(s, c - 1)
        rest == IF c = 0 THEN "" ELSE From(s, c + 1)
        sch == LowerAscii(n) IN
    IF ~ValidScheme(n) THEN UErr(<<>>)
    ELSE IF IsSpecial(sch) # IsSpecial(u.scheme) THEN UErr(<<>>)
    ELSE IF sch = "file" /\ u.sl THEN UErr(<<>>)
    ELSE IF rest # "" THEN UErr(<<>>)
    ELSE UOk([u EXCEPT !.scheme = sch, !.port = IF @ = DefaultPort(sch) THEN <<>> ELSE @])
NoHost(u) == u.host = <<>> \/ u.host[1].s = ""
SetUser(u, s) == IF NoHost(u) THEN UErr(<<>>)
                 ELSE UOk([u EXCEPT !.user = PctEnc(s, USERINFOSET)])
SetPass(u, o) == IF NoHost(u) THEN UErr(<<>>)
                 ELSE UOk([u EXCEPT !.pass = IF o = <<>> THEN "" ELSE PctEnc(o[1], USERINFOSET)])
SetPort(u, o) == IF NoHost(u) THEN UErr(<<>>)
                 ELSE UOk([u EXCEPT !.port = IF o = DefaultPort(u.scheme) THEN <<>> ELSE o])
SetHost(u, o) ==
    IF u.cab THEN UErr(<<"SetHostOnCannotBeABaseUrl">>)
    ELSE IF o = <<>> THEN
        IF u.host = <<>> THEN UOk(u)
        ELSE IF IsSpecial(u.scheme) THEN UErr(<<"EmptyHost">>)
        ELSE IF StartsWith(u.path, "//") THEN UErr(<<"EmptyHost">>)
        ELSE UOk([u EXCEPT !.sl = FALSE, !.user = "", !.pass = "", !.host = <<>>, !.port = <<>>,
                           !.path = IF @ = "" THEN "/" ELSE @])
    ELSE LET h == o[1]
             br == StartsWith(h, "[") /\ EndsWith(h, "]")
             c == IF br THEN 0 ELSE Find(h, ":")
             hs == IF c = 0 THEN h ELSE Upto(h, c - 1)
             r == IF IsSpecial(u.scheme) THEN HostSpecial(hs) ELSE HostOpaque(hs) IN
         IF h = "" THEN
            IF IsSpecial(u.scheme) \/ u.user # "" \/ u.pass # "" \/ u.port # <<>> THEN UErr(<<"EmptyHost">>)
            ELSE UOk([u EXCEPT !.sl = TRUE, !.host = <<>>])
         ELSE IF c = 1 THEN UErr(<<"InvalidDomainCharacter">>)
         ELSE IF r.k # "ok" THEN r
         ELSE UOk([u EXCEPT !.sl = TRUE, !.host = <<r.v>>])
SetPath(u, s) ==
    IF u.cab THEN
        UOk([u EXCEPT !.path = IF StartsWith(s, "/") THEN "%2F" \o OpaquePath(From(s, 2)) ELSE OpaquePath(s)])
    ELSE LET p == IF ~IsSpecial(u.scheme) /\ DropTN(s) # "" /\ Ch(DropTN(s), 1) \in {"?", "#"}
                  THEN "" ELSE PathStart(s, IsSpecial(u.scheme)) IN
         UOk([u EXCEPT !.path = p, !.cab = ~u.sl /\ p = ""])
StripOpaque(u) == IF u.cab /\ u.query = <<>> /\ u.frag = <<>>
                  THEN [u EXCEPT !.path = TrimEnd(@, {" "})] ELSE u
SetQuery(u, o) == IF o = <<>> THEN StripOpaque([u EXCEPT !.query = <<>>])
                  ELSE [u EXCEPT !.query = <<QueryEnc(u.scheme, o[1])>>]
SetFrag(u, o) == IF o = <<>> THEN (IF u.frag = <<>> THEN u ELSE StripOpaque([u EXCEPT !.frag = <<>>]))
                 ELSE [u EXCEPT !.frag = <<FragEnc(o[1])>>]
\* path_segments_mut().pop_if_empty().push(s)
PushSegment(u, s0) ==
    LET sp == IsSpecial(u.scheme)
        p == u.path
        p1 == IF Len(p) > 1 /\ EndsWith(p, "/") THEN Upto(p, Len(p) - 1) ELSE p
        p2 == IF p1 = "" \/ Len(p1) > 1 THEN p1 \o "/" ELSE p1 IN
    IF s0 \in {".", ".."} THEN [u EXCEPT !.path = p1]
    ELSE [u EXCEPT !.path = PathLoop(p2, DropTN(s0), sp, TRUE, IF sp THEN SPATHSEGSET ELSE PATHSEGSET)]

PathSegments(u) == IF u.cab \/ ~StartsWith(u.path, "/") THEN <<>> ELSE <<Split(From(u.path, 2), "/")>>

(* --------------------------- form encoding ----------------------------- *)
FormKeep == Alnums \cup {"*", "-", ".", "_"}
FormSer(s) == MapChars(s, LAMBDA c : IF c = " " THEN "+" ELSE IF c \in FormKeep THEN c ELSE PctTab[c])
PlusToSpace(s) == IF HasStr(s, "+") THEN MapChars(s, LAMBDA c : IF c = "+" THEN " " ELSE c) ELSE s
FormDec(s) == PctDec(PlusToSpace(s))
\* the (name, value) pairs of a query string, decoded; empty pieces are skipped
QPairs(q) ==
    LET ps == SelectSeq(Split(q, "&"), LAMBDA p : p # "") IN
    [i \in 1..Len(ps) |->
        LET e == Find(ps[i], "=") IN
        IF e = 0 THEN <<FormDec(ps[i]), "">> ELSE <<FormDec(Upto(ps[i], e - 1)), FormDec(From(ps[i], e + 1))>>]
PairsUtf8(ps) == \A i \in 1..Len(ps) : IsUtf8(ps[i][1]) /\ IsUtf8(ps[i][2])
SerPairs(ps) == JoinS([i \in 1..Len(ps) |-> FormSer(ps[i][1]) \o "=" \o FormSer(ps[i][2])], "&")

(* ----------------------- host facts (public suffix) -------------------- *)
(* A closed fragment of the public suffix list; hosts outside it are OUT.  *)
PslRules == {<<"com">>, <<"net">>, <<"org">>, <<"io">>, <<"github", "io">>, <<"uk">>, <<"co", "uk">>,
             <<"jp">>, <<"co", "jp">>}
PslTlds == {"com", "net", "org", "io", "uk", "jp"}
\* labels known not to take part in any rule beyond the ones above
Vetted == (CharsIn(97, 122) \cup CharsIn(48, 57) \cup
          {"", "www", "example", "test", "foo", "bar", "baz", "ab", "sub", "localhost", "sub2", "examplea", "new", "middle", "invalid", "old"})
\* .. anywhere but at the end
InnerLabels == Vetted \cup {"mobile", "onion", "dashnet", "orteil", "bambulab", "proozy", "shop"}
\* further registrable domains may be handed to a run, with the number of labels of their suffixes (the list itself is data, not code)
PslKnown == JsonDeserialize("psl.json")
PslKeys == DOMAIN PslKnown
PslMore == Cardinality(PslKeys) > 1
PslHas(ls) == PslMore /\ \E k \in 1..Len(ls) : JoinS(SubSeq(ls, k, Len(ls)), ".") \in PslKeys
\* number of labels of the public suffix of a list of labels (none of them the empty root label)
SufLabels(ls) ==
    LET n == Len(ls) IN
    IF PslHas(ls) THEN PslKnown[JoinS(SubSeq(ls, CHOOSE k \in 1..n : JoinS(SubSeq(ls, k, n), ".") \in PslKeys, n), ".")]
    ELSE IF n >= 2 /\ <<ls[n - 1], ls[n]>> \in PslRules THEN 2 ELSE 1
HostVetted(h) ==
    LET t == IF EndsWith(h, ".") THEN Upto(h, Len(h) - 1) ELSE h
        ls == Split(t, ".")
        n == Len(ls) IN
    \/ PslHas(ls) /\ \A i \in 1..n : ls[i] # ""
    \/ /\ ls[n] \in (PslTlds \cup {"onion"} \cup (Vetted \ {"", "ab", "foo", "bar", "new"}))
       /\ n >= 2 => (ls[n - 1] \in InnerLabels \/ <<ls[n - 1], ls[n]>> \in PslRules)
       /\ n >= 2 => ~(ls[n - 1] = "sub" /\ ls[n] = "jp")          \* itself in the list
       /\ n >= 3 => (ls[n] \in PslTlds => ls[n - 2] \in InnerLabels \cup {"co", "github", "com"})
       /\ n >= 4 => (ls[n] \in PslTlds => ls[n - 3] \in InnerLabels \cup {"co", "github", "com"})
       /\ \A i \in 1..n : ls[i] # "" 

\* byte offsets (0-based, <<>> = none): m = start of the middle, s = start of the suffix, f = the final period
DomDetails(h) ==
    LET fq == EndsWith(h, ".")
        t == IF fq THEN Upto(h, Len(h) - 1) ELSE h
        ls == Split(t, ".")
        n == Len(ls)
        k == SufLabels(ls)
        sl == Len(JoinS(SubSeq(ls, n - k + 1, n), "."))
        ss == Len(t) - sl
        ml == IF n > k THEN Len(JoinS(SubSeq(ls, n - k, n), ".")) ELSE 0 IN
    [f |-> IF fq THEN <<Len(t)>> ELSE <<>>, s |-> <<ss>>,
     m |-> IF n > k THEN <<Len(t) - ml>> ELSE <<>>]
IsDomain(u) == u.host # <<>> /\ u.host[1].k = "domain"
\* host facts of the URL's current host: <<>> (no host) or a record; OUT if not vetted
FactsKnown(u) == IsDomain(u) => HostVetted(u.host[1].s)
DD(u) == DomDetails(u.host[1].s)
HStr(u) == u.host[1].s
EndOf(u) == IF DD(u).f = <<>> THEN Len(HStr(u)) ELSE DD(u).f[1]
Sub0(s, a, b) == SubSeq(s, a + 1, b)
FDomain(u) == IF ~IsDomain(u) THEN <<>> ELSE <<Sub0(HStr(u), 0, EndOf(u))>>
FSubdomain(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).m = <<>> \/ DD(u).m = <<0>> THEN <<>>
                 ELSE <<Sub0(HStr(u), 0, DD(u).m[1] - 1)>>
FNotSuffix(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).s = <<>> \/ DD(u).s = <<0>> THEN <<>>
                 ELSE <<Sub0(HStr(u), 0, DD(u).s[1] - 1)>>
FMiddle(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).m = <<>> \/ DD(u).s = <<>> \/ DD(u).s = <<0>> THEN <<>>
              ELSE <<Sub0(HStr(u), DD(u).m[1], DD(u).s[1] - 1)>>
FReg(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).m = <<>> THEN <<>> ELSE <<Sub0(HStr(u), DD(u).m[1], EndOf(u))>>
FSuffix(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).s = <<>> THEN <<>> ELSE <<Sub0(HStr(u), DD(u).s[1], EndOf(u))>>
FFqdn(u) == IF ~IsDomain(u) THEN <<>> ELSE IF DD(u).f = <<>> THEN <<>> ELSE <<".">>
IsFqdn(u) == IsDomain(u) /\ DD(u).f # <<>>

\* set_domain_host
SetDomainHost(u, d) ==
    LET h == HostSpecial(d) IN
    IF h.k = "out" THEN UOut
    ELSE IF h.k # "ok" \/ h.v.k # "domain" THEN UErr(<<"ProvidedHostIsNotADomain">>)
    ELSE LET r == SetHost(u, <<d>>) IN
         IF r.k = "err" THEN UErr(<<"ParseError">> \o r.e) ELSE r
=============================================================================
