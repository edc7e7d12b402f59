------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The configuration language: string sources, modifications, matchers,    *)
(* conditions, mappers and rules as transitions of a task's state.         *)
(*                                                                         *)
(* A task state is E = [url, sp, ca, ...]: the URL, the scratchpad, the    *)
(* arguments of the enclosing common call, and the read-only parts of the  *)
(* environment.  c = [cache, log] is the state outside the task: the cache *)
(* and the requests sent to the network.                                   *)
(*                                                                         *)
(* Every evaluation gives [k, v, e, c]: k = "ok" with value v, "err" with  *)
(* the chain of error names e (and, for mappers, rules and modifications,  *)
(* the partially changed value in v), or "out" when the specification does *)
(* not describe the case.                                                  *)
(***************************************************************************)
EXTENDS Parts

Ok(v, c) == [k |-> "ok", v |-> v, e |-> <<>>, c |-> c]
ErrV(e, v, c) == [k |-> "err", v |-> v, e |-> e, c |-> c]
Err(e, c) == ErrV(e, <<>>, c)
OutR == [k |-> "out", v |-> <<>>, e |-> <<>>, c |-> <<>>]
W(p, r) == IF r.k = "err" THEN [r EXCEPT !.e = p \o @] ELSE r
Bind(r, F(_, _)) == IF r.k = "ok" THEN F(r.v, r.c) ELSE r
\* lift UOk / UErr / UOut
Lift(u, p, c) == IF u.k = "ok" THEN Ok(u.v, c) ELSE IF u.k = "err" THEN Err(p \o u.e, c) ELSE OutR
\* an error of a sub-evaluation leaves the value being changed as s
Keep(r, s) == IF r.k = "err" THEN [r EXCEPT !.v = s] ELSE r
TE == <<"TryElseError">>
MapGet(m, o) == LET x == IF o = <<>> THEN m.if_null ELSE LookupAl(m.map, o[1]) IN
                IF x # <<>> THEN x ELSE m.else

(* --------------------- character matchers (pure) ----------------------- *)
CIs(n, u) ==                            \* u: one character; ok BOOLEAN / out
    LET a == IsAscii(u)
        cp == CodePoint(u)
        asc(S) == UOk(u \in S)
        uni(S) == IF a THEN UOk(u \in S) ELSE UOut IN
    CASE n.k = "Equals" -> UOk(u = n.x)
      [] n.k = "Between" -> UOk(CodePoint(n.min) <= cp /\ cp <= CodePoint(n.max))
      [] n.k = "IsOneOf" -> UOk(u \in RangeOf(n.x))
      [] n.k = "IsAlphabetic" -> uni(Alphas)
      [] n.k = "IsAlphanumeric" -> uni(Alnums)
      [] n.k = "IsAscii" -> UOk(a)
      [] n.k = "IsAsciiAlphabetic" -> asc(Alphas)
      [] n.k = "IsAsciiAlphanumeric" -> asc(Alnums)
      [] n.k = "IsAsciiControl" -> asc(CharsIn(0, 31) \cup CharsIn(127, 127))
      [] n.k = "IsAsciiDigit" -> asc(Digits)
      [] n.k = "IsAsciiGraphic" -> asc(CharsIn(33, 126))
      [] n.k = "IsAsciiHexdigit" -> asc(HexDigs)
      [] n.k = "IsAsciiLowercase" -> asc(Lowers)
      [] n.k = "IsAsciiPunctuation" -> asc(CharsIn(33, 126) \ Alnums)
      [] n.k = "IsAsciiUppercase" -> asc(Uppers)
      [] n.k = "IsAsciiWhitespace" -> asc({"\t", "\n", Chr(12), Chr(13), " "})
      [] n.k = "IsControl" -> UOk(CpControl(cp))
      [] n.k = "IsDigit" -> asc(Digits)
      [] n.k = "IsDigitRadix" ->
            IF n.x < 2 \/ n.x > 36 THEN UErr(<<"InvalidRadix">>)
            ELSE UOk(\/ u \in Digits /\ Code[u] - 48 < n.x
                     \/ u \in Lowers /\ Code[u] - 87 < n.x
                     \/ u \in Uppers /\ Code[u] - 55 < n.x)
      [] n.k = "IsLowercase" -> uni(Lowers)
      [] n.k = "IsNumeric" -> uni(Digits)
      [] n.k = "IsUppercase" -> uni(Uppers)
      [] n.k = "IsWhitespace" -> UOk(CpSpace(cp))
RECURSIVE CharM(_, _)
RECURSIVE CharMSeq(_, _, _)
\* m: "all" | "any" | "first" (the first that is not an error)
CharMSeq(m, ns, u) ==
    IF ns = <<>> THEN UOk(m = "all")
    ELSE LET r == CharM(Head(ns), u) IN
         IF r.k = "ok" /\ ((m = "all" /\ r.v) \/ (m = "any" /\ ~r.v)) THEN CharMSeq(m, Tail(ns), u)
         ELSE IF r.k = "err" /\ m = "first" /\ Len(ns) > 1 THEN CharMSeq(m, Tail(ns), u)
         ELSE r
CharM(n, u) ==
    CASE n.k = "Always" -> UOk(TRUE)
      [] n.k = "Never" -> UOk(FALSE)
      [] n.k = "Error" -> UErr(<<"ExplicitError">>)
      [] n.k = "Debug" -> CharM(n.x, u)
      [] n.k = "If" -> LET r == CharM(n.if, u) IN IF r.k # "ok" THEN r ELSE CharM(IF r.v THEN n.then ELSE n.else, u)
      [] n.k = "All" -> CharMSeq("all", n.x, u)
      [] n.k = "Any" -> CharMSeq("any", n.x, u)
      [] n.k = "FirstNotError" -> CharMSeq("first", n.x, u)
      [] n.k = "Not" -> LET r == CharM(n.x, u) IN IF r.k = "ok" THEN UOk(~r.v) ELSE r
      [] n.k = "TreatErrorAsPass" -> LET r == CharM(n.x, u) IN IF r.k = "err" THEN UOk(TRUE) ELSE r
      [] n.k = "TreatErrorAsFail" -> LET r == CharM(n.x, u) IN IF r.k = "err" THEN UOk(FALSE) ELSE r
      [] n.k = "TryElse" -> LET r == CharM(n.try, u) IN
            IF r.k # "err" THEN r ELSE LET q == CharM(n.else, u) IN IF q.k = "err" THEN UErr(TE) ELSE q
      [] OTHER -> CIs(n, u)
\* over the characters of a string: m = "all" | "any"
RECURSIVE CharsMatch(_, _, _)
CharsMatch(m, n, us) ==
    IF us = <<>> THEN UOk(m = "all")
    ELSE LET r == CharM(n, Head(us)) IN
         IF r.k = "ok" /\ (r.v = (m = "all")) THEN CharsMatch(m, n, Tail(us)) ELSE r

(* --------------------- string locations (pure) ------------------------- *)
RECURSIVE Loc(_, _, _)
RECURSIVE LocSeq(_, _, _, _)
RECURSIVE LocSegs(_, _, _)
LocSeq(m, ns, h, d) ==
    IF ns = <<>> THEN UOk(m = "all")
    ELSE LET r == Loc(Head(ns), h, d) IN
         IF r.k = "ok" /\ ((m = "all" /\ r.v) \/ (m = "any" /\ ~r.v)) THEN LocSeq(m, Tail(ns), h, d)
         ELSE IF r.k = "err" /\ m = "first" /\ Len(ns) > 1 THEN LocSeq(m, Tail(ns), h, d)
         ELSE r
LocSegs(n, segs, d) ==
    IF segs = <<>> THEN UOk(FALSE)
    ELSE LET r == Loc(n, Head(segs), d) IN
         IF r.k = "ok" /\ ~r.v THEN LocSegs(n, Tail(segs), d) ELSE r
Loc(n, h, d) ==
    LET cut(a) ==          \* the boundary named by index a: err / ok
            LET i == NegBoundary(a, Len(h)) IN
            IF i = -1 THEN UErr(<<"InvalidIndex">>) ELSE IF ~IsBoundary(h, i) THEN UErr(<<"InvalidSlice">>) ELSE UOk(i) IN
    CASE n.k = "Always" -> UOk(TRUE)
      [] n.k = "Never" -> UOk(FALSE)
      [] n.k = "Error" -> UErr(<<"ExplicitError">>)
      [] n.k = "Debug" -> Loc(n.x, h, d)
      [] n.k = "If" -> LET r == Loc(n.if, h, d) IN IF r.k # "ok" THEN r ELSE Loc(IF r.v THEN n.then ELSE n.else, h, d)
      [] n.k = "All" -> LocSeq("all", n.x, h, d)
      [] n.k = "Any" -> LocSeq("any", n.x, h, d)
      [] n.k = "FirstNotError" -> LocSeq("first", n.x, h, d)
      [] n.k = "Not" -> LET r == Loc(n.x, h, d) IN IF r.k = "ok" THEN UOk(~r.v) ELSE r
      [] n.k = "TreatErrorAsPass" -> LET r == Loc(n.x, h, d) IN IF r.k = "err" THEN UOk(TRUE) ELSE r
      [] n.k = "TreatErrorAsFail" -> LET r == Loc(n.x, h, d) IN IF r.k = "err" THEN UOk(FALSE) ELSE r
      [] n.k = "TryElse" -> LET r == Loc(n.try, h, d) IN
            IF r.k # "err" THEN r ELSE LET q == Loc(n.else, h, d) IN IF q.k = "err" THEN UErr(TE) ELSE q
      [] n.k = "Anywhere" -> UOk(HasStr(h, d))
      [] n.k = "Start" -> UOk(StartsWith(h, d))
      [] n.k = "End" -> UOk(EndsWith(h, d))
      [] n.k = "StartsAt" -> LET i == cut(n.x) IN IF i.k # "ok" THEN i ELSE UOk(StartsWith(From(h, i.v + 1), d))
      [] n.k = "EndsAt" -> LET i == cut(n.x) IN IF i.k # "ok" THEN i ELSE UOk(EndsWith(Upto(h, i.v), d))
      [] n.k = "After" -> LET i == cut(n.x) IN IF i.k # "ok" THEN i ELSE UOk(HasStr(From(h, i.v + 1), d))
      [] n.k = "Before" -> LET i == cut(n.x) IN IF i.k # "ok" THEN i ELSE UOk(HasStr(Upto(h, i.v), d))
      [] n.k = "Equals" -> UOk(h = d)
      [] n.k = "Range" -> LET r == NegRange(n.start, n.end, Len(h)) IN
            IF r = <<>> THEN UErr(<<"InvalidSlice">>)
            ELSE IF Slice(h, r[1], r[2]) = <<>> THEN UErr(<<"InvalidSlice">>)
            ELSE Loc(n.location, Slice(h, r[1], r[2])[1], d)
      [] n.k = "AnySegment" -> LocSegs(n.location, Split(h, n.split), d)
      [] n.k = "NthSegment" -> LET s == NegNth(Split(h, n.split), n.n) IN
            IF s = <<>> THEN UErr(<<"SegmentNotFound">>) ELSE Loc(n.location, s[1], d)

(* ------------------------------- JSON ---------------------------------- *)
\* [t, ..]: s(v), o(v: association list), a(v: sequence), x (null, boolean, number); <<>> on a syntax error
JWs == {" ", "\t", "\n", Chr(13)}
JSkip(s, i) == LET j == FirstIdx(i, Len(s), LAMBDA k : Ch(s, k) \notin JWs) IN IF j = 0 THEN Len(s) + 1 ELSE j
JBad == <<>>
JR(v, i) == <<v, i>>
RECURSIVE JStr(_, _, _)
JStr(s, i, acc) ==                                  \* after the opening quote: <<text, next>> or <<>>
    IF i > Len(s) THEN <<>>
    ELSE LET c == Ch(s, i)
             d == IF i < Len(s) THEN Ch(s, i + 1) ELSE ""
             h == SubSeq(s, i + 2, i + 5)
             h2 == SubSeq(s, i + 8, i + 11) IN
    IF c = DQ THEN <<acc, i + 1>>
    ELSE IF c \in C0Ctl THEN <<>>
    ELSE IF c # BS THEN JStr(s, i + 1, acc \o c)
    ELSE IF d \in {DQ, BS, "/"} THEN JStr(s, i + 2, acc \o d)
    ELSE IF d \in {"b", "f", "n", "r", "t"} THEN JStr(s, i + 2, acc \o JEsc1[d])
    ELSE IF d = "u" /\ Len(h) = 4 /\ AllIn(h, HexDigs) THEN
        LET n == RadVal(h, 16, 0) IN
        IF CpValid(n) THEN JStr(s, i + 6, acc \o EncodeCP(n))
        ELSE IF n <= 56319 /\ SubSeq(s, i + 6, i + 7) = BS \o "u" /\ Len(h2) = 4 /\ AllIn(h2, HexDigs)
                /\ RadVal(h2, 16, 0) >= 56320 /\ RadVal(h2, 16, 0) <= 57343
        THEN JStr(s, i + 12, acc \o EncodeCP(65536 + (n - 55296) * 1024 + (RadVal(h2, 16, 0) - 56320)))
        ELSE <<>>
    ELSE <<>>
\* end of the number starting at i, 0 if malformed
JDig(s, i) == LET e == FirstIdx(i, Len(s), LAMBDA k : Ch(s, k) \notin Digits) IN IF e = 0 THEN Len(s) + 1 ELSE e
JNum(s, i0) ==
    LET i == IF Ch(s, i0) = "-" THEN i0 + 1 ELSE i0
        a == JDig(s, i)
        f == IF a <= Len(s) /\ Ch(s, a) = "." THEN JDig(s, a + 1) ELSE a
        x0 == IF f <= Len(s) /\ Ch(s, f) \in {"e", "E"} THEN f + 1 ELSE 0
        x == IF x0 # 0 /\ x0 <= Len(s) /\ Ch(s, x0) \in {"+", "-"} THEN x0 + 1 ELSE x0
        z == IF x = 0 THEN f ELSE JDig(s, x) IN
    IF a = i \/ (Ch(s, i) = "0" /\ a > i + 1) \/ (f # a /\ f = a + 1) \/ (x # 0 /\ z = x) THEN 0 ELSE z
RECURSIVE JVal(_, _)
RECURSIVE JObj(_, _, _)
RECURSIVE JArr(_, _, _)
JVal(s, i0) ==
    LET i == JSkip(s, i0) IN
    IF i > Len(s) THEN <<>>
    ELSE LET c == Ch(s, i) IN
    IF c = DQ THEN LET r == JStr(s, i + 1, "") IN IF r = <<>> THEN <<>> ELSE <<[t |-> "s", v |-> r[1]], r[2]>>
    ELSE IF c = "{" THEN LET j == JSkip(s, i + 1) IN
        IF j <= Len(s) /\ Ch(s, j) = "}" THEN <<[t |-> "o", v |-> <<>>], j + 1>> ELSE JObj(s, j, <<>>)
    ELSE IF c = "[" THEN LET j == JSkip(s, i + 1) IN
        IF j <= Len(s) /\ Ch(s, j) = "]" THEN <<[t |-> "a", v |-> <<>>], j + 1>> ELSE JArr(s, j, <<>>)
    ELSE IF StartsWith(From(s, i), "null") THEN <<[t |-> "x", v |-> "null"], i + 4>>
    ELSE IF StartsWith(From(s, i), "true") THEN <<[t |-> "x", v |-> "true"], i + 4>>
    ELSE IF StartsWith(From(s, i), "false") THEN <<[t |-> "x", v |-> "false"], i + 5>>
    ELSE IF c = "-" \/ c \in Digits THEN
        (LET z == JNum(s, i) IN IF z = 0 THEN <<>> ELSE <<[t |-> "x", v |-> SubSeq(s, i, z - 1)], z>>)
    ELSE <<>>
JObj(s, i0, acc) ==                                 \* at a key
    LET i == JSkip(s, i0) IN
    IF i > Len(s) \/ Ch(s, IF i > Len(s) THEN 1 ELSE i) # DQ THEN <<>>
    ELSE LET q == JStr(s, i + 1, "") IN
    IF q = <<>> THEN <<>>
    ELSE LET j == JSkip(s, q[2]) IN
    IF j > Len(s) \/ Ch(s, IF j > Len(s) THEN 1 ELSE j) # ":" THEN <<>>
    ELSE LET v == JVal(s, j + 1) IN
    IF v = <<>> THEN <<>>
    ELSE LET l == JSkip(s, v[2])
             al == Append(acc, <<q[1], v[1]>>) IN
    IF l > Len(s) THEN <<>>
    ELSE IF Ch(s, l) = "}" THEN <<[t |-> "o", v |-> al], l + 1>>
    ELSE IF Ch(s, l) = "," THEN JObj(s, l + 1, al) ELSE <<>>
JArr(s, i0, acc) ==
    LET v == JVal(s, i0) IN
    IF v = <<>> THEN <<>>
    ELSE LET l == JSkip(s, v[2])
             sq == Append(acc, v[1]) IN
    IF l > Len(s) THEN <<>>
    ELSE IF Ch(s, l) = "]" THEN <<[t |-> "a", v |-> sq], l + 1>>
    ELSE IF Ch(s, l) = "," THEN JArr(s, l + 1, sq) ELSE <<>>
\* <<>> on a syntax error, else <<value>>
JParse(s) == LET r == JVal(s, 1) IN IF r = <<>> THEN <<>> ELSE IF JSkip(s, r[2]) <= Len(s) THEN <<>> ELSE <<r[1]>>
\* the last entry of a key wins
JGet(al, k) == LET i == LastIdx(1, Len(al), LAMBDA j : al[j][1] = k) IN IF i = 0 THEN <<>> ELSE <<al[i][2]>>
RECURSIVE JPtr(_, _)
JPtr(v, toks) ==
    IF toks = <<>> THEN <<v>>
    ELSE LET t == ReplaceN(ReplaceN(Head(toks), "~1", "/", -1), "~0", "~", -1)
             n == IF v.t = "o" THEN JGet(v.v, t)
                  ELSE IF v.t = "a" /\ t # "" /\ AllIn(t, Digits) /\ Len(t) < 6 /\ (Ch(t, 1) # "0" \/ Len(t) = 1) /\ DecVal(t) < Len(v.v)
                  THEN <<v.v[DecVal(t) + 1]>> ELSE <<>> IN
         IF n = <<>> THEN <<>> ELSE JPtr(n[1], Tail(toks))
JPointer(v, p) == IF p = "" THEN <<v>> ELSE IF Ch(p, 1) # "/" THEN <<>> ELSE JPtr(v, Tail(Split(p, "/")))

(* ------------------------------ network -------------------------------- *)
\* h: the client's settings; the reply to a request is a function of its URL (E.net)
LogC(c, x) == [c EXCEPT !.log = Append(@, x)]
HDiff(h, d) ==       \* an HttpClientConfigDiff applied to the settings
    LET a == IF d.redirect_policy = <<>> THEN h ELSE [h EXCEPT !.redir = IF d.redirect_policy[1].k = "None" THEN -1 ELSE d.redirect_policy[1].x]
        b == IF d.https_only = <<>> THEN a ELSE [a EXCEPT !.https_only = d.https_only[1]]
        e == IF d.no_proxy = <<>> THEN b ELSE [b EXCEPT !.no_proxy = d.no_proxy[1]]
        f == IF d.referer = <<>> THEN e ELSE [e EXCEPT !.referer = d.referer[1]]
        g == [f EXCEPT !.headers = FoldLeft(LAMBDA al, p : PutAl(al, LowerAscii(p[1]), p[2]), @, d.add_default_headers),
                         !.proxies = (IF d.set_proxies = <<>> THEN @ ELSE d.set_proxies[1]) \o d.add_proxies,
                         !.certs = SelectSeq(@ \o SelectSeq(d.add_extra_certificates, LAMBDA x : x \notin RangeOf(h.certs)), LAMBDA x : x \notin RangeOf(d.remove_extra_certificates))] IN g
NoFrag(u) == Serialize([u EXCEPT !.frag = <<>>])
\* the n-th request to a URL gets the n-th of its answers, later ones the last
ReplyOf(net, u, c) == LET r == LookupAl(net, NoFrag(u))
                          n == Cardinality({i \in 1..Len(c.log) : c.log[i].u = NoFrag(u)}) + 1 IN
    IF r = <<>> THEN [status |-> 404, loc |-> <<>>, hdrs |-> <<>>, cookie |-> <<>>, body |-> "nf", fault |-> ""] ELSE r[1][IF n > Len(r[1]) THEN Len(r[1]) ELSE n]
IsRedir(n) == n \in {301, 302, 303, 307, 308}
RefererOf(u) == Serialize([u EXCEPT !.frag = <<>>, !.user = "", !.pass = ""])
BasicAuth(user, pass) == "Basic " \o B64Enc(user \o ":" \o pass, B64Std, TRUE)
\* what a proxy is: its server, the authorization it is given
ProxyOf(p) == LET u == ParseUrl(p.url) IN
    IF p.auth = <<>> /\ p.url \in {"http://127.0.0.1:50001", "http://127.0.0.1:50002"} THEN [k |-> "ok", w |-> IF p.url = "http://127.0.0.1:50001" THEN "1" ELSE "2", auth |-> <<>>]    \* (only saves work)
    ELSE IF u.k # "ok" THEN [k |-> "out"]
    ELSE IF u.v.scheme \notin {"http", "https", "socks4", "socks4a", "socks5", "socks5h"} THEN [k |-> "err"]
    ELSE IF u.v.scheme # "http" \/ ~IsUtf8(PctDec(u.v.user)) \/ ~IsUtf8(PctDec(u.v.pass)) THEN [k |-> "out"]
    ELSE [k |-> "ok", w |-> CASE Serialize([u.v EXCEPT !.user = "", !.pass = "", !.path = "/", !.query = <<>>, !.frag = <<>>]) = "http://127.0.0.1:50001/" -> "1"
                              [] Serialize([u.v EXCEPT !.user = "", !.pass = "", !.path = "/", !.query = <<>>, !.frag = <<>>]) = "http://127.0.0.1:50002/" -> "2"
                              [] OTHER -> "out",
          auth |-> IF p.auth # <<>> THEN (IF p.auth[1].k = "Custom" THEN <<p.auth[1].x>> ELSE <<BasicAuth(p.auth[1].username, p.auth[1].password)>>)
                   ELSE IF u.v.pass # "" THEN <<BasicAuth(PctDec(u.v.user), PctDec(u.v.pass))>> ELSE <<>>]
\* how a request of that scheme travels: through a proxy, or straight to the host
PlanOf(h, scheme) == LET ps == IF h.no_proxy THEN <<>> ELSE SelectSeq(h.proxies, LAMBDA p : p.mode = "All" \/ (p.mode = "Http" /\ scheme = "http") \/ (p.mode = "Https" /\ scheme = "https")) IN
    IF ps = <<>> THEN [w |-> "direct", auth |-> <<>>] ELSE LET p == ProxyOf(ps[1]) IN IF p.k = "out" THEN [w |-> "out", auth |-> <<>>] ELSE [w |-> p.w, auth |-> p.auth]
\* can the client be made at all
ClientOf(h) == LET k == {ProxyOf(h.proxies[i]).k : i \in 1..Len(h.proxies)} IN
    IF h.certs # <<>> \/ "err" \in k THEN "err" ELSE IF "out" \in k THEN "out" ELSE "ok"
Sensitive == {"authorization", "cookie", "cookie2", "proxy-authorization", "www-authenticate"}
DropHs(hs, S) == SelectSeq(hs, LAMBDA p : p[1] \notin S)
OptHost(u) == [h |-> u.host, p |-> IF u.port # <<>> THEN u.port ELSE <<IF u.scheme = "https" THEN 443 ELSE 80>>]
HostPort(u) == (IF u.host = <<>> THEN "" ELSE u.host[1].s) \o ":" \o Num(OptHost(u).p[1])
DirectTo(u) == LET hp == HostPort(u) IN IF hp = "127.0.0.1:50001" THEN "d1" ELSE IF hp = "127.0.0.1:50002" THEN "d2" ELSE "out"
PlainHost(h) == h = <<>> \/ AllIn(h[1].s, CharsIn(97, 122) \cup CharsIn(48, 57) \cup {".", "-", "_", ":", "[", "]"})
\* ok [status, .., url] / err / out
RECURSIVE Hop(_, _, _, _, _, _, _, _)
Hop(net, h, m, u, hdrs, body, hops, c) ==
    LET plan == PlanOf(h, u.scheme)
        w == IF plan.w = "direct" THEN DirectTo(u) ELSE plan.w IN
    IF u.scheme \notin {"http", "https"} THEN Err(<<"ReqwestError">>, c)
    ELSE IF h.https_only /\ u.scheme # "https" THEN Err(<<"ReqwestError">>, c)
    ELSE IF w = "out" \/ u.user # "" \/ u.pass # "" \/ ~PlainHost(u.host) THEN OutR
    ELSE IF u.scheme = "https" THEN     \* the environment's proxies refuse tunnels
         (IF plan.w = "direct" THEN OutR
          ELSE Err(<<"ReqwestError">>, LogC(c, [w |-> w, m |-> "CONNECT", u |-> HostPort(u), b |-> "",
               h |-> (IF plan.auth = <<>> THEN <<>> ELSE <<<<"proxy-authorization", plan.auth[1]>>>>) \o SelectSeq(h.headers, LAMBDA p : LowerAscii(p[1]) = "user-agent")])))
    ELSE LET c2 == LogC(c, [w |-> w, m |-> m, u |-> NoFrag(u), h |-> hdrs, b |-> body])
             r == ReplyOf(net, u, c)
             res == Ok([status |-> r.status, loc |-> r.loc, hdrs |-> r.hdrs, cookie |-> r.cookie, body |-> IF m = "HEAD" \/ r.status \in {204, 304} THEN "" ELSE r.body, url |-> u], c2) IN
         IF r.fault # "" THEN Err(<<"ReqwestError">>, c2)
         ELSE IF ~IsRedir(r.status) \/ r.loc = <<>> \/ h.redir = -1 THEN res
         ELSE LET t == Join(u, r.loc[1])
                  keep == r.status \in {307, 308} IN
              IF t.k = "out" THEN OutR
              ELSE IF t.k = "err" THEN res
              ELSE IF t.v.host = <<>> THEN OutR
              ELSE IF hops + 1 >= h.redir THEN Err(<<"ReqwestError">>, c2)
              ELSE LET a == IF keep THEN hdrs ELSE DropHs(hdrs, {"transfer-encoding", "content-encoding", "content-type", "content-length"})
                       b == IF h.referer THEN PutAl(a, "referer", RefererOf(u)) ELSE a
                       d == IF OptHost(t.v) # OptHost(u) THEN DropHs(b, Sensitive) ELSE b IN
                   Hop(net, h, IF keep \/ m \in {"GET", "HEAD"} THEN m ELSE "GET", t.v, d, IF keep THEN body ELSE "", hops + 1, c2)
\* own: headers of the request itself; replace: they replace one made from the URL's credentials
Fetch(net, h, m, u, hdrs, body, replace, c) ==
    LET user == PctDec(u.user) pass == PctDec(u.pass)
        cred == u.user # "" \/ u.pass # ""
        u1 == [u EXCEPT !.user = "", !.pass = ""]
        h1 == IF ~cred \/ (replace /\ "authorization" \in Keys(hdrs)) THEN hdrs ELSE PutAl(hdrs, "authorization", BasicAuth(user, IF IsUtf8(pass) THEN pass ELSE ""))
        h2 == FoldLeft(LAMBDA al, p : IF p[1] \in Keys(al) THEN al ELSE PutAl(al, p[1], p[2]), h1, h.headers)
        a == IF u.scheme = "http" THEN PlanOf(h, "http").auth ELSE <<>>
        h3 == IF a = <<>> \/ "proxy-authorization" \in Keys(h2) THEN h2 ELSE PutAl(h2, "proxy-authorization", a[1]) IN
    IF cred /\ ~IsUtf8(user) THEN OutR
    ELSE IF cred /\ ~replace /\ "authorization" \in Keys(hdrs) THEN OutR
    ELSE Hop(net, h, m, u1, h3, body, 0, c)
VisAscii == CharsIn(32, 126)

(* ---------------------------- the evaluators --------------------------- *)
RECURSIVE Src(_, _, _)
RECURSIVE Mod(_, _, _, _)
RECURSIVE Mat(_, _, _, _)
RECURSIVE Cond(_, _, _)
RECURSIVE Mapper(_, _, _)
RECURSIVE Rule(_, _, _)
RECURSIVE Rules(_, _, _)

\* a source that must not be None; p: prefix of the source's own errors, q: of the None error
GetP(n, E, c, p, q) == LET r == W(p, Src(n, E, c)) IN
    IF r.k # "ok" THEN r ELSE IF r.v = <<>> THEN Err(q \o <<"StringSourceIsNone">>, r.c) ELSE Ok(r.v[1], r.c)
SSE == <<"StringSourceError">>
Get(n, E, c) == GetP(n, E, c, SSE, <<>>)       \* inside everything but a source
GetS(n, E, c) == GetP(n, E, c, <<>>, <<>>)     \* inside a source
W1(r) == W(SSE, r)

(* cache *)
CRead(c, cat, key) == LookupAl(c.cache, <<cat, key>>)
CWrite(c, cat, key, v) == [c EXCEPT !.cache = PutAl(@, <<cat, key>>, v)]

(* common calls *)
RECURSIVE ArgVars(_, _, _, _)
ArgVars(vs, E, c, acc) ==
    IF vs = <<>> THEN Ok(acc, c)
    ELSE Bind(GetP(Head(vs)[2], E, c, <<"CommonCallArgsError", "StringSourceError">>, <<"CommonCallArgsError", "StringSourceError">>),
              LAMBDA v, c1 : ArgVars(Tail(vs), E, c1, Append(acc, <<Head(vs)[1], v>>)))
CallArgs(args, E, c) ==
    LET r == ArgVars(args.vars, E, c, <<>>) IN
    IF Len(args.vars) > 1 /\ (r.k = "out" \/ r.c # c) THEN OutR        \* the order of evaluation is not specified
    ELSE IF Len(args.vars) > 1 /\ r.k = "err" THEN Err(<<"CommonCallArgsError", "StringSourceError">>, r.c)
    ELSE Bind(r, LAMBDA vs, c1 : Ok([flags |-> args.flags, vars |-> vs], c1))
\* ok [n |-> the common node, E |-> the environment it runs in]
CallCommon(call, table, notfound, E, c, p, q) ==
    Bind(GetP(call.name, E, c, p, q), LAMBDA name, c1 :
        LET d == LookupAl(table, name) IN
        IF d = <<>> THEN Err(<<notfound>>, c1)
        ELSE Bind(CallArgs(call.args, E, c1), LAMBDA a, c2 : Ok([n |-> d[1], E |-> [E EXCEPT !.ca = <<a>>]], c2)))

(* flags and variables *)
FlagGet(f, E, c) ==
    LET r == GetP(f.name, E, c, SSE, <<>>) IN
    W(<<"GetFlagError">>, Bind(r, LAMBDA name, c1 :
        CASE f.type = "Params" -> Ok(name \in RangeOf(E.params.flags), c1)
          [] f.type = "Common" -> IF E.ca = <<>> THEN Err(<<"NotInCommonContext">>, c1) ELSE Ok(name \in RangeOf(E.ca[1].flags), c1)
          [] f.type = "Scratchpad" -> Ok(name \in E.sp.flags, c1)))
VarGet(f, E, c) ==
    LET r == GetP(f.name, E, c, SSE, <<>>) IN
    W(<<"GetVarError">>, Bind(r, LAMBDA name, c1 :
        CASE f.type = "Params" -> Ok(LookupAl(E.params.vars, name), c1)
          [] f.type = "JobContext" -> Ok(LookupAl(E.jctx, name), c1)
          [] f.type = "TaskContext" -> Ok(LookupAl(E.ctx, name), c1)
          [] f.type = "Common" -> IF E.ca = <<>> THEN Err(<<"NotInCommonContext">>, c1) ELSE Ok(LookupAl(E.ca[1].vars, name), c1)
          [] f.type = "Scratchpad" -> Ok(LookupAl(E.sp.vars, name), c1)
          [] f.type = "Env" -> IF name = "UCV_BAD" THEN Err(<<"EnvVarIsNotUtf8">>, c1) ELSE Ok(LookupAl(E.env, name), c1)))

(* external commands: only those whose behaviour is written here *)
\* the program /ucv/probe: what it writes to its STDOUT (harness/src/bin/uc-probe.rs)
RECURSIVE ProbeOut(_, _, _, _, _)
ProbeOut(as, env, dir, rest, out) ==
    IF as = <<>> THEN out
    ELSE LET a == Head(as)
             go(r, o) == ProbeOut(Tail(as), env, dir, r, out \o o) IN
         CASE a = "d" -> go(rest, dir)                         \* its working directory
           [] a = "i" -> go("", rest)                          \* everything on its STDIN
           [] a = "b" -> go(rest, Chr(255))                    \* something that is not text
           [] a = "k" \/ StartsWith(a, "x:") -> out            \* ends there, by a signal or with a status
           [] StartsWith(a, "o:") -> go(rest, From(a, 3))
           [] StartsWith(a, "s:") -> go(rest, "")              \* to its STDERR
           [] StartsWith(a, "e:") -> go(rest, LET v == LookupAl(env, From(a, 3)) IN IF v = <<>> THEN "~" ELSE v[1])
           [] OTHER -> go(rest, "[" \o a \o "]")
RECURSIVE EnvList(_, _, _, _)
EnvList(ns, E, c, acc) ==
    IF ns = <<>> THEN Ok(acc, c)
    ELSE Bind(W(<<"CommandError", "StringSourceError">>, Src(Head(ns)[2], E, c)), LAMBDA v, c1 :
        EnvList(Tail(ns), E, c1, IF v = <<>> THEN acc ELSE PutAl(acc, Head(ns)[1], v[1])))
RECURSIVE ArgList(_, _, _, _)
ArgList(ns, E, c, acc) ==
    IF ns = <<>> THEN Ok(acc, c)
    ELSE Bind(GetP(Head(ns), E, c, <<"CommandError", "StringSourceError">>, <<"CommandError">>), LAMBDA v, c1 : ArgList(Tail(ns), E, c1, Append(acc, v)))
\* entries of a table, which has no order: what evaluating one of them does must not matter to the others
Unordered(ns, r, c) == IF Len(ns) < 2 THEN r ELSE IF r.k # "ok" \/ r.c # c THEN OutR ELSE r
ProbeDirs == {"/", "/usr", "/usr/bin"}
CommandIO == <<"CommandError", "IoError">>
Probed(n, E, c) ==
    Bind(ArgList(n.args, E, c, <<>>), LAMBDA as, c1 :
    Bind(Unordered(n.envs, EnvList(n.envs, E, c1, <<>>), c1), LAMBDA set, c2 :
        LET env == FoldLeft(LAMBDA al, kv : PutAl(al, kv[1], kv[2]), Append(E.env, <<"UCV_BAD", Chr(255) \o Chr(254)>>), set)
            dir == IF n.current_dir = <<>> THEN "" ELSE n.current_dir[1] IN
        CASE \/ \E i \in 1..Len(as) : as[i] \in {"r", "w", "q"} \/ (as[i] = "d" /\ n.current_dir = <<>>) \/ (StartsWith(as[i], "e:") /\ ~StartsWith(as[i], "e:UCV_"))
             \/ \E i \in 1..Len(n.envs) : ~StartsWith(n.envs[i][1], "UCV_") \/ HasStr(n.envs[i][1], "=") \/ HasStr(n.envs[i][1], Chr(0))
             \/ n.current_dir # <<>> /\ dir \notin ProbeDirs \cup {"/nonexistent"} -> OutR
          [] (\E i \in 1..Len(as) : HasStr(as[i], Chr(0))) \/ (\E i \in 1..Len(set) : HasStr(set[i][2], Chr(0))) \/ dir = "/nonexistent" -> Err(CommandIO, c2)
          [] OTHER -> Bind(IF n.stdin = <<>> THEN Ok("", c2) ELSE GetP(n.stdin[1], E, c2, <<"CommandError", "StringSourceError">>, <<"CommandError">>), LAMBDA text, c3 :
                LET out == ProbeOut(as, env, dir, text, "") IN IF Utf8OK(out, 1) THEN Ok(<<out>>, c3) ELSE Err(<<"CommandError", "Utf8Error">>, c3))))
Command(n, E, c) ==
    IF n.program = "/ucv/probe" THEN Probed(n, E, c)
    ELSE IF n.envs # <<>> \/ n.current_dir # <<>> THEN OutR
    ELSE Bind(ArgList(n.args, E, c, <<>>), LAMBDA as, c1 :
        IF \E i \in 1..Len(as) : HasStr(as[i], Chr(0)) THEN OutR
        ELSE CASE n.program = "printf" ->
                    IF as = <<>> \/ n.stdin # <<>> THEN OutR
                    ELSE IF as[1] # "%s|" THEN OutR
                    ELSE Ok(<<IF Len(as) = 1 THEN "|" ELSE Cat([i \in 1..(Len(as) - 1) |-> as[i + 1] \o "|"])>>, c1)
               [] n.program = "cat" ->
                    IF as # <<>> \/ n.stdin = <<>> THEN OutR
                    ELSE Bind(GetP(n.stdin[1], E, c1, <<"CommandError", "StringSourceError">>, <<"CommandError">>), LAMBDA v, c2 : Ok(<<v>>, c2))
               [] n.program = "/nonexistent/program" -> Err(<<"CommandError", "IoError">>, c1)
               [] OTHER -> OutR)

(* HTTP requests *)
RECURSIVE HdrList(_, _, _, _)
HdrList(ns, E, c, acc) ==
    IF ns = <<>> THEN Ok(acc, c)
    ELSE Bind(W(<<"StringSourceError">>, Src(Head(ns)[2], E, c)), LAMBDA v, c1 :
         IF v = <<>> THEN HdrList(Tail(ns), E, c1, acc)
         ELSE IF ~AllIn(v[1], VisAscii) \/ TrimBoth(v[1], {" "}) # v[1] \/ v[1] = "" THEN OutR
         ELSE HdrList(Tail(ns), E, c1, PutAl(acc, LowerAscii(Head(ns)[1]), v[1])))
RECURSIVE FormList(_, _, _, _)
FormList(ns, E, c, acc) ==
    IF ns = <<>> THEN Ok(acc, c)
    ELSE Bind(Src(Head(ns)[2], E, c), LAMBDA v, c1 : FormList(Tail(ns), E, c1, IF v = <<>> THEN acc ELSE Append(acc, FormSer(Head(ns)[1]) \o "=" \o FormSer(v[1]))))
RECURSIVE JBody(_, _, _)
RECURSIVE JBodyArr(_, _, _, _)
JsonStr(s) == DQ \o MapChars(s, LAMBDA x : IF x = DQ THEN BS \o DQ ELSE IF x = BS THEN BS \o BS ELSE x) \o DQ
JBody(n, E, c) ==           \* ok text
    CASE n.k = "Null" -> Ok("null", c)
      [] n.k = "Bool" -> Ok(IF n.x THEN "true" ELSE "false", c)
      [] n.k = "Number" -> Ok(Num(n.x), c)
      [] n.k = "String" -> Bind(GetP(n.x, E, c, <<>>, <<>>), LAMBDA v, c1 : IF AnyIn(v, CharsIn(0, 31)) THEN OutR ELSE Ok(JsonStr(v), c1))
      [] n.k = "Array" -> Bind(JBodyArr(n.x, E, c, <<>>), LAMBDA vs, c1 : Ok("[" \o JoinS(vs, ",") \o "]", c1))
      [] n.k = "Object" -> IF Len(n.x) > 1 THEN OutR
                           ELSE IF n.x = <<>> THEN Ok("{}", c)
                           ELSE Bind(JBody(n.x[1][2], E, c), LAMBDA v, c1 : Ok("{" \o JsonStr(n.x[1][1]) \o ":" \o v \o "}", c1))
JBodyArr(ns, E, c, acc) ==
    IF ns = <<>> THEN Ok(acc, c)
    ELSE Bind(JBody(Head(ns), E, c), LAMBDA v, c1 : JBodyArr(Tail(ns), E, c1, Append(acc, v)))
Http(n, E, c) ==            \* an HttpRequest source
    LET P == <<"HttpResponseError", "SendHttpRequestError", "MakeHttpRequestError">>
        B == P \o <<"RequestBodyError">>
        h == IF n.client_config_diff = <<>> THEN E.http ELSE HDiff(E.http, n.client_config_diff[1])
        url == GetP(n.url, E, c, P \o SSE, P) IN
    IF ClientOf(h) = "err" THEN Err(P \o <<"ReqwestError">>, c)
    ELSE IF ClientOf(h) = "out" THEN OutR
    ELSE Bind(url, LAMBDA us, c1 :
      LET u == ParseUrl(us) IN
      IF u.k = "out" THEN OutR
      ELSE IF u.k = "err" THEN Err(P \o <<"UrlParseError">>, c1)
      ELSE Bind(W(P, Unordered(n.headers, HdrList(n.headers, E, c1, <<>>), c1)), LAMBDA hs, c2 :
        LET bd == IF n.body = <<>> THEN Ok([b |-> "", t |-> <<>>], c2)
                  ELSE CASE n.body[1].k = "Text" -> Bind(GetP(n.body[1].x, E, c2, B \o SSE, B), LAMBDA v, c3 : Ok([b |-> v, t |-> <<>>], c3))
                         [] n.body[1].k = "Form" ->
                              Bind(W(B \o SSE, Unordered(n.body[1].x, FormList(n.body[1].x, E, c2, <<>>), c2)), LAMBDA v, c3 :
                                   Ok([b |-> JoinS(v, "&"), t |-> <<"application/x-www-form-urlencoded">>], c3))
                         [] n.body[1].k = "Json" -> Bind(W(B \o SSE, JBody(n.body[1].x, E, c2)), LAMBDA v, c3 : Ok([b |-> v, t |-> <<"application/json">>], c3)) IN
        Bind(bd, LAMBDA b, c4 :
          LET hh == IF b.t = <<>> THEN hs ELSE PutAl(hs, "content-type", b.t[1]) IN
          IF b.t # <<>> /\ ("content-type" \in Keys(hs) \/ "content-type" \in Keys(h.headers)) THEN OutR
          ELSE Bind(W(<<"HttpResponseError", "SendHttpRequestError">>, Fetch(E.net, h, n.method, u.v, hh, b.b, FALSE, c4)), LAMBDA r, c5 :
            LET RH == <<"HttpResponseError", "ResponseHandlerError">>
                rh == n.response_handler IN
            CASE rh.k = "Body" -> Ok(<<r.body>>, c5)
              [] rh.k = "Url" -> Ok(<<Serialize(r.url)>>, c5)
              [] rh.k = "Header" -> Bind(GetP(rh.x, E, c5, RH \o SSE, RH), LAMBDA name, c6 :
                    LET v == LookupAl(r.hdrs, LowerAscii(name)) IN
                    IF LowerAscii(name) = "location" THEN (IF r.loc = <<>> THEN Err(RH \o <<"HeaderNotFound">>, c6) ELSE Ok(<<r.loc[1]>>, c6))
                    ELSE IF v = <<>> /\ LowerAscii(name) \in {"date", "server", "content-length", "connection", "content-type", "set-cookie"} THEN OutR
                    ELSE IF v = <<>> THEN Err(RH \o <<"HeaderNotFound">>, c6) ELSE Ok(v, c6))
              [] rh.k = "Cookie" -> Bind(GetP(rh.x, E, c5, RH \o SSE, RH), LAMBDA name, c6 :
                    LET v == LookupAl(r.cookie, name) IN
                    IF v = <<>> THEN Err(RH \o <<"CookieNotFound">>, c6) ELSE Ok(v, c6))))))

(* ------------------------------ sources -------------------------------- *)
RECURSIVE SrcJoin(_, _, _, _, _)
SrcJoin(ns, sep, E, c, acc) ==
    IF ns = <<>> THEN Ok(<<JoinS(acc, sep)>>, c)
    ELSE Bind(Src(Head(ns), E, c), LAMBDA v, c1 : IF v = <<>> THEN Ok(<<>>, c1) ELSE SrcJoin(Tail(ns), sep, E, c1, Append(acc, v[1])))
\* str::split_once twice
Between(s, a, b) ==        \* ok text / err
    LET x == SplitOnce(s, a) IN
    IF x = <<>> THEN UErr(<<"ExtractBetweenStartNotFound">>)
    ELSE LET y == SplitOnce(x[2], b) IN IF y = <<>> THEN UErr(<<"ExtractBetweenEndNotFound">>) ELSE UOk(y[1])
Src(n, E, c) ==
    CASE n.k = "String" -> Ok(<<n.x>>, c)
      [] n.k = "None" -> Ok(<<>>, c)
      [] n.k = "Error" -> Err(<<"ExplicitError">>, c)
      [] n.k = "Debug" -> Src(n.x, E, c)
      [] n.k = "ErrorToNone" -> LET r == Src(n.x, E, c) IN IF r.k = "err" THEN Ok(<<>>, r.c) ELSE r
      [] n.k = "ErrorToEmptyString" -> LET r == Src(n.x, E, c) IN IF r.k = "err" THEN Ok(<<"">>, r.c) ELSE r
      [] n.k = "TryElse" -> LET r == Src(n.try, E, c) IN IF r.k = "err" THEN Src(n.else, E, r.c) ELSE r
      [] n.k = "NoneToEmptyString" -> Bind(Src(n.x, E, c), LAMBDA v, c1 : Ok(IF v = <<>> THEN <<"">> ELSE v, c1))
      [] n.k = "NoneTo" -> Bind(Src(n.value, E, c), LAMBDA v, c1 : IF v = <<>> THEN Src(n.if_none, E, c1) ELSE Ok(v, c1))
      [] n.k = "Join" -> SrcJoin(n.sources, n.join, E, c, <<>>)
      [] n.k = "IfFlag" -> Bind(FlagGet(n.flag, E, c), LAMBDA b, c1 : Src(IF b THEN n.then ELSE n.else, E, c1))
      [] n.k = "IfStringMatches" -> Bind(GetS(n.value, E, c), LAMBDA v, c1 :
            Bind(W(<<"StringMatcherError">>, Mat(n.matcher, v, E, c1)), LAMBDA b, c2 : Src(IF b THEN n.then ELSE n.else, E, c2)))
      [] n.k = "IfStringIsNone" -> Bind(Src(n.value, E, c), LAMBDA v, c1 : Src(IF v = <<>> THEN n.then ELSE n.else, E, c1))
      [] n.k = "Map" -> Bind(Src(n.value, E, c), LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN IF x = <<>> THEN Err(<<"StringNotInMap">>, c1) ELSE Src(x[1], E, c1))
      [] n.k = "Part" -> Lift(PGet(n.x, E.url), <<>>, c)
      [] n.k = "ExtractPart" -> Bind(Src(n.value, E, c), LAMBDA v, c1 :
            IF v = <<>> THEN Ok(<<>>, c1)
            ELSE Bind(Lift(ParseUrl(v[1]), <<"UrlParseError">>, c1), LAMBDA u, c2 : Lift(PGet(n.part, u), <<>>, c2)))
      [] n.k = "Var" -> VarGet(n.x, E, c)
      [] n.k = "ParamsMap" -> Bind(GetS(n.name, E, c), LAMBDA nm, c1 :
            LET m == LookupAl(E.params.maps, nm) IN
            IF m = <<>> THEN Err(<<"MapNotFound">>, c1)
            ELSE Bind(Src(n.key, E, c1), LAMBDA key, c2 : Ok(MapGet(m[1], key), c2)))
      [] n.k = "ParamsNamedPartitioning" -> Bind(GetS(n.name, E, c), LAMBDA nm, c1 :
            LET m == LookupAl(E.params.np, nm) IN
            IF m = <<>> THEN Err(<<"NamedPartitioningNotFound">>, c1)
            ELSE Bind(GetS(n.element, E, c1), LAMBDA el, c2 :
                LET i == FirstIdx(1, Len(m[1]), LAMBDA j : el \in RangeOf(m[1][j][2])) IN
                Ok(IF i = 0 THEN <<>> ELSE <<m[1][i][1]>>, c2)))
      [] n.k = "Modified" -> Bind(Src(n.value, E, c), LAMBDA v, c1 :
            IF v = <<>> THEN Ok(<<>>, c1)
            ELSE Bind(W(<<"StringModificationError">>, Mod(n.modification, v[1], E, c1)), LAMBDA s, c2 : Ok(<<s>>, c2)))
      [] n.k = "HttpRequest" -> Http(n.x, E, c)
      [] n.k = "CommandOutput" -> Command(n.x, E, c)
      [] n.k = "Cache" -> Bind(GetS(n.category, E, c), LAMBDA cat, c1 :
            Bind(GetS(n.key, E, c1), LAMBDA key, c2 :
                IF E.params.read_cache /\ CRead(c2, cat, key) # <<>> THEN Ok(CRead(c2, cat, key)[1], c2)
                ELSE Bind(Src(n.value, E, c2), LAMBDA v, c3 : Ok(v, IF E.params.write_cache THEN CWrite(c3, cat, key, v) ELSE c3))))
      [] n.k = "ExtractBetween" -> Bind(GetS(n.value, E, c), LAMBDA v, c1 :
            Bind(GetS(n.start, E, c1), LAMBDA a, c2 :
                LET x == SplitOnce(v, a) IN
                IF x = <<>> THEN Err(<<"ExtractBetweenStartNotFound">>, c2)
                ELSE Bind(GetS(n.end, E, c2), LAMBDA b, c3 :
                    LET y == SplitOnce(x[2], b) IN
                    IF y = <<>> THEN Err(<<"ExtractBetweenEndNotFound">>, c3) ELSE Ok(<<y[1]>>, c3))))
      [] n.k = "RegexFind" -> Bind(Src(n.value, E, c), LAMBDA v, c1 :
            IF v = <<>> THEN Ok(<<>>, c1)
            ELSE IF n.regex.bad THEN Err(<<"RegexError">>, c1)
            ELSE IF ~RxOK(n.regex.rx, v[1]) THEN OutR
            ELSE LET m == RxFrom(n.regex.rx[1], v[1], 1) IN Ok(IF m = <<>> THEN <<>> ELSE <<RxText(v[1], m)>>, c1))
      [] n.k = "Common" -> Bind(CallCommon(n.x, E.commons.string_sources, "CommonStringSourceNotFound", E, c, <<>>, <<>>), LAMBDA d, c1 : Src(d.n, d.E, c1))

(* --------------------------- modifications ----------------------------- *)
\* evaluate a source for a modification of s; on error s stays as it is
MGet(n, s, E, c, F(_, _)) == LET r == Get(n, E, c) IN IF r.k = "ok" THEN F(r.v, r.c) ELSE Keep(r, s)
MErr(e, s, c) == ErrV(<<e>>, s, c)
RECURSIVE ModSeq(_, _, _, _, _)
ModSeq(m, ns, s, E, c) ==
    IF ns = <<>> THEN Ok(s, c)
    ELSE LET r == Mod(Head(ns), s, E, c) IN
         IF m = "all" THEN (IF r.k = "ok" THEN ModSeq(m, Tail(ns), r.v, E, r.c) ELSE r)
         ELSE IF r.k = "err" /\ Len(ns) > 1 THEN ModSeq(m, Tail(ns), r.v, E, r.c) ELSE r
\* the pieces of a query-like string whose name satisfies (keep) or does not satisfy the matcher
RECURSIVE ModQP(_, _, _, _, _, _)
ModQP(keep, mt, ps, E, c, acc) ==
    IF ps = <<>> THEN Ok(JoinS(acc, "&"), c)
    ELSE Bind(Mat(mt, Split(Head(ps), "=")[1], E, c), LAMBDA b, c1 :
         ModQP(keep, mt, Tail(ps), E, c1, IF b = keep THEN Append(acc, Head(ps)) ELSE acc))
JsComp == Alnums \cup {"-", "_", ".", "!", "~", "*", "'", "(", ")"}
EncKeep(a) == CASE a = "JsEncodeUriComponent" -> JsComp
                [] a = "JsEncodeUri" -> JsComp \cup {";", "/", "?", ":", "@", "&", "=", "+", "$", ",", "#"}
                [] a = "NonAlphanumeric" -> Alnums
AllBytes == CharsIn(0, 255)
RxDo(rx, s, c, F(_)) == IF rx.bad THEN MErr("RegexError", s, c)
                        ELSE IF ~RxOK(rx.rx, s) THEN OutR ELSE F(rx.rx[1])
Mod(n, s, E, c) ==
    CASE n.k = "None" -> Ok(s, c)
      [] n.k = "Error" -> MErr("ExplicitError", s, c)
      [] n.k = "Debug" -> Mod(n.x, s, E, c)
      [] n.k = "IgnoreError" -> LET r == Mod(n.x, s, E, c) IN IF r.k = "err" THEN Ok(r.v, r.c) ELSE r
      [] n.k = "RevertOnError" -> Keep(Mod(n.x, s, E, c), s)
      [] n.k = "TryElse" -> LET r == Mod(n.try, s, E, c) IN
            IF r.k # "err" THEN r
            ELSE LET q == Mod(n.else, r.v, E, r.c) IN IF q.k = "err" THEN ErrV(TE, q.v, q.c) ELSE q
      [] n.k = "All" -> ModSeq("all", n.x, s, E, c)
      [] n.k = "FirstNotError" -> ModSeq("first", n.x, s, E, c)
      [] n.k = "If" -> LET r == W(<<"ConditionError">>, Cond(n.condition, E, c)) IN
            IF r.k # "ok" THEN Keep(r, s)
            ELSE IF r.v THEN Mod(n.then, s, E, r.c) ELSE IF n.else = <<>> THEN Ok(s, r.c) ELSE Mod(n.else[1], s, E, r.c)
      [] n.k = "IfMatches" -> LET r == W(<<"StringMatcherError">>, Mat(n.matcher, s, E, c)) IN
            IF r.k # "ok" THEN Keep(r, s)
            ELSE IF r.v THEN Mod(n.then, s, E, r.c) ELSE IF n.else = <<>> THEN Ok(s, r.c) ELSE Mod(n.else[1], s, E, r.c)
      [] n.k = "Set" -> MGet(n.x, s, E, c, LAMBDA v, c1 : Ok(v, c1))
      [] n.k = "Append" -> MGet(n.x, s, E, c, LAMBDA v, c1 : Ok(s \o v, c1))
      [] n.k = "Prepend" -> MGet(n.x, s, E, c, LAMBDA v, c1 : Ok(v \o s, c1))
      [] n.k = "Replace" -> MGet(n.find, s, E, c, LAMBDA f, c1 : MGet(n.replace, s, E, c1, LAMBDA r, c2 : Ok(ReplaceN(s, f, r, -1), c2)))
      [] n.k = "Replacen" -> MGet(n.find, s, E, c, LAMBDA f, c1 : MGet(n.replace, s, E, c1, LAMBDA r, c2 :
            Ok(IF n.count = 0 THEN s ELSE ReplaceN(s, f, r, n.count), c2)))
      [] n.k = "ReplaceRange" ->
            LET g == NegRange(n.start, n.end, Len(s)) IN
            IF g = <<>> THEN MErr("InvalidSlice", s, c)
            ELSE IF Slice(s, g[1], g[2]) = <<>> THEN MErr("InvalidSlice", s, c)
            ELSE MGet(n.replace, s, E, c, LAMBDA v, c1 : Ok(Upto(s, g[1]) \o v \o From(s, g[2] + 1), c1))
      [] n.k = "Lowercase" -> IF IsAscii(s) THEN Ok(LowerAscii(s), c) ELSE OutR
      [] n.k = "Uppercase" -> IF IsAscii(s) THEN Ok(UpperAscii(s), c) ELSE OutR
      [] n.k = "StripPrefix" -> MGet(n.x, s, E, c, LAMBDA v, c1 : IF StartsWith(s, v) THEN Ok(From(s, Len(v) + 1), c1) ELSE MErr("PrefixNotFound", s, c1))
      [] n.k = "StripSuffix" -> MGet(n.x, s, E, c, LAMBDA v, c1 : IF EndsWith(s, v) THEN Ok(Upto(s, Len(s) - Len(v)), c1) ELSE MErr("SuffixNotFound", s, c1))
      [] n.k = "StripMaybePrefix" -> MGet(n.x, s, E, c, LAMBDA v, c1 : Ok(StripPrefixOr(s, v), c1))
      [] n.k = "StripMaybeSuffix" -> MGet(n.x, s, E, c, LAMBDA v, c1 : Ok(StripSuffixOr(s, v), c1))
      [] n.k = "Insert" ->
            LET i == NegIndex(n.index, Len(s)) IN
            IF i = -1 THEN MErr("InvalidIndex", s, c)
            ELSE IF ~IsBoundary(s, i) THEN MErr("InvalidIndex", s, c)
            ELSE MGet(n.value, s, E, c, LAMBDA v, c1 : Ok(Upto(s, i) \o v \o From(s, i + 1), c1))
      [] n.k = "RemoveChar" ->
            LET i == NegIndex(n.x, Len(s)) IN
            IF i = -1 THEN MErr("InvalidIndex", s, c)
            ELSE IF ~IsBoundary(s, i) THEN MErr("InvalidIndex", s, c)
            ELSE LET w == Utf8Width(Code[Ch(s, i + 1)]) IN Ok(Upto(s, i) \o From(s, i + w + 1), c)
      [] n.k = "KeepRange" ->
            LET g == NegRange(n.start, n.end, Len(s)) IN
            IF g = <<>> THEN MErr("InvalidSlice", s, c)
            ELSE IF Slice(s, g[1], g[2]) = <<>> THEN MErr("InvalidSlice", s, c)
            ELSE Ok(Slice(s, g[1], g[2])[1], c)
      [] n.k = "SetSegment" -> MGet(n.split, s, E, c, LAMBDA sp, c1 :
            LET ss == Split(s, sp)
                i == NegIndex(n.index, Len(ss)) IN
            IF i = -1 THEN MErr("SegmentNotFound", s, c1)
            ELSE LET r == W1(Src(n.value, E, c1)) IN
                 IF r.k # "ok" THEN Keep(r, s)
                 ELSE Ok(JoinS(IF r.v = <<>> THEN RemoveAtSeq(ss, i) ELSE [ss EXCEPT ![i + 1] = r.v[1]], sp), r.c))
      [] n.k = "InsertSegment" -> MGet(n.split, s, E, c, LAMBDA sp, c1 :
            LET ss == Split(s, sp)
                i == NegBoundary(n.index, Len(ss)) IN
            IF i = -1 THEN MErr("SegmentNotFound", s, c1)
            ELSE LET r == W1(Src(n.value, E, c1)) IN
                 IF r.k # "ok" THEN Keep(r, s)
                 ELSE Ok(JoinS(IF r.v = <<>> THEN ss ELSE InsertAtSeq(ss, i, r.v[1]), sp), r.c))
      [] n.k = "KeepNthSegment" -> MGet(n.split, s, E, c, LAMBDA sp, c1 :
            LET x == NegNth(Split(s, sp), n.index) IN IF x = <<>> THEN MErr("SegmentNotFound", s, c1) ELSE Ok(x[1], c1))
      [] n.k = "KeepSegmentRange" -> MGet(n.split, s, E, c, LAMBDA sp, c1 :
            LET ss == Split(s, sp)
                g == NegRange(n.start, n.end, Len(ss)) IN
            IF g = <<>> THEN MErr("SegmentRangeNotFound", s, c1) ELSE Ok(JoinS(SubSeq(ss, g[1] + 1, g[2]), sp), c1))
      [] n.k = "RegexCaptures" -> MGet(n.replace, s, E, c, LAMBDA t, c1 : RxDo(n.regex, s, c1, LAMBDA rx :
            LET m == RxFrom(rx, s, 1) IN IF m = <<>> THEN MErr("RegexMatchNotFound", s, c1) ELSE Ok(RxExpand(rx, s, m, t), c1)))
      [] n.k = "JoinAllRegexCaptures" -> MGet(n.replace, s, E, c, LAMBDA t, c1 : MGet(n.join, s, E, c1, LAMBDA j, c2 : RxDo(n.regex, s, c2, LAMBDA rx :
            LET ms == RxAll(rx, s, 1, 0) IN Ok(JoinS([i \in 1..Len(ms) |-> RxExpand(rx, s, ms[i], t)], j), c2))))
      [] n.k = "RegexFind" -> RxDo(n.x, s, c, LAMBDA rx :
            LET m == RxFrom(rx, s, 1) IN IF m = <<>> THEN MErr("RegexMatchNotFound", s, c) ELSE Ok(RxText(s, m), c))
      [] n.k = "RegexReplace" -> IF n.regex.bad THEN MErr("RegexError", s, c) ELSE MGet(n.replace, s, E, c, LAMBDA t, c1 : RxDo(n.regex, s, c1, LAMBDA rx : Ok(RxReplace(rx, s, 1, t), c1)))
      [] n.k = "RegexReplaceAll" -> IF n.regex.bad THEN MErr("RegexError", s, c) ELSE MGet(n.replace, s, E, c, LAMBDA t, c1 : RxDo(n.regex, s, c1, LAMBDA rx : Ok(RxReplace(rx, s, 0, t), c1)))
      [] n.k = "RegexReplacen" -> IF n.regex.bad THEN MErr("RegexError", s, c) ELSE MGet(n.replace, s, E, c, LAMBDA t, c1 : RxDo(n.regex, s, c1, LAMBDA rx : Ok(RxReplace(rx, s, n.n, t), c1)))
      [] n.k = "UrlEncode" -> Ok(PctEnc(s, AllBytes \ EncKeep(n.x)), c)
      [] n.k = "UrlDecode" -> LET d == PctDec(s) IN IF IsUtf8(d) THEN Ok(d, c) ELSE MErr("Utf8Error", s, c)
      [] n.k = "Base64Encode" -> Ok(B64Enc(s, B64Alpha(n.x.alphabet), n.x.encode_padding), c)
      [] n.k = "Base64Decode" ->
            LET d == B64Dec(s, B64Alpha(n.x.alphabet), n.x.decode_padding) IN
            IF d = <<>> THEN MErr("Base64DecodeError", s, c) ELSE IF IsUtf8(d[1]) THEN Ok(d[1], c) ELSE MErr("FromUtf8Error", s, c)
      [] n.k = "JsonPointer" ->
            LET j == JParse(s) IN
            IF j = <<>> THEN MErr("SerdeJsonError", s, c)
            ELSE MGet(n.x, s, E, c, LAMBDA p, c1 :
                LET v == JPointer(j[1], p) IN
                IF v = <<>> THEN MErr("JsonValueNotFound", s, c1)
                ELSE IF v[1].t # "s" THEN MErr("JsonValueIsNotAString", s, c1) ELSE Ok(v[1].v, c1))
      [] n.k \in {"RemoveQueryParamsMatching", "AllowQueryParamsMatching"} ->
            Keep(W(<<"StringMatcherError">>, ModQP(n.k = "AllowQueryParamsMatching", n.x, Split(s, "&"), E, c, <<>>)), s)
      [] n.k = "ExtractBetween" -> MGet(n.start, s, E, c, LAMBDA a, c1 :
            LET x == SplitOnce(s, a) IN
            IF x = <<>> THEN MErr("ExtractBetweenStartNotFound", s, c1)
            ELSE MGet(n.end, s, E, c1, LAMBDA b, c2 :
                LET y == SplitOnce(x[2], b) IN IF y = <<>> THEN MErr("ExtractBetweenEndNotFound", s, c2) ELSE Ok(y[1], c2)))
      [] n.k = "GetJsStringLiteralPrefix" -> Keep(Lift(JsLiteral(s), <<"JsStringLiteralPrefixError">>, c), s)
      [] n.k = "UnescapeHtmlText" -> Keep(Lift(Unescape(s), <<"HtmlUnescapeTextError">>, c), s)
      [] n.k = "GetHtmlAttribute" -> MGet(n.x, s, E, c, LAMBDA nm, c1 :
            LET r == Lift(HtmlAttr(s, nm), <<"HtmlGetAttributeValueError">>, c1) IN
            IF r.k # "ok" THEN Keep(r, s)
            ELSE IF r.v = <<>> THEN MErr("HtmlAttributeNotFound", s, c1)
            ELSE IF r.v[1] = <<>> THEN MErr("HtmlAttributeHasNoValue", s, c1) ELSE Ok(r.v[1][1], c1))
      [] n.k = "StringMap" ->
            LET r == W1(Src(n.value, E, c)) IN
            IF r.k # "ok" THEN Keep(r, s)
            ELSE LET x == MapGet(n.map, r.v) IN IF x = <<>> THEN Ok(s, r.c) ELSE Mod(x[1], s, E, r.c)
      [] n.k = "Common" ->
            LET r == CallCommon(n.x, E.commons.string_modifications, "CommonStringModificationNotFound", E, c, SSE, <<>>) IN
            IF r.k # "ok" THEN Keep(r, s) ELSE Mod(r.v.n, s, r.v.E, r.c)

(* ----------------------------- matchers -------------------------------- *)
RECURSIVE MatSeq(_, _, _, _, _)
MatSeq(m, ns, s, E, c) ==
    IF ns = <<>> THEN Ok(m = "all", c)
    ELSE LET r == Mat(Head(ns), s, E, c) IN
         IF r.k = "ok" /\ ((m = "all" /\ r.v) \/ (m = "any" /\ ~r.v)) THEN MatSeq(m, Tail(ns), s, E, r.c)
         ELSE IF r.k = "err" /\ m = "first" /\ Len(ns) > 1 THEN MatSeq(m, Tail(ns), s, E, r.c)
         ELSE r
RECURSIVE MatSegs(_, _, _, _)
MatSegs(n, segs, E, c) ==
    IF segs = <<>> THEN Ok(FALSE, c)
    ELSE LET r == Mat(n, Head(segs), E, c) IN
         IF r.k = "ok" /\ ~r.v THEN MatSegs(n, Tail(segs), E, r.c) ELSE r
SLE == <<"StringLocationError">>
RECURSIVE MatAny(_, _, _, _, _)
MatAny(vals, loc, s, E, c) ==
    IF vals = <<>> THEN Ok(FALSE, c)
    ELSE Bind(GetP(Head(vals), E, c, SSE, <<"StringModificationError">>), LAMBDA v, c1 :
         LET r == Lift(Loc(loc, s, v), SLE, c1) IN
         IF r.k = "ok" /\ ~r.v THEN MatAny(Tail(vals), loc, s, E, c1) ELSE r)
RECURSIVE LocAny(_, _, _)
LocAny(loc, s, vals) ==
    IF vals = <<>> THEN UOk(FALSE)
    ELSE LET r == Loc(loc, s, Head(vals)) IN IF r.k = "ok" /\ ~r.v THEN LocAny(loc, s, Tail(vals)) ELSE r
Mat(n, s, E, c) ==
    CASE n.k = "Always" -> Ok(TRUE, c)
      [] n.k = "Never" -> Ok(FALSE, c)
      [] n.k = "Error" -> Err(<<"ExplicitError">>, c)
      [] n.k = "Debug" -> Mat(n.x, s, E, c)
      [] n.k = "If" -> Bind(Mat(n.if, s, E, c), LAMBDA b, c1 : Mat(IF b THEN n.then ELSE n.else, s, E, c1))
      [] n.k = "All" -> MatSeq("all", n.x, s, E, c)
      [] n.k = "Any" -> MatSeq("any", n.x, s, E, c)
      [] n.k = "FirstNotError" -> MatSeq("first", n.x, s, E, c)
      [] n.k = "Not" -> Bind(Mat(n.x, s, E, c), LAMBDA b, c1 : Ok(~b, c1))
      [] n.k = "TreatErrorAsPass" -> LET r == Mat(n.x, s, E, c) IN IF r.k = "err" THEN Ok(TRUE, r.c) ELSE r
      [] n.k = "TreatErrorAsFail" -> LET r == Mat(n.x, s, E, c) IN IF r.k = "err" THEN Ok(FALSE, r.c) ELSE r
      [] n.k = "TryElse" -> LET r == Mat(n.try, s, E, c) IN
            IF r.k # "err" THEN r ELSE LET q == Mat(n.else, s, E, r.c) IN IF q.k = "err" THEN Err(TE, q.c) ELSE q
      [] n.k = "Contains" -> Bind(Get(n.value, E, c), LAMBDA v, c1 : Lift(Loc(n.where, s, v), SLE, c1))
      [] n.k = "ContainsAny" -> MatAny(n.values, n.where, s, E, c)
      [] n.k = "ContainsAnyInList" -> Bind(Get(n.list, E, c), LAMBDA nm, c1 :
            LET l == LookupAl(E.params.lists, nm) IN
            IF l = <<>> THEN Err(<<"ListNotFound">>, c1) ELSE Lift(LocAny(n.where, s, l[1]), SLE, c1))
      [] n.k = "Is" -> Bind(Get(n.x, E, c), LAMBDA v, c1 : Ok(s = v, c1))
      [] n.k = "IsOneOf" -> Ok(s \in RangeOf(n.x), c)
      [] n.k = "InSet" -> Bind(Get(n.x, E, c), LAMBDA nm, c1 :
            LET l == LookupAl(E.params.sets, nm) IN Ok(l # <<>> /\ s \in RangeOf(l[1]), c1))
      [] n.k = "Regex" -> IF n.x.bad THEN Err(<<"RegexError">>, c) ELSE IF ~RxOK(n.x.rx, s) THEN OutR ELSE Ok(RxFrom(n.x.rx[1], s, 1) # <<>>, c)
      [] n.k = "Glob" -> IF ~IsAscii(s) \/ n.x.toks = <<>> THEN OutR ELSE Ok(GlobM(n.x.toks[1], s, TRUE, n.x.opts), c)
      [] n.k = "Modified" -> Bind(W(<<"StringModificationError">>, Mod(n.modification, s, E, c)), LAMBDA v, c1 : Mat(n.matcher, v, E, c1))
      [] n.k = "OnlyTheseChars" -> Ok(\A i \in 1..Len(UChars(s)) : UChars(s)[i] \in RangeOf(n.x), c)
      [] n.k = "AllCharsMatch" -> Lift(CharsMatch("all", n.x, UChars(s)), <<"CharMatcherError">>, c)
      [] n.k = "AnyCharMatches" -> Lift(CharsMatch("any", n.x, UChars(s)), <<"CharMatcherError">>, c)
      [] n.k = "IsAscii" -> Ok(IsAscii(s), c)
      [] n.k = "NthSegmentMatches" -> Bind(Get(n.split, E, c), LAMBDA sp, c1 :
            LET x == NegNth(Split(s, sp), n.n) IN IF x = <<>> THEN Err(<<"SegmentNotFound">>, c1) ELSE Mat(n.matcher, x[1], E, c1))
      [] n.k = "AnySegmentMatches" -> Bind(Get(n.split, E, c), LAMBDA sp, c1 : MatSegs(n.matcher, Split(s, sp), E, c1))
      [] n.k = "LengthIs" -> Ok(Len(s) = n.x, c)
      [] n.k = "SegmentsStartWith" -> Bind(Get(n.split, E, c), LAMBDA sp, c1 : Bind(Get(n.value, E, c1), LAMBDA v, c2 :
            Ok(StartsWith(s, v) /\ StartsWith(From(s, Len(v) + 1), sp), c2)))
      [] n.k = "SegmentsEndWith" -> Bind(Get(n.split, E, c), LAMBDA sp, c1 : Bind(Get(n.value, E, c1), LAMBDA v, c2 :
            Ok(EndsWith(s, v) /\ LET p == Split(Upto(s, Len(s) - Len(v)), sp) IN p[Len(p)] = "", c2)))
      [] n.k = "Common" -> Bind(CallCommon(n.x, E.commons.string_matchers, "CommonStringMatcherNotFound", E, c, SSE, SSE), LAMBDA d, c1 : Mat(d.n, s, d.E, c1))

(* ---------------------------- conditions ------------------------------- *)
RECURSIVE CondSeq(_, _, _, _)
CondSeq(m, ns, E, c) ==
    IF ns = <<>> THEN Ok(m = "all", c)
    ELSE LET r == Cond(Head(ns), E, c) IN
         IF r.k = "ok" /\ r.v = (m = "all") THEN CondSeq(m, Tail(ns), E, r.c) ELSE r
Filtered(f, e) == f = <<>> \/ e[1] \in RangeOf(f[1])
SME == <<"StringMatcherError">>
PartOr(p, E, c) == Bind(Lift(PGet(p, E.url), <<>>, c), LAMBDA v, c1 : IF v = <<>> THEN Err(<<"PartIsNone">>, c1) ELSE Ok(v[1], c1))
PartIsConst(name, n, E, c) == Bind(Lift(PGet([k |-> name], E.url), <<>>, c), LAMBDA v, c1 : Ok(v = n.x, c1))
Cond(n, E, c) ==
    CASE n.k = "Always" -> Ok(TRUE, c)
      [] n.k = "Never" -> Ok(FALSE, c)
      [] n.k = "Error" -> Err(<<"ExplicitError">>, c)
      [] n.k = "Debug" -> Cond(n.x, E, c)
      [] n.k = "If" -> Bind(Cond(n.if, E, c), LAMBDA b, c1 : Cond(IF b THEN n.then ELSE n.else, E, c1))
      [] n.k = "Not" -> Bind(Cond(n.x, E, c), LAMBDA b, c1 : Ok(~b, c1))
      [] n.k = "All" -> CondSeq("all", n.x, E, c)
      [] n.k = "Any" -> CondSeq("any", n.x, E, c)
      [] n.k = "PartMap" -> Bind(Lift(PGet(n.part, E.url), <<>>, c), LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN IF x = <<>> THEN Ok(FALSE, c1) ELSE Cond(x[1], E, c1))
      [] n.k = "StringMap" -> Bind(W1(Src(n.value, E, c)), LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN IF x = <<>> THEN Ok(FALSE, c1) ELSE Cond(x[1], E, c1))
      [] n.k = "TreatErrorAsPass" -> LET r == Cond(n.condition, E, c) IN IF r.k = "err" /\ Filtered(n.filter, r.e) THEN Ok(TRUE, r.c) ELSE r
      [] n.k = "TreatErrorAsFail" -> LET r == Cond(n.condition, E, c) IN IF r.k = "err" /\ Filtered(n.filter, r.e) THEN Ok(FALSE, r.c) ELSE r
      [] n.k = "TryElse" -> LET r == Cond(n.try, E, c) IN
            IF r.k = "err" /\ Filtered(n.filter, r.e)
            THEN LET q == Cond(n.else, E, r.c) IN IF q.k = "err" THEN Err(TE, q.c) ELSE q
            ELSE r
      [] n.k = "HostIs" -> PartIsConst("Host", n, E, c)
      [] n.k = "SubdomainIs" -> PartIsConst("Subdomain", n, E, c)
      [] n.k = "RegDomainIs" -> PartIsConst("RegDomain", n, E, c)
      [] n.k = "DomainIs" -> PartIsConst("Domain", n, E, c)
      [] n.k = "DomainMiddleIs" -> PartIsConst("DomainMiddle", n, E, c)
      [] n.k = "NotDomainSuffixIs" -> PartIsConst("NotDomainSuffix", n, E, c)
      [] n.k = "DomainSuffixIs" -> PartIsConst("DomainSuffix", n, E, c)
      [] n.k = "HostIsOneOf" -> Ok(HostStr(E.url) # <<>> /\ HostStr(E.url)[1] \in RangeOf(n.x), c)
      [] n.k = "UrlHasHost" -> Ok(E.url.host # <<>>, c)
      [] n.k = "HostIsFqdn" -> Ok(IsDomain(E.url) /\ EndsWith(HStr(E.url), "."), c)
      [] n.k = "HostIsDomain" -> Ok(IsDomain(E.url), c)
      [] n.k = "HostIsIp" -> Ok(E.url.host # <<>> /\ ~IsDomain(E.url), c)
      [] n.k = "HostIsIpv4" -> Ok(E.url.host # <<>> /\ E.url.host[1].k = "ipv4", c)
      [] n.k = "HostIsIpv6" -> Ok(E.url.host # <<>> /\ E.url.host[1].k = "ipv6", c)
      [] n.k = "QueryHasParam" -> IF ~PairsUtf8(QPairsOf(E.url)) THEN OutR ELSE Ok(n.x \in Keys(QPairsOf(E.url)), c)
      [] n.k = "PathIs" -> Ok(E.url.path = n.x, c)
      [] n.k = "PartIs" -> Bind(Lift(PGet(n.part, E.url), <<>>, c), LAMBDA p, c1 : Bind(W1(Src(n.value, E, c1)), LAMBDA v, c2 : Ok(p = v, c2)))
      [] n.k = "PartContains" -> Bind(PartOr(n.part, E, c), LAMBDA p, c1 : Bind(Get(n.value, E, c1), LAMBDA v, c2 : Lift(Loc(n.where, p, v), SLE, c2)))
      [] n.k = "PartMatches" -> Bind(PartOr(n.part, E, c), LAMBDA p, c1 : W(SME, Mat(n.matcher, p, E, c1)))
      [] n.k = "PartIsOneOf" -> Bind(PartOr(n.part, E, c), LAMBDA p, c1 : Ok(p \in RangeOf(n.values), c1))
      [] n.k = "FlagIsSet" -> FlagGet(n.x, E, c)
      [] n.k = "VarIs" -> Bind(VarGet(n.var, E, c), LAMBDA p, c1 : Bind(W1(Src(n.value, E, c1)), LAMBDA v, c2 : Ok(p = v, c2)))
      [] n.k = "StringIs" -> Bind(W1(Src(n.left, E, c)), LAMBDA p, c1 : Bind(W1(Src(n.right, E, c1)), LAMBDA v, c2 : Ok(p = v, c2)))
      [] n.k = "StringContains" -> Bind(Get(n.value, E, c), LAMBDA p, c1 : Bind(Get(n.substring, E, c1), LAMBDA v, c2 : Lift(Loc(n.where, p, v), SLE, c2)))
      [] n.k = "StringMatches" -> Bind(Get(n.value, E, c), LAMBDA v, c1 : W(SME, Mat(n.matcher, v, E, c1)))
      [] n.k = "Common" -> Bind(CallCommon(n.x, E.commons.conditions, "CommonConditionNotFound", E, c, SSE, <<>>), LAMBDA d, c1 : Cond(d.n, d.E, c1))

(* ------------------------------ mappers -------------------------------- *)
St(E) == [url |-> E.url, sp |-> E.sp]
Up(E, v) == [E EXCEPT !.url = v.url, !.sp = v.sp]
SetU(E, u, c) == Ok([url |-> u, sp |-> E.sp], c)
Done(E, c) == Ok(St(E), c)
PErrS(e, E, c) == ErrV(<<e>>, St(E), c)
\* continue with the value of a state-independent evaluation, or fail leaving the state alone
On(r, E, F(_, _)) == IF r.k = "ok" THEN F(r.v, r.c) ELSE Keep(r, St(E))
OnGet(n, E, c, F(_, _)) == On(Get(n, E, c), E, F)
PSetR(p, E, to, c) == On(Lift(PSet(p, E.url, to), <<"UrlPartSetError">>, c), E, LAMBDA u, c1 : SetU(E, u, c1))
RECURSIVE MapSeq(_, _, _, _)
MapSeq(m, ns, E, c) ==
    IF ns = <<>> THEN Done(E, c)
    ELSE LET r == Mapper(Head(ns), E, c) IN
         IF m = "all" THEN (IF r.k = "ok" THEN MapSeq(m, Tail(ns), Up(E, r.v), r.c) ELSE r)
         ELSE IF r.k = "err" /\ Len(ns) > 1 THEN MapSeq(m, Tail(ns), Up(E, r.v), r.c) ELSE r
RECURSIVE Chain(_, _, _)
Chain(ls, E, c) ==
    IF ls = <<>> THEN Done(E, c)
    ELSE On(W(<<"ConditionError">>, Cond(Head(ls).condition, E, c)), E, LAMBDA b, c1 :
         IF b THEN Mapper(Head(ls).mapper, E, c1) ELSE Chain(Tail(ls), E, c1))
RECURSIVE RetryM(_, _, _, _)
RetryM(n, k, E, c) ==
    IF k = 0 THEN Done(E, c)
    ELSE LET r == Mapper(n, E, c) IN
         IF r.k # "err" \/ k = 1 THEN r ELSE RetryM(n, k - 1, Up(E, r.v), r.c)
\* the query parameters whose name satisfies (keep) / does not satisfy the matcher
RECURSIVE FilterQP(_, _, _, _, _, _)
FilterQP(keep, mt, ps, E, c, acc) ==
    IF ps = <<>> THEN Ok(acc, c)
    ELSE Bind(Mat(mt, Head(ps)[1], E, c), LAMBDA b, c1 : FilterQP(keep, mt, Tail(ps), E, c1, IF b = keep THEN Append(acc, Head(ps)) ELSE acc))
OnQuery(E, c, F(_)) == IF E.url.query = <<>> THEN Done(E, c)
                       ELSE IF ~PairsUtf8(QPairsOf(E.url)) THEN OutR ELSE F(QPairsOf(E.url))
KeepPairs(E, ps, P(_), c) == SetU(E, WithPairs(E.url, SelectSeq(ps, P)), c)
Cached(E, cat, c, F(_)) ==                \* read-through of a URL-valued entry
    LET hit == CRead(c, cat, Serialize(E.url)) IN
    IF E.params.read_cache /\ hit # <<>>
    THEN IF hit[1] = <<>> THEN PErrS("CachedUrlIsNone", E, c)
         ELSE On(Lift(ParseUrl(hit[1][1]), <<"UrlParseError">>, c), E, LAMBDA u, c1 : SetU(E, u, c1))
    ELSE F(c)
Redirect(n, E, c) ==
    LET d == n.http_client_config_diff
        h == IF d = <<>> THEN E.http ELSE HDiff(E.http, d[1])
        hs == FoldLeft(LAMBDA al, p : PutAl(al, LowerAscii(p[1]), p[2]), <<>>, n.headers) IN
    Cached(E, "redirect", c, LAMBDA c0 :
        IF ClientOf(h) = "out" THEN OutR
        ELSE On(IF ClientOf(h) = "err" THEN Err(<<"ReqwestError">>, c0) ELSE Fetch(E.net, h, "GET", E.url, hs, "", TRUE, c0), E, LAMBDA r, c1 :
          LET nu == IF r.status >= 300 /\ r.status < 400
                    THEN (IF r.loc = <<>> THEN UErr(<<"LocationHeaderNotFound">>) ELSE PErr(<<"UrlParseError">>, ParseUrl(r.loc[1])))
                    ELSE UOk(r.url) IN
          On(Lift(nu, <<>>, c1), E, LAMBDA u, c2 :
              SetU(E, u, IF E.params.write_cache THEN CWrite(c2, "redirect", Serialize(E.url), <<Serialize(u)>>) ELSE c2))))
Mapper(n, E, c) ==
    CASE n.k = "None" -> Done(E, c)
      [] n.k = "Error" -> PErrS("ExplicitError", E, c)
      [] n.k = "Debug" -> Mapper(n.x, E, c)
      [] n.k = "If" -> On(W(<<"ConditionError">>, Cond(n.condition, E, c)), E, LAMBDA b, c1 :
            IF b THEN Mapper(n.mapper, E, c1) ELSE IF n.else_mapper = <<>> THEN Done(E, c1) ELSE Mapper(n.else_mapper[1], E, c1))
      [] n.k = "ConditionChain" -> Chain(n.x, E, c)
      [] n.k = "All" -> MapSeq("all", n.x, E, c)
      [] n.k = "PartMap" -> On(Lift(PGet(n.part, E.url), <<>>, c), E, LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN IF x = <<>> THEN Done(E, c1) ELSE Mapper(x[1], E, c1))
      [] n.k = "StringMap" -> On(W1(Src(n.value, E, c)), E, LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN IF x = <<>> THEN Done(E, c1) ELSE Mapper(x[1], E, c1))
      [] n.k = "IgnoreError" -> LET r == Mapper(n.x, E, c) IN IF r.k = "err" THEN Ok(r.v, r.c) ELSE r
      [] n.k = "RevertOnError" -> Keep(Mapper(n.x, E, c), St(E))
      [] n.k = "TryElse" -> LET r == Mapper(n.try, E, c) IN
            IF r.k # "err" THEN r
            ELSE LET q == Mapper(n.else, Up(E, r.v), r.c) IN IF q.k = "err" THEN ErrV(TE, q.v, q.c) ELSE q
      [] n.k = "FirstNotError" -> MapSeq("first", n.x, E, c)
      [] n.k = "RemoveQuery" -> SetU(E, SetQuery(E.url, <<>>), c)
      [] n.k = "RemoveQueryParam" -> OnQuery(E, c, LAMBDA ps : OnGet(n.x, E, c, LAMBDA nm, c1 : KeepPairs(E, ps, LAMBDA p : p[1] # nm, c1)))
      [] n.k = "RemoveQueryParams" -> OnQuery(E, c, LAMBDA ps : KeepPairs(E, ps, LAMBDA p : p[1] \notin RangeOf(n.x), c))
      [] n.k = "AllowQueryParams" -> OnQuery(E, c, LAMBDA ps : KeepPairs(E, ps, LAMBDA p : p[1] \in RangeOf(n.x), c))
      [] n.k \in {"RemoveQueryParamsMatching", "AllowQueryParamsMatching"} -> OnQuery(E, c, LAMBDA ps :
            On(W(SME, FilterQP(n.k = "AllowQueryParamsMatching", n.x, ps, E, c, <<>>)), E, LAMBDA qs, c1 : SetU(E, WithPairs(E.url, qs), c1)))
      [] n.k = "GetUrlFromQueryParam" -> OnGet(n.x, E, c, LAMBDA nm, c1 :
            LET ps == QPairsOf(E.url)
                v == LookupAl(ps, nm) IN
            IF ~PairsUtf8(ps) THEN OutR
            ELSE IF v = <<>> THEN PErrS("CannotFindQueryParam", E, c1)
            ELSE On(Lift(ParseUrl(v[1]), <<"UrlParseError">>, c1), E, LAMBDA u, c2 : SetU(E, u, c2)))
      [] n.k = "SetHost" -> On(Lift(SetHost(E.url, n.x), <<"SetHostError", "SetHostError">>, c), E, LAMBDA u, c1 : SetU(E, u, c1))
      [] n.k = "Join" -> OnGet(n.x, E, c, LAMBDA s, c1 : On(Lift(Join(E.url, s), <<"UrlParseError">>, c1), E, LAMBDA u, c2 : SetU(E, u, c2)))
      [] n.k = "SetPart" -> On(W1(Src(n.value, E, c)), E, LAMBDA v, c1 : PSetR(n.part, E, v, c1))
      [] n.k = "ModifyPart" -> On(Lift(PGet(n.part, E.url), <<>>, c), E, LAMBDA v, c1 :
            IF v = <<>> THEN Done(E, c1)
            ELSE On(W(<<"StringModificationError">>, Mod(n.modification, v[1], E, c1)), E, LAMBDA s, c2 : PSetR(n.part, E, <<s>>, c2)))
      [] n.k = "CopyPart" -> On(Lift(PGet(n.from, E.url), <<>>, c), E, LAMBDA v, c1 : PSetR(n.to, E, v, c1))
      [] n.k = "MovePart" -> On(Lift(PGet(n.from, E.url), <<>>, c), E, LAMBDA v, c1 :
            On(Lift(PSet(n.to, E.url, v), <<"UrlPartSetError">>, c1), E, LAMBDA u, c2 :
            On(Lift(PSet(n.from, u, <<>>), <<"UrlPartSetError">>, c2), E, LAMBDA u2, c3 : SetU(E, u2, c3))))
      [] n.k = "ExpandRedirect" -> Redirect(n, E, c)
      [] n.k = "SetScratchpadFlag" -> OnGet(n.name, E, c, LAMBDA nm, c1 :
            Ok([St(E) EXCEPT !.sp.flags = IF n.value THEN @ \cup {nm} ELSE @ \ {nm}], c1))
      [] n.k = "SetScratchpadVar" -> On(W1(Src(n.value, E, c)), E, LAMBDA v, c1 : OnGet(n.name, E, c1, LAMBDA nm, c2 :
            Ok([St(E) EXCEPT !.sp.vars = IF v = <<>> THEN DelAl(@, nm) ELSE PutAl(@, nm, v[1])], c2)))
      [] n.k = "ModifyScratchpadVar" -> OnGet(n.name, E, c, LAMBDA nm, c1 :
            LET v == LookupAl(E.sp.vars, nm) IN
            IF v = <<>> THEN Done(E, c1)
            ELSE On(W(<<"StringModificationError">>, Mod(n.modification, v[1], E, c1)), E, LAMBDA s, c2 :
                 Ok([St(E) EXCEPT !.sp.vars = PutAl(@, nm, s)], c2)))
      [] n.k = "Rule" -> W(<<"RuleError">>, Rule(n.x, E, c))
      [] n.k = "Rules" -> W(<<"RuleError">>, Rules(n.x, E, c))
      [] n.k = "CacheUrl" -> OnGet(n.category, E, c, LAMBDA cat, c1 :
            Cached(E, cat, c1, LAMBDA c2 :
                Bind(Mapper(n.mapper, E, c2), LAMBDA v, c3 :
                    Ok(v, IF E.params.write_cache THEN CWrite(c3, cat, Serialize(E.url), <<Serialize(v.url)>>) ELSE c3))))
      [] n.k = "Retry" -> RetryM(n.mapper, n.limit, E, c)
      [] n.k = "Common" ->
            LET r == CallCommon(n.x, E.commons.mappers, "CommonMapperNotFound", E, c, SSE, <<>>) IN
            On(r, E, LAMBDA d, c1 : Mapper(d.n, d.E, c1))

(* ------------------------------- rules --------------------------------- *)
SameSp(a, b) == a.flags = b.flags /\ RangeOf(a.vars) = RangeOf(b.vars)
RECURSIVE RepeatR(_, _, _, _)
RepeatR(rs, k, E, c) ==
    IF k = 0 THEN Done(E, c)
    ELSE Bind(Rules(rs, E, c), LAMBDA v, c1 :
         IF Serialize(v.url) = Serialize(E.url) /\ SameSp(v.sp, E.sp) THEN Ok(v, c1) ELSE RepeatR(rs, k - 1, Up(E, v), c1))
MPE == <<"MapperError">>
Rule(n, E, c) ==
    CASE n.k = "Normal" -> On(W(<<"ConditionError">>, Cond(n.condition, E, c)), E, LAMBDA b, c1 :
            IF b THEN W(MPE, Mapper(n.mapper, E, c1))
            ELSE IF n.else_mapper = <<>> THEN Done(E, c1) ELSE W(MPE, Mapper(n.else_mapper[1], E, c1)))
      [] n.k \in {"PartMap", "PartRuleMap", "PartRulesMap"} -> On(Lift(PGet(n.part, E.url), <<>>, c), E, LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN
            IF x = <<>> THEN Done(E, c1)
            ELSE IF n.k = "PartMap" THEN W(MPE, Mapper(x[1], E, c1))
            ELSE IF n.k = "PartRuleMap" THEN Rule(x[1], E, c1) ELSE Rules(x[1], E, c1))
      [] n.k \in {"StringMap", "StringRuleMap", "StringRulesMap"} -> On(W1(Src(n.value, E, c)), E, LAMBDA v, c1 :
            LET x == MapGet(n.map, v) IN
            IF x = <<>> THEN Done(E, c1)
            ELSE IF n.k = "StringMap" THEN W(MPE, Mapper(x[1], E, c1))
            ELSE IF n.k = "StringRuleMap" THEN Rule(x[1], E, c1) ELSE Rules(x[1], E, c1))
      [] n.k = "Repeat" -> RepeatR(n.rules, n.limit, E, c)
      [] n.k = "SharedCondition" -> On(W(<<"ConditionError">>, Cond(n.condition, E, c)), E, LAMBDA b, c1 : IF b THEN Rules(n.rules, E, c1) ELSE Done(E, c1))
      [] n.k = "Rules" -> Rules(n.x, E, c)
      [] n.k = "Mapper" -> W(MPE, Mapper(n.x, E, c))
      [] n.k = "Common" -> On(CallCommon(n.x, E.commons.rules, "CommonRuleNotFound", E, c, SSE, <<>>), E, LAMBDA d, c1 : Rule(d.n, d.E, c1))
Rules(rs, E, c) == IF rs = <<>> THEN Done(E, c)
                   ELSE Bind(Rule(Head(rs), E, c), LAMBDA v, c1 : Rules(Tail(rs), Up(E, v), c1))
=============================================================================
