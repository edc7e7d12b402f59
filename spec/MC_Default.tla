------------------------------ MODULE MC_Default -----------------------------
(***************************************************************************)
(* What the default configuration does to a URL that none of its rules for *)
(* particular sites claims (C17), written down without reference to those  *)
(* rules: Clean(u, flags).  The lists it names (universal tracking         *)
(* parameters, exempted hosts, ..) are the ones of the configuration.      *)
(* The laws below are checked of Clean itself, for every URL and set of    *)
(* flags of the product; the implementation, running the real              *)
(* configuration, must then give Clean's result for each of them.          *)
(***************************************************************************)
EXTENDS MC
CONSTANTS Step, Offset, NP      \* every Step-th case from Offset; parameters per query
P == In.lists                   \* [utps, prefixes, notracking, nohttps, nowww, nomobile : sequences, lang : map]
Utps == RangeOf(P.utps)
Tracking(n) == n \in Utps \/ \E i \in 1..Len(P.prefixes) : StartsWith(n, P.prefixes[i])
\* labels in front of the registrable domain
SubLabels(u) == IF FSubdomain(u) = <<>> THEN <<>> ELSE Split(FSubdomain(u)[1], ".")
Has(u) == IsDomain(u) /\ FReg(u) # <<>>
Reg(u) == FReg(u)[1]
Hosted(u, h) == SetHost(u, <<h>>).v
\* the fragment is read like a query, but kept as it is written
FragNames(f) == SelectSeq(Split(f, "&"), LAMBDA p : ~Tracking(Split(p, "=")[1]))
LangName(u) == LET h == NoWww(HostStr(u)[1]) m == LookupAl(P.lang.map, h) IN IF m # <<>> THEN m ELSE P.lang.else

Secure(u, F) == IF u.scheme = "http" /\ "no-https-upgrade" \notin F /\ IsDomain(u) /\ HostStr(u)[1] \notin RangeOf(P.nohttps) THEN SetScheme(u, "https").v ELSE u
Mobile == {"m", "mobile"}
Unmobile(u, F) ==
    LET drop(v, n) == LET s == SubLabels(v) IN IF n < Len(s) /\ s[n + 1] \in Mobile THEN Hosted(v, JoinS(RemoveAtSeq(s, n), ".") \o (IF Len(s) = 1 THEN "" ELSE ".") \o Reg(v) \o (IF IsFqdn(v) THEN "." ELSE "")) ELSE v IN
    IF "unmobile" \in F /\ Has(u) /\ Reg(u) \notin RangeOf(P.nomobile) THEN drop(drop(u, 0), 1) ELSE u
Untor(u, F) == IF "tor2web2tor" \in F /\ Has(u) /\ FMiddle(u) = <<"onion">> THEN Hosted(u, FNotSuffix(u)[1]) ELSE u
Query(u) == IF u.query = <<>> \/ Reg(u) \in RangeOf(P.notracking) THEN u ELSE WithPairs(u, SelectSeq(QPairsOf(u), LAMBDA p : ~Tracking(p[1])))
Frag(u) == IF u.frag = <<>> \/ Reg(u) \in RangeOf(P.notracking) THEN u ELSE SetFrag(u, <<JoinS(FragNames(u.frag[1]), "&")>>)
Www(u) == IF FSubdomain(u) = <<"www">> /\ Reg(u) \notin RangeOf(P.nowww) THEN Hosted(u, Reg(u) \o (IF IsFqdn(u) THEN "." ELSE "")) ELSE u
Dot(u) == IF IsFqdn(u) THEN Hosted(u, FDomain(u)[1]) ELSE u
Empty(u) == LET q == IF u.query = <<"">> THEN SetQuery(u, <<>>) ELSE u IN IF q.frag = <<"">> THEN SetFrag(q, <<>>) ELSE q
Lang(u, F) == LET n == LangName(u) IN
    IF "keep-lang" \in F \/ n = <<>> \/ u.query = <<>> THEN u ELSE WithPairs(u, SelectSeq(QPairsOf(u), LAMBDA p : p[1] # n[1]))
Universal(u0, F) == LET u == Secure(u0, F) IN Lang(IF Has(u) THEN Empty(Dot(Www(Frag(Query(u))))) ELSE u, F)
Clean(u, F) == IF u.scheme \notin {"http", "https"} THEN u ELSE Universal(Untor(Unmobile(u, F), F), F)

Schemes == <<"http://", "https://", "http://u:p@", "ftp://">>
Hosts == In.hosts Ports == <<"", ":8080", ":443">> Paths == <<"", "/a%20b/utm_source=1//", "/www.x/">>
Frags == In.frags Flags == In.flags Pieces == In.pieces
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE Len(Pieces) * Pow(n - 1)
\* queries: none, then those of 1, .., NP pieces
NQ == 1 + FoldLeft(LAMBDA a, n : a + Pow(n), 0, [k \in 1..NP |-> k])
RECURSIVE QueryOf(_, _)
QueryOf(x, n) == IF x < Pow(n) THEN "?" \o JoinS([j \in 1..n |-> Pieces[Digits0(x, [k \in 1..n |-> Len(Pieces)])[j]]], "&") ELSE QueryOf(x - Pow(n), n + 1)
Text(x) == IF x = 0 THEN "" ELSE QueryOf(x - 1, 1)
Ls == <<NQ, Len(Schemes), Len(Hosts), Len(Ports), Len(Paths), Len(Frags), Len(Flags)>>
VARIABLES n, f, at
Init == n \in {x \in 0..(Prod(Ls) - 1) : x % Step = Offset % Step} /\ f = -1 /\ at = ""
D == Digits0(n, Ls)
Url == Schemes[D[2]] \o Hosts[D[3]] \o Ports[D[4]] \o Paths[D[5]] \o Text(D[1] - 1) \o Frags[D[6]]
Go == f = -1 /\ f' = D[7] /\ at' = Serialize(Clean(UrlOf(Url), RangeOf(Flags[D[7]]))) /\ UNCHANGED n
Next == Go
Spec == Init /\ [][Next]_<<n, f, at>>
Ran == f # -1
RECURSIVE Sub(_, _)
Sub(a, b) == a = <<>> \/ (b # <<>> /\ Sub(IF Head(a) = Head(b) THEN Tail(a) ELSE a, Tail(b)))
\* what must be true of Clean (u: the URL, r: the result, F: the flags)
\* the text of the result is the text of a URL; it settles, unless mobile labels are nested
Settles(u, r, F) == ("unmobile" \notin F \/ Cardinality({i \in DOMAIN SubLabels(u) : SubLabels(u)[i] \in Mobile}) < 2) => Clean(r, F) = r
\* it never adds, and changes nothing but what it names
Keeps(u, r) ==
    LET a == QPairsOf(u) b == QPairsOf(r) l == LangName(u) IN
    /\ r.user = u.user /\ r.pass = u.pass /\ r.path = u.path
    /\ r.scheme \in {u.scheme, "https"} /\ (r.port = u.port \/ (r.port = <<>> /\ u.port = <<443>>))
    /\ Sub(b, a) /\ (r.query = <<>> => b = <<>>)
    /\ \A i \in 1..Len(a) : Tracking(a[i][1]) \/ <<a[i][1]>> = l \/ \E j \in 1..Len(b) : b[j] = a[i]
    /\ (u.scheme # "ftp" /\ Has(u) /\ Has(r) /\ Reg(u) \notin RangeOf(P.notracking)) => \A j \in 1..Len(b) : ~Tracking(b[j][1])
\* a flag that is not about such URLs makes no difference
Idle(u, r, F) == Clean(u, F \cap {"no-https-upgrade", "keep-lang", "unmobile", "tor2web2tor"}) = r
Laws == Ran => LET u == UrlOf(Url) r == UrlOf(at) F == RangeOf(Flags[f]) IN Serialize(r) = at /\ Settles(u, r, F) /\ Keeps(u, r) /\ Idle(u, r, F)
\* (cleaned once, and once more)
Emitted == Ran => Emit([url |-> Url, flags |-> f, want |-> at, again |-> Serialize(Clean(UrlOf(at), RangeOf(Flags[f])))])
=============================================================================
