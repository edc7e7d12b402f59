------------------------------ MODULE MC_Parts ------------------------------
(***************************************************************************)
(* Editing URL parts (C09, C10).                                           *)
(*                                                                         *)
(* State: the URL of a task.  Transitions: setting any part to any value   *)
(* of a pool made for that part (valid, hostile, empty, absent).  From     *)
(* every state reached within DEPTH edits all edits are tried.             *)
(***************************************************************************)
EXTENDS MC
CONSTANTS DEPTH, MODE          \* MODE: "host" (host edits only) | "all"
VARIABLES url, depth

HostUrls == <<"https://www.example.co.uk./a?b#c", "https://example.com/", "http://www.example.com:8080/", "https://127.0.0.1/x", "http://[::1]:81/", "https://com/", "https://co.uk./", "https://localhost/",
   "foo://example.com./z", "foo:/a/b", "mailto:user@example.com", "https://a.b.example.github.io/", "ws://example.com./", "https://sub.www.example.co.jp/p", "ftp://u:p@example.org/a", "foo://user@127.0.0.1:1/">>
AllUrls == HostUrls \o <<"https://user:pw@example.com:8080/a/b/?x=1&x=2&y=#f", "https://example.com//a//b//?#", "http://u@www.example.com/p;q=1?a=b", "data:text/plain,x?q", "mailto:a b?x#y", "foo:/a/b?c#d", "https://example.com/a%20b/%E6%97%A5?j=%E6%97%A5#%20",
   "foo://example.com", "https://example.com/?%61=1&a=2&A=3&a", "http://example.com/.x/..y/", "https://example.com:443/", "ws://example.org:80/c">>
Starts == IF MODE = "host" THEN HostUrls ELSE AllUrls

O(ss) == [i \in 1..(Len(ss) + 1) |-> IF i = 1 THEN <<>> ELSE <<ss[i - 1]>>]
DomVals == O(<<"example.com", "www.example.co.uk", "a", "com", "", "b.example.com.", "127.0.0.1", "[::1]", "x y", "A.example.ORG", "..", "a..b">>)
SubVals == O(<<"www", "a.b", "", "b.", ".c", "A", "x/y">>)
SegVals == O(<<"a", "www", "", "b.example", "com", "x y">>)
HostVals == O(<<"example.com", "www.example.org.", "127.0.0.1", "[::1]", "", "a:80", "[x", "localhost", "EXAMPLE.com.", "co.uk">>)
SufVals == O(<<"com", "co.uk", "", "a", "org.", "com:1">>)
FqVals == O(<<".", "", "x">>)
PathVals == O(<<"/", "", "a", "/a/b", "//b", "/./b", "a/../b", "/%2e%2e/c", "/Ã©", "/a b?c#d", "..", "\\x", "/a/">>)
PSegVals == O(<<"a", "", "x/y", "..", ".", "a b", "Ã©", "%2f", "?#">>)
QVals == O(<<"", "x=1", "a b", "x#y", "?", "'\"<>", "Ã©=Ã¼", "x=1&&y">>)
QPVals == O(<<"", "1", "a b", "&=", "+", "%41", "Ã©">>)
PortVals == O(<<"80", "443", "0", "65535", "65536", "8080", "", "x", "00080", "+1", "-1", " 1", "99999999999">>)
UserVals == O(<<"u", "", "a b", "a:b@c/d", "Ã¼">>)
SchemeVals == O(<<"http", "https", "ws", "ftp", "foo", "file", "mailto", "", "1x", "https:", "HTTP", "a/b">>)
WholeVals == O(<<"https://example.com./x", "http://[::1]/", "foo:/x", "x", "", "//example.com", "https://", " https://example.org ">>)
FragVals == O(<<"", "f", "a b", "#", "Ã©", "`<">>)
DomParts == <<<<K("Domain"), DomVals>>, <<K("Subdomain"), SubVals>>, <<K("RegDomain"), DomVals>>, <<K("NotDomainSuffix"), SubVals>>, <<K("DomainMiddle"), SubVals>>, <<K("DomainSuffix"), SufVals>>,
   <<K("FqdnPeriod"), FqVals>>, <<K("Host"), HostVals>>, <<K("HostWithoutWWWDotPrefixAndFqdnPeriod"), HostVals>>,
   <<X("DomainSegment", 0), SegVals>>, <<X("DomainSegment", -1), SegVals>>, <<X("BeforeDomainSegment", 0), SegVals>>, <<X("AfterDomainSegment", -1), SegVals>>, <<K("NextDomainSegment"), SegVals>>, <<X("DomainSegment", 5), SegVals>>,
   <<X("SubdomainSegment", 0), SegVals>>, <<X("BeforeSubdomainSegment", 0), SegVals>>, <<X("AfterSubdomainSegment", 0), SegVals>>, <<K("NextSubdomainSegment"), SegVals>>,
   <<X("DomainSuffixSegment", -1), SegVals>>, <<X("BeforeDomainSuffixSegment", 0), SegVals>>, <<X("AfterDomainSuffixSegment", 0), SegVals>>, <<K("NextDomainSuffixSegment"), SegVals>>,
   <<K("Scheme"), SchemeVals>>, <<K("Whole"), WholeVals>> >>
OtherParts == <<<<K("Username"), UserVals>>, <<K("Password"), UserVals>>, <<K("Port"), PortVals>>, <<K("Path"), PathVals>>, <<X("PathSegment", 0), PSegVals>>, <<X("PathSegment", -1), PSegVals>>, <<X("PathSegment", 9), PSegVals>>,
   <<X("BeforePathSegment", 1), PSegVals>>, <<X("AfterPathSegment", 0), PSegVals>>, <<K("NextPathSegment"), PSegVals>>, <<K("Query"), QVals>>,
   <<X("QueryParam", [name |-> "x", index |-> 0]), QPVals>>, <<X("QueryParam", [name |-> "x", index |-> 1]), QPVals>>, <<X("QueryParam", [name |-> "a b", index |-> 0]), QPVals>>, <<X("QueryParam", [name |-> "a", index |-> 2]), QPVals>>,
   <<K("Fragment"), FragVals>> >>
PV == IF MODE = "host" THEN DomParts ELSE DomParts \o OtherParts
\* flattened: every edit
RECURSIVE Flat(_)
Flat(pvs) == IF pvs = <<>> THEN <<>> ELSE [i \in 1..Len(Head(pvs)[2]) |-> <<Head(pvs)[1], Head(pvs)[2][i]>>] \o Flat(Tail(pvs))
Edits == Flat(PV)
NE == Len(Edits)

Init == depth = 0 /\ \E i \in 1..Len(Starts) : url = ParseUrl(Starts[i]).v
Next == /\ depth < DEPTH
        /\ depth' = depth + 1
        /\ \E e \in 1..NE : LET r == PSet(Edits[e][1], url, Edits[e][2]) IN r.k = "ok" /\ r.v # url /\ url' = r.v
Spec == Init /\ [][Next]_<<url, depth>>
View == url

Idx == <<-3, -2, -1, 0, 1, 2, 3>>
RECURSIVE Idxd(_)
Idxd(ks) == IF ks = <<>> THEN <<>> ELSE [i \in 1..Len(Idx) |-> X(Head(ks), Idx[i])] \o Idxd(Tail(ks))
Plain(ks) == [i \in 1..Len(ks) |-> K(ks[i])]
Reads == Plain(<<"Whole", "Scheme", "Host", "HostWithoutWWWDotPrefixAndFqdnPeriod", "Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod", "Port">>)
   \o Idxd(<<"DomainSegment", "SubdomainSegment", "DomainSuffixSegment">>)
   \o (IF MODE = "host" THEN <<>> ELSE Plain(<<"Username", "Password", "Path", "Query", "Fragment", "NextPathSegment", "NextDomainSegment", "NextSubdomainSegment", "NextDomainSuffixSegment">>) \o Idxd(<<"PathSegment">>)
        \o <<X("QueryParam", [name |-> "x", index |-> 0]), X("QueryParam", [name |-> "x", index |-> 1]), X("QueryParam", [name |-> "a", index |-> 1]), X("QueryParam", [name |-> "b", index |-> 0])>>)

(* ------------------------------- laws ---------------------------------- *)
Reparses == LET p == ParseUrl(Serialize(url)) IN p.k = "out" \/ (p.k = "ok" /\ p.v = url)
O1(o) == IF o = <<>> THEN <<>> ELSE <<o[1]>>
Pieces(os) == LET ks == SelectSeq(os, LAMBDA o : o # <<>>) IN JoinS([i \in 1..Len(ks) |-> ks[i][1]], ".")
FactLaw ==
    FactsKnown(url) =>
      IF ~IsDomain(url) THEN \A f \in {"Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod"} : PGet(K(f), url) = UOk(<<>>)
      ELSE /\ FDomain(url)[1] \o (IF IsFqdn(url) THEN "." ELSE "") = HStr(url)
           /\ FDomain(url)[1] = Pieces(<<FSubdomain(url), FReg(url)>>) \/ FReg(url) = <<>>
           /\ FDomain(url)[1] = Pieces(<<FNotSuffix(url), FSuffix(url)>>)
           /\ FDomain(url)[1] = Pieces(<<FSubdomain(url), FMiddle(url), FSuffix(url)>>)
           /\ (FReg(url) = <<>>) = (FMiddle(url) = <<>>)
           /\ FSuffix(url) # <<>>
Base7 == <<"Scheme", "Username", "Password", "Host", "Port", "Path", "Query", "Fragment">>
Of(p) == CASE p.k \in {"Scheme", "Username", "Password", "Port", "Path", "Query", "Fragment", "Whole"} -> p.k
           [] p.k = "QueryParam" -> "Query"
           [] p.k \in {"PathSegment", "BeforePathSegment", "AfterPathSegment", "NextPathSegment"} -> "Path"
           [] OTHER -> "Host"
\* a part set to a value: only that part changes; what it then reads as, set again, changes nothing
Say(p, to, r, ok) == ok \/ (PrintT(<<"BROKEN", Serialize(url), p, to, Serialize(r.v)>>) /\ FALSE)
EditLaw ==
    \A e \in 1..NE :
      LET p == Edits[e][1]
          to == Edits[e][2]
          r == PSet(p, url, to) IN
      r.k = "ok" => Say(p, to, r,
        /\ (Of(p) # "Whole" => \A q \in 1..Len(Base7) :
              (Base7[q] # Of(p) /\ ~(Of(p) = "Scheme" /\ Base7[q] = "Port")
                 /\ ~(Of(p) = "Host" /\ r.v.host = <<>>)                       \* a URL without a host has no user, password and port
                 /\ ~(Of(p) \in {"Query", "Fragment"} /\ url.cab /\ Base7[q] = "Path"))      \* trailing spaces of opaque paths
              => PGet(K(Base7[q]), r.v) = PGet(K(Base7[q]), url))
        /\ (p.k \in {"Scheme", "Username", "Password", "Host", "Port", "Path", "Query", "Fragment", "Domain", "Subdomain", "NotDomainSuffix", "DomainMiddle", "RegDomain"} =>
              LET g == PGet(p, r.v) IN
              g.k = "ok" =>
                /\ (to = <<>> /\ p.k \notin {"RegDomain", "DomainMiddle"} => g.v = <<>>)
                /\ (p.k = "RegDomain" => g.v = to /\ to \notin {<<>>, <<"">>}) => LET s == PSet(p, r.v, g.v) IN s.k = "ok" => s.v = r.v)
        /\ (p.k \in {"Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix"} /\ FactsKnown(r.v) /\ IsDomain(r.v) /\ (to = <<>> \/ (to[1] # "" /\ ~EndsWith(to[1], "."))) => IsFqdn(r.v) = IsFqdn(url)))
Emitted ==
    /\ \A i \in 1..Len(Reads) : Emit(Doc(Serialize(url), <<>>, <<>>, <<StepN("pget", Reads[i])>>))
    /\ \A e \in 1..NE : Emit(Doc(Serialize(url), <<>>, <<>>, <<StepD("pset", Edits[e][1], "", "", Edits[e][2])>>))
=============================================================================
