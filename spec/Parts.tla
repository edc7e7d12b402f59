-------------------------------- MODULE Parts -------------------------------
(***************************************************************************)
(* URL parts: what every part reads as and what setting it does.           *)
(*   PGet(part, url)     ok <<>> (absent) / ok <<value>> / out             *)
(*   PSet(part, url, to) ok url / err names / out;  to = <<>> for absent   *)
(***************************************************************************)
EXTENDS Lang

Opt1(x, F(_)) == IF x = <<>> THEN <<>> ELSE F(x[1])

\* segment edits: Before / At / After the n-th segment (negative from the end)
SetRel(segs, n, rel, to) ==
    LET k == NegIndex(n, Len(segs)) IN
    IF k = -1 THEN (IF to = <<>> THEN UOk(segs) ELSE UErr(<<"SegmentNotFound">>))
    ELSE IF to = <<>> THEN UOk(IF rel = "At" THEN RemoveAtSeq(segs, k) ELSE segs)
    ELSE UOk(CASE rel = "Before" -> InsertAtSeq(segs, k, to[1])
               [] rel = "At"     -> [segs EXCEPT ![k + 1] = to[1]]
               [] rel = "After"  -> InsertAtSeq(segs, k + 1, to[1]))

QParam(u, sel) ==           \* ok <<>> / <<value>>
    IF u.query = <<>> THEN UOk(<<>>)
    ELSE LET ps == QPairs(u.query[1])
             ms == SelectSeq(ps, LAMBDA p : p[1] = sel.name) IN
         IF ~PairsUtf8(ps) THEN UOut
         ELSE UOk(IF sel.index < Len(ms) THEN <<ms[sel.index + 1][2]>> ELSE <<>>)
QPairsOf(u) == IF u.query = <<>> THEN <<>> ELSE QPairs(u.query[1])
\* a query made of the given pairs; none when there is no pair
WithPairs(u, ps) == SetQuery(u, IF ps = <<>> THEN <<>> ELSE <<SerPairs(ps)>>)
QParamSet(u, sel, to) ==
    LET ps == QPairsOf(u)
        ix == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ps[i][1] = sel.name) IN
    IF ~PairsUtf8(ps) THEN UOut
    ELSE IF sel.index < Len(ix) THEN
        LET i == ix[sel.index + 1] IN
        UOk(WithPairs(u, IF to = <<>> THEN RemoveAtSeq(ps, i - 1) ELSE [ps EXCEPT ![i] = <<@[1], to[1]>>]))
    ELSE IF to = <<>> THEN UOk(WithPairs(u, ps))
    ELSE IF sel.index = Len(ix) THEN UOk(WithPairs(u, Append(ps, <<sel.name, to[1]>>)))
    ELSE UErr(<<"SetQueryParamError", "QueryParamIndexNotFound">>)

NeedsFacts == {"DomainSegment", "SubdomainSegment", "DomainSuffixSegment", "Domain", "Subdomain", "RegDomain",
    "NotDomainSuffix", "DomainMiddle", "DomainSuffix", "FqdnPeriod",
    "BeforeDomainSegment", "AfterDomainSegment", "NextDomainSegment",
    "BeforeSubdomainSegment", "AfterSubdomainSegment", "NextSubdomainSegment",
    "BeforeDomainSuffixSegment", "AfterDomainSuffixSegment", "NextDomainSuffixSegment"}
NoRead == {"BeforeDomainSegment", "AfterDomainSegment", "NextDomainSegment",
    "BeforeSubdomainSegment", "AfterSubdomainSegment", "NextSubdomainSegment",
    "BeforeDomainSuffixSegment", "AfterDomainSuffixSegment", "NextDomainSuffixSegment",
    "BeforePathSegment", "AfterPathSegment", "NextPathSegment"}
HostStr(u) == IF u.host = <<>> THEN <<>> ELSE <<u.host[1].s>>
NoWww(h) == StripSuffixOr(StripPrefixOr(h, "www."), ".")
SegGet(o, sep, n) == IF o = <<>> THEN <<>> ELSE NegNth(Split(o[1], sep), n)

PGet(p, u) ==
    IF p.k \in NoRead THEN UOk(<<>>)
    ELSE IF p.k \in NeedsFacts /\ ~FactsKnown(u) THEN UOut
    ELSE IF p.k = "QueryParam" THEN QParam(u, p.x)
    ELSE UOk(
    CASE p.k = "Whole" -> <<Serialize(u)>>
      [] p.k = "Scheme" -> <<u.scheme>>
      [] p.k = "Username" -> <<u.user>>
      [] p.k = "Password" -> IF u.pass = "" THEN <<>> ELSE <<u.pass>>
      [] p.k = "Host" -> HostStr(u)
      [] p.k = "HostWithoutWWWDotPrefixAndFqdnPeriod" -> Opt1(HostStr(u), LAMBDA h : <<NoWww(h)>>)
      [] p.k = "Domain" -> FDomain(u)
      [] p.k = "Subdomain" -> FSubdomain(u)
      [] p.k = "RegDomain" -> FReg(u)
      [] p.k = "NotDomainSuffix" -> FNotSuffix(u)
      [] p.k = "DomainMiddle" -> FMiddle(u)
      [] p.k = "DomainSuffix" -> FSuffix(u)
      [] p.k = "FqdnPeriod" -> FFqdn(u)
      [] p.k = "DomainSegment" -> SegGet(FDomain(u), ".", p.x)
      [] p.k = "SubdomainSegment" -> SegGet(FSubdomain(u), ".", p.x)
      [] p.k = "DomainSuffixSegment" -> SegGet(FSuffix(u), ".", p.x)
      [] p.k = "Port" -> Opt1(u.port, LAMBDA n : <<Num(n)>>)
      [] p.k = "Path" -> <<u.path>>
      [] p.k = "PathSegment" -> Opt1(PathSegments(u), LAMBDA ss : NegNth(ss, p.x))
      [] p.k = "Query" -> u.query
      [] p.k = "Fragment" -> u.frag)

PErr(pre, r) == IF r.k = "err" THEN UErr(pre \o r.e) ELSE r
\* rebuild the domain from optional pieces, keeping the fully-qualified dot
Rebuild(u, pieces, pre) ==
    LET ss == [i \in 1..Len(SelectSeq(pieces, LAMBDA o : o # <<>>)) |-> SelectSeq(pieces, LAMBDA o : o # <<>>)[i][1]]
        d == JoinS(ss, ".") \o (IF IsFqdn(u) THEN "." ELSE "") IN
    PErr(pre \o <<"SetDomainHostError">>, SetDomainHost(u, d))
SetDomainParts(p, u, to) ==
    LET nm == "Set" \o p.k \o "Error" IN
    IF p.k = "Domain" THEN
        IF to = <<>> THEN PErr(<<"SetDomainError", "SetHostError", "SetHostError">>, SetHost(u, <<>>))
        ELSE PErr(<<"SetDomainError", "SetDomainHostError">>,
                  SetDomainHost(u, IF IsFqdn(u) THEN to[1] \o "." ELSE to[1]))
    ELSE IF ~IsDomain(u) THEN UErr(<<nm, "HostIsNotADomain">>)
    ELSE CASE p.k = "Subdomain" ->
                IF to # <<>> /\ FReg(u) = <<>> THEN UErr(<<nm, "MissingRegDomain">>)
                ELSE Rebuild(u, <<to, FReg(u)>>, <<nm>>)
           [] p.k = "NotDomainSuffix" ->
                IF to # <<>> /\ FSuffix(u) = <<>> THEN UErr(<<nm, "MissingDomainSuffix">>)
                ELSE Rebuild(u, <<to, FSuffix(u)>>, <<nm>>)
           [] p.k = "DomainMiddle" ->
                IF to # <<>> /\ FSuffix(u) = <<>> THEN UErr(<<nm, "MissingDomainSuffix">>)
                ELSE Rebuild(u, <<FSubdomain(u), to, FSuffix(u)>>, <<nm>>)
           [] p.k = "RegDomain" -> Rebuild(u, <<FSubdomain(u), to>>, <<nm>>)
           [] p.k = "DomainSuffix" -> Rebuild(u, <<FNotSuffix(u), to>>, <<nm>>)
\* u16 in decimal: <<>> or <<n>>
ParseU16(s0) ==
    LET s == IF StartsWith(s0, "+") THEN From(s0, 2) ELSE s0
        z == FirstIdx(1, Len(s), LAMBDA i : Ch(s, i) # "0")
        v == IF z = 0 THEN "0" ELSE From(s, z) IN
    IF s = "" \/ ~AllIn(s, Digits) \/ Len(v) > 5 THEN <<>>
    ELSE IF DecVal(v) > 65535 THEN <<>> ELSE <<DecVal(v)>>
\* the segment-relative parts: <<whole part, relation, index>>
SegPart(p) ==
    CASE p.k = "BeforeDomainSegment" -> <<"Domain", "Before", p.x>>
      [] p.k = "DomainSegment" -> <<"Domain", "At", p.x>>
      [] p.k = "AfterDomainSegment" -> <<"Domain", "After", p.x>>
      [] p.k = "NextDomainSegment" -> <<"Domain", "After", -1>>
      [] p.k = "BeforeSubdomainSegment" -> <<"Subdomain", "Before", p.x>>
      [] p.k = "SubdomainSegment" -> <<"Subdomain", "At", p.x>>
      [] p.k = "AfterSubdomainSegment" -> <<"Subdomain", "After", p.x>>
      [] p.k = "NextSubdomainSegment" -> <<"Subdomain", "After", -1>>
      [] p.k = "BeforeDomainSuffixSegment" -> <<"DomainSuffix", "Before", p.x>>
      [] p.k = "DomainSuffixSegment" -> <<"DomainSuffix", "At", p.x>>
      [] p.k = "AfterDomainSuffixSegment" -> <<"DomainSuffix", "After", p.x>>
      [] p.k = "NextDomainSuffixSegment" -> <<"DomainSuffix", "After", -1>>
      [] p.k = "BeforePathSegment" -> <<"Path", "Before", p.x>>
      [] p.k = "PathSegment" -> <<"Path", "At", p.x>>
      [] p.k = "AfterPathSegment" -> <<"Path", "After", p.x>>
      [] OTHER -> <<>>
\* the path made of the given segments ("/" followed by the segments)
SetPathSegs(u, segs) ==
    IF segs = <<>> \/ segs = <<"">> THEN SetPath(u, "/")
    ELSE SetPath(u, "/" \o JoinS(segs, "/"))

PSet(p, u, to) ==
    LET sg == SegPart(p) IN
    IF p.k \in NeedsFacts /\ ~FactsKnown(u) THEN UOut
    ELSE IF sg # <<>> /\ sg[1] = "Path" THEN
        IF PathSegments(u) = <<>> THEN UErr(<<"UrlDoesNotHavePathSegments">>)
        ELSE LET r == SetRel(PathSegments(u)[1], sg[3], sg[2], to) IN
             IF r.k # "ok" THEN r ELSE SetPathSegs(u, r.v)
    ELSE IF sg # <<>> THEN
        LET o == CASE sg[1] = "Domain" -> FDomain(u) [] sg[1] = "Subdomain" -> FSubdomain(u) [] OTHER -> FSuffix(u) IN
        IF o = <<>> THEN UErr(<<"No" \o sg[1]>>)
        ELSE LET r == SetRel(Split(o[1], "."), sg[3], sg[2], to) IN
             IF r.k # "ok" THEN r
             ELSE LET j == JoinS(r.v, ".") IN
                  SetDomainParts([k |-> sg[1]], u, IF j = "" THEN <<>> ELSE <<j>>)
    ELSE
    CASE p.k = "Whole" -> IF to = <<>> THEN UErr(<<"WholeCannotBeNone">>) ELSE PErr(<<"UrlParseError">>, ParseUrl(to[1]))
      [] p.k = "Scheme" -> IF to = <<>> THEN UErr(<<"SchemeCannotBeNone">>) ELSE PErr(<<"SetSchemeError">>, SetScheme(u, to[1]))
      [] p.k = "Username" -> IF to = <<>> THEN UErr(<<"UsernameCannotBeNone">>) ELSE PErr(<<"SetUsernameError">>, SetUser(u, to[1]))
      [] p.k = "Password" -> PErr(<<"SetPasswordError">>, SetPass(u, to))
      [] p.k = "Host" -> PErr(<<"SetHostError", "SetHostError">>, SetHost(u, to))
      [] p.k = "HostWithoutWWWDotPrefixAndFqdnPeriod" ->
            PErr(<<"SetHostError", "SetHostError">>, SetHost(u, Opt1(to, LAMBDA h : <<NoWww(h)>>)))
      [] p.k \in {"Domain", "Subdomain", "RegDomain", "NotDomainSuffix", "DomainMiddle", "DomainSuffix"} ->
            SetDomainParts(p, u, to)
      [] p.k = "FqdnPeriod" ->
            IF to # <<>> /\ to[1] # "." THEN UErr(<<"FqdnPeriodMustBeNoneOrPeriod">>)
            ELSE IF u.host = <<>> THEN UErr(<<"SetFqdnPeriodError", "NoHost">>)
            ELSE IF ~IsDomain(u) THEN UErr(<<"SetFqdnPeriodError", "HostIsNotADomain">>)
            ELSE IF (to # <<>>) = IsFqdn(u) THEN UOk(u)
            ELSE IF to # <<>> THEN SetHost(u, <<HStr(u) \o ".">>)
            ELSE PErr(<<"SetFqdnPeriodError", "SetHostError", "SetHostError">>, SetHost(u, <<Upto(HStr(u), Len(HStr(u)) - 1)>>))
      [] p.k = "Port" ->
            IF to = <<>> THEN PErr(<<"SetPortError">>, SetPort(u, <<>>))
            ELSE IF ParseU16(to[1]) = <<>> THEN UErr(<<"InvalidPort">>)
            ELSE PErr(<<"SetPortError">>, SetPort(u, ParseU16(to[1])))
      [] p.k = "Path" -> IF to = <<>> THEN UErr(<<"PathCannotBeNone">>) ELSE SetPath(u, to[1])
      [] p.k = "NextPathSegment" ->
            IF to = <<>> THEN UOk(u)
            ELSE IF PathSegments(u) = <<>> THEN (IF u.cab THEN UErr(<<"UrlDoesNotHavePathSegments">>) ELSE UOut)
            ELSE UOk(PushSegment(u, to[1]))
      [] p.k = "Query" -> UOk(SetQuery(u, to))
      [] p.k = "QueryParam" -> QParamSet(u, p.x, to)
      [] p.k = "Fragment" -> UOk(SetFrag(u, to))
=============================================================================
