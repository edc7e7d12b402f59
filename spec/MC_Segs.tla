------------------------------- MODULE MC_Segs -------------------------------
(***************************************************************************)
(* Segments of URL parts (C11): every list (path, domain, subdomain,       *)
(* suffix), every index from both ends, read, set, insert before and       *)
(* after, append, remove.                                                  *)
(***************************************************************************)
EXTENDS MC
CONSTANTS IMAX          \* indices -IMAX..IMAX
VARIABLE cs
PathUrls == <<"https://example.com/", "https://example.com/a", "https://example.com/a/", "https://example.com//", "https://example.com/a//b", "https://example.com/a/b/c", "https://example.com/a/b/c/d?q#f", "https://example.com///", "foo:/a/b", "foo://h/a",
              "mailto:a/b", "foo://h", "https://example.com/%2F/x%20y/"  >>
HostUrls == <<"https://example.com/", "https://www.example.co.uk/", "http://a.b.sub.example.com./x", "https://com/", "https://co.uk/", "https://127.0.0.1/", "https://[::1]/", "mailto:x", "foo://foo.test/", "https://a.example.github.io/", "https://localhost/">>
Idx == [i \in 1..(2 * IMAX + 1) |-> i - IMAX - 1]
PVals == <<<<>>, <<"x">>, <<"">>, <<"y/z">>, <<"..">>>>
HVals == <<<<>>, <<"x">>, <<"">>, <<"y.z">>, <<"bad host">>>>
Fams == <<"Path", "Domain", "Subdomain", "DomainSuffix">>
Rels == <<"", "Before", "After", "Next">>
PartOf(f, r, i) == IF r = "Next" THEN K("Next" \o f \o "Segment") ELSE X(r \o f \o "Segment", i)
UrlsOf(f) == IF f = 1 THEN PathUrls ELSE HostUrls
ValsOf(f) == IF f = 1 THEN PVals ELSE HVals
Init == \/ \E f \in 1..4, r \in 1..3, i \in 1..Len(Idx) : \E u \in 1..Len(UrlsOf(f)), v \in 1..Len(ValsOf(f)) : cs = <<"set", f, r, i, u, v>>
        \/ \E f \in 1..4 : \E u \in 1..Len(UrlsOf(f)), v \in 1..Len(ValsOf(f)) : cs = <<"set", f, 4, 1, u, v>>
        \/ \E f \in 1..4, r \in 1..4, i \in 1..Len(Idx) : \E u \in 1..Len(UrlsOf(f)) : (r < 4 \/ i = 1) /\ cs = <<"get", f, r, i, u>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Url == UrlsOf(cs[2])[cs[5]]
Part == PartOf(Fams[cs[2]], Rels[cs[3]], Idx[cs[4]])
To == ValsOf(cs[2])[cs[6]]
U == UrlOf(Url)
ListOf(f, u) == IF f = 1 THEN PathSegments(u)
                ELSE LET o == PGet(K(Fams[f]), u) IN IF o.k # "ok" THEN <<>> ELSE IF o.v = <<>> THEN <<>> ELSE <<Split(o.v[1], ".")>>
\* where the segment is, counted from 0; -1 outside
At(i, n) == IF i >= n \/ i < -n THEN -1 ELSE IF i < 0 THEN n + i ELSE i
\* the law, by positions: every old segment stays where it was, shifted by one behind an insertion or removal
Law ==
    LET f == cs[2]
        l == ListOf(f, U)
        i == IF Rels[cs[3]] = "Next" THEN -1 ELSE Idx[cs[4]] IN
    IF cs[1] = "get" THEN
        LET r == PGet(Part, U) IN
        /\ r.k = "ok"
        /\ Rels[cs[3]] = "" => r.v = IF l = <<>> THEN <<>> ELSE IF At(i, Len(l[1])) = -1 THEN <<>> ELSE <<l[1][At(i, Len(l[1])) + 1]>>
    ELSE LET r == PSet(Part, U, To)
             old == l[1]
             n == Len(old)
             p == At(i, n)
             nl == ListOf(f, r.v)
             new == nl[1] IN
        /\ r.k \in {"ok", "err", "out"}
        /\ l = <<>> => r.k = "err" \/ (f = 1 /\ Rels[cs[3]] = "Next" /\ (To = <<>> \/ r.k = "out"))
        \* a value outside the list is an error; removing there is nothing
        /\ l # <<>> /\ p = -1 => IF To = <<>> THEN r.k = "ok" /\ r.v = U ELSE r.k = "err"
        \* plain values
        /\ f \in {1, 2} /\ l # <<>> /\ p # -1 /\ r.k = "ok" /\ nl # <<>> /\ (To = <<>> \/ To = <<"x">>) /\ ~HasStr(Url, "///") /\ ~(f = 1 /\ Rels[cs[3]] = "Next") /\ ~(To = <<>> /\ n = 1)
             /\ (\A j \in 1..n : old[j] # "") =>
             CASE To = <<>> /\ Rels[cs[3]] = "" -> Len(new) = n - 1 /\ \A j \in 1..n : j # p + 1 => new[IF j < p + 1 THEN j ELSE j - 1] = old[j]
               [] To = <<>> -> new = old
               [] Rels[cs[3]] = "" -> Len(new) = n /\ \A j \in 1..n : new[j] = IF j = p + 1 THEN "x" ELSE old[j]
               [] OTHER -> LET q == IF Rels[cs[3]] = "Before" THEN p + 1 ELSE p + 2 IN
                           Len(new) = n + 1 /\ new[q] = "x" /\ \A j \in 1..n : new[IF j < q THEN j ELSE j + 1] = old[j]
Emitted == Emit(Doc(Url, <<>>, <<>>, <<StepD(IF cs[1] = "get" THEN "pget" ELSE "pset", Part, "", "", IF cs[1] = "get" THEN <<>> ELSE To)>>))
=============================================================================
