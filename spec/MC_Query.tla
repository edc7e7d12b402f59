------------------------------- MODULE MC_Query ------------------------------
(***************************************************************************)
(* Query edits (C12): every query of up to NQ parameters, taken from forms *)
(* with duplicate, encoded, valueless and empty names, and every edit by   *)
(* name, set, matcher and index.                                           *)
(***************************************************************************)
EXTENDS MC
CONSTANTS NQ, NTOK
VARIABLE cs
Toks == <<"a=1", "a=2", "%61=3", "b", "", "a+b=x", "=v", "b=%26", "A=1", "a", "a%20b=", "c=%C3%A9&a=+", "%E9=1">>
NT == IF NTOK < Len(Toks) THEN NTOK ELSE Len(Toks)
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE NT * Pow(n - 1)
QuerySeq(n, i) == LET d == Digits0(i, [j \in 1..n |-> NT]) IN [j \in 1..n |-> Toks[d[j]]]
Names == <<Str("a"), Str("b"), Str("a b"), Str(""), Str("%61"), SNone, SErr>>
Sets == <<<<>>, <<"a">>, <<"b", "a b">>, <<"A", "">>, <<"a", "b", "c", "", "a b">>>>
Mats == <<K("Always"), K("Never"), X("Is", Str("a")), X("Not", X("Is", Str("a"))), X("Is", Str("a b")), X("Error", "e"), X("Is", SNone), [k |-> "If", if |-> X("Is", Str("b")), then |-> X("Error", "e"), else |-> X("Is", Str(""))],
          [k |-> "Contains", value |-> Str("b"), where |-> K("End")]>>
QP(n, i) == X("QueryParam", [name |-> n, index |-> i])
Sels == <<QP("a", 0), QP("a", 1), QP("a", 2), QP("b", 0), QP("b", 1), QP("a b", 0), QP("", 0), QP("z", 0), QP("z", 1), QP("%61", 0)>>
Vals == <<SNone, Str(""), Str("n v&=+%"), Str("1")>>
Cross(ls, F(_)) == [i \in 1..Prod([j \in 1..Len(ls) |-> Len(ls[j])]) |->
    LET d == Digits0(i - 1, [j \in 1..Len(ls) |-> Len(ls[j])]) IN F([j \in 1..Len(ls) |-> ls[j][d[j]]])]
M(n) == <<"mapper", n>>
Steps == <<M(K("RemoveQuery"))>> \o [i \in 1..Len(Names) |-> M(X("RemoveQueryParam", Names[i]))]
   \o Cross(<<<<"RemoveQueryParams", "AllowQueryParams">>, Sets>>, LAMBDA a : M(X(a[1], a[2])))
   \o Cross(<<<<"RemoveQueryParamsMatching", "AllowQueryParamsMatching">>, Mats>>, LAMBDA a : M(X(a[1], a[2])))
   \o Cross(<<Sels, Vals>>, LAMBDA a : M(SetP(a[1], a[2])))
   \o Cross(<<Sels, <<AppendM("!"), X("Error", "e")>>>>, LAMBDA a : M(ModP(a[1], a[2])))
   \o Cross(<<<<"CopyPart", "MovePart">>, <<QP("a", 0), QP("a", 1), K("Fragment")>>, <<QP("a", 0), QP("z", 0), K("Query")>>>>, LAMBDA a : M([k |-> a[1], from |-> a[2], to |-> a[3]]))
   \o [i \in 1..4 |-> M(X("GetUrlFromQueryParam", Names[i]))]
   \o [i \in 1..Len(Sels) |-> <<"pget", Sels[i]>>] \o [i \in 1..7 |-> <<"cond", X("QueryHasParam", <<"a", "b", "a b", "", "A", "%61", "z">>[i])>>]
   \o Cross(<<<<QP("a", 0), QP("b", 0), QP("a", 1)>>, <<SNone, Str(""), Str("1")>>>>, LAMBDA a : <<"cond", [k |-> "PartIs", part |-> a[1], value |-> a[2]]>>)
   \o <<<<"src", [k |-> "ExtractPart", value |-> SPart(K("Whole")), part |-> QP("a", 0)]>>>>
Bases == <<"https://www.example.com/p", "mailto:x">>
Special == <<"https://www.example.com/p", "https://www.example.com/p#f", "https://www.example.com/?#", "foo:/x?a=1&b#c", "https://www.example.com/?a=https%3A%2F%2Fexample.org%2F&b=x", "https://www.example.com/?a=https://example.org/?q&a",
             "https://www.example.com/?a='\"&b=~*&a b=1", "https://www.example.com/?&&a=1&&">>
Init == \/ \E n \in 1..NQ, s \in 1..Len(Steps) : \E i \in 0..(Pow(n) - 1) : cs = <<"q", n, i, s>>
        \/ \E u \in 1..Len(Special), s \in 1..Len(Steps) : cs = <<"u", u, s>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Url == IF cs[1] = "u" THEN Special[cs[2]] ELSE Bases[IF cs[3] % 7 = 6 THEN 2 ELSE 1] \o "?" \o JoinS(QuerySeq(cs[2], cs[3]), "&") \o (IF cs[3] % 2 = 0 THEN "#f" ELSE "")
Step == Steps[IF cs[1] = "u" THEN cs[3] ELSE cs[4]]
Node == Step[2]
U == UrlOf(Url)
E0 == EnvOf(U, NoSp0, <<>>)
Pairs(u) == IF u.query = <<>> THEN <<>> ELSE QPairs(u.query[1])
\* positions of the parameters of a name
At(ps, nm) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ps[i][1] = nm)
Drop(ps, k) == [i \in 1..(Len(ps) - 1) |-> ps[IF i < k THEN i ELSE i + 1]]
Law ==
    Step[1] # "mapper" \/
    LET n == Node
        r == Mapper(n, E0, C0)
        old == Pairs(U)
        new == Pairs(r.v.url)
        Kept(P(_)) == new = SelectSeq(old, LAMBDA p : P(p)) IN
    \/ r.k = "out"
    \/ /\ r.k = "err" => r.v = St(E0)
       /\ r.k = "ok" =>
            /\ r.v.sp = E0.sp
            \* without a query nothing happens, unless a parameter is added; without parameters there is no query
            /\ U.query = <<>> /\ n.k \in {"RemoveQuery", "RemoveQueryParam", "RemoveQueryParams", "AllowQueryParams", "RemoveQueryParamsMatching", "AllowQueryParamsMatching"} => r.v.url = U
            /\ n.k \in {"RemoveQueryParam", "RemoveQueryParams", "AllowQueryParams", "RemoveQueryParamsMatching", "AllowQueryParamsMatching"} /\ new = <<>> /\ U.query # <<>> => r.v.url.query = <<>>
            /\ n.k = "RemoveQueryParam" /\ n.x.k = "String" => Kept(LAMBDA p : p[1] # n.x.x)
            /\ n.k = "RemoveQueryParams" => Kept(LAMBDA p : p[1] \notin RangeOf(n.x))
            /\ n.k = "AllowQueryParams" => Kept(LAMBDA p : p[1] \in RangeOf(n.x))
            /\ n.k = "RemoveQueryParamsMatching" => Kept(LAMBDA p : ~Mat(n.x, p[1], E0, C0).v)
            /\ n.k = "AllowQueryParamsMatching" => Kept(LAMBDA p : Mat(n.x, p[1], E0, C0).v)
            /\ n.k = "SetPart" => LET sel == n.part.x
                                      ix == At(old, sel.name) IN
                 CASE n.value.k = "None" /\ sel.index < Len(ix) -> new = Drop(old, ix[sel.index + 1])
                   [] n.value.k = "None" -> new = old
                   [] sel.index < Len(ix) -> Len(new) = Len(old) /\ \A i \in 1..Len(old) : new[i] = IF i = ix[sel.index + 1] THEN <<old[i][1], n.value.x>> ELSE old[i]
                   [] OTHER -> sel.index = Len(ix) /\ new = Append(old, <<sel.name, n.value.x>>)
            /\ n.k \notin {"GetUrlFromQueryParam", "CopyPart", "MovePart"} => r.v.url = [U EXCEPT !.query = r.v.url.query, !.path = r.v.url.path]
Emitted == Emit(Doc(Url, <<>>, <<>>, <<StepN(Step[1], Node)>>))
=============================================================================
