------------------------------ MODULE MC_Notation ------------------------------
(***************************************************************************)
(* Documents that are a configuration's pieces, and documents that nearly  *)
(* are.  Initially: for every type, every variant in its shortest and in   *)
(* its longest form.  A transition changes one place of the document.      *)
(***************************************************************************)
EXTENDS Notation
CONSTANTS CHANGES, DEEP
VARIABLES typ, doc, n

RECURSIVE Least(_), LeastRef(_)
\* the smallest document of a type
Least(T) == CASE T.t \in {"text", "char"} -> SStr("x")
              [] T.t = "url" -> SStr("http://127.0.0.1:9/")
              [] T.t = "method" -> SStr("GET")
              [] T.t = "bool" -> <<"bool", FALSE>>
              [] T.t \in {"int", "num"} -> <<"num", 2>>
              [] T.t = "open" -> T.like[1]
              [] T.t = "headers" -> Obj(<<<<"x", SStr("y")>>>>)
              [] T.t = "parts" -> Obj(<<<<"x", <<"arr", <<SStr("a"), SStr("b")>>>>>>, <<"y", <<"arr", <<SStr("")>>>>>>>>)
              [] T.t = "opt" -> Least(T.of)
              [] T.t = "list" -> <<"arr", <<Least(T.of)>>>>
              [] T.t = "set" -> <<"arr", <<SStr("x"), SStr("y")>>>>
              [] T.t = "dict" -> Obj(<<<<"x", Least(T.of)>>>>)
              [] T.t = "ref" -> LeastRef(Sch[T.n])
LeastRef(D) == IF D.bare \in {"variant", "field", "path"} THEN (IF "leasts" \in DOMAIN D THEN SStr(D.leasts) ELSE SStr("x"))
               ELSE IF D.kind = "enum" THEN (LET u == SelectSeq(D.variants, LAMBDA x : x.form = "unit") IN IF u # <<>> THEN SStr(u[1].n) ELSE Obj(<<<<D.variants[1].n, Least(D.variants[1].of)>>>>))
               ELSE Obj([i \in 1..Len(SelectSeq(D.fields, LAMBDA f : f.omit = "no" /\ ~f.flat)) |-> LET f == SelectSeq(D.fields, LAMBDA g : g.omit = "no" /\ ~g.flat)[i] IN <<f.n, Least(f.of)>>])

\* a flattened field, written out inside the object
Inlined(F) == LET D == Sch[F.of.n] IN
              IF D.kind = "enum" THEN Norm(F.of, LeastRef(D)).d[2]
              ELSE [i \in 1..Len(D.fields) |-> <<D.fields[i].n, Least(D.fields[i].of)>>]
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Full(fs) == Concat([i \in 1..Len(fs) |-> IF fs[i].flat THEN Inlined(fs[i]) ELSE <<<<fs[i].n, Least(fs[i].of)>>>>])
FlatNeeded(F) == LET D == Sch[F.of.n] IN IF D.kind = "enum" THEN Inlined(F)
                 ELSE Concat([i \in 1..Len(D.fields) |-> IF D.fields[i].omit = "no" THEN <<<<D.fields[i].n, Least(D.fields[i].of)>>>> ELSE <<>>])
Short(fs) == Concat([i \in 1..Len(fs) |-> IF fs[i].flat THEN FlatNeeded(fs[i]) ELSE IF fs[i].omit = "no" THEN <<<<fs[i].n, Least(fs[i].of)>>>> ELSE <<>>])
Payloads(V) == CASE V.form = "unit" -> {Null} [] V.form = "new" -> {Least(V.of)} [] V.form = "fields" -> {Obj(Short(V.fields)), Obj(Full(V.fields))}
Seeds(D) == (IF D.kind = "struct" THEN {Obj(Short(D.fields)), Obj(Full(D.fields))}
             ELSE UNION {{Obj(<<<<D.variants[i].n, p>>>>) : p \in Payloads(D.variants[i])} \cup {SStr(D.variants[i].n)} : i \in 1..Len(D.variants)}
                  \cup (IF D.loose = <<>> THEN {} ELSE {Obj(Short(D.loose)), Obj(Full(D.loose))}))
            \cup {SStr("x"), Null}
            \cup (IF D.bare = "words" THEN {SStr(D.words[i][1]) : i \in 1..Len(D.words)} ELSE {})

Init == /\ typ \in RangeOf(In.types)
        /\ doc \in Seeds(Sch[typ])
        /\ n = 0
Next == /\ n < CHANGES
        /\ doc' \in Alter(doc, DEEP)
        /\ typ' = typ /\ n' = n + 1
Spec == Init /\ [][Next]_<<typ, doc, n>>
T0 == [t |-> "ref", n |-> typ]
R == Norm(T0, doc)
\* a spelled-out document is its own meaning
Fixed == R.v = "ok" => Norm(T0, R.d) = R
\* an unknown key never changes a meaning, nor makes a document one, unless the key selects a variant
Stray == (Is(doc, "obj") /\ Sch[typ].kind = "struct" /\ R.v # "?") => LET q == Norm(T0, Obj(doc[2] \o <<<<"zz", Null>>>>)) IN q = R
\* what needs no choice at the top is accepted there in only one way: never as two variants
Emitted == R.v = "?" \/ Emit([t |-> typ, d |-> doc, v |-> R.v, w |-> R.d])
=============================================================================
