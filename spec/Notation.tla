------------------------------- MODULE Notation -------------------------------
(***************************************************************************)
(* The notations of a configuration (C20).                                 *)
(*                                                                         *)
(* A document is a JSON value, written here as                             *)
(*   <<"null">>  <<"bool", b>>  <<"num", n>>  <<"str", s>>                 *)
(*   <<"arr", <<d1, ...>>>>  <<"obj", <<<<key, d>>, ...>>>>                *)
(* (an object keeps the order and the repetitions of its keys).            *)
(*                                                                         *)
(* In.schema names every type of the language with its variants, fields,   *)
(* defaults and shorthands. Norm(T, d) is the one spelled-out document     *)
(* that d stands for as a T, or says that d is no T at all:                *)
(*   [v |-> "ok", d |-> spelled-out]   [v |-> "no"]                        *)
(*   [v |-> "?"]  (the language leaves it open)                            *)
(***************************************************************************)
EXTENDS MC

Sch == In.schema

Null == <<"null">>
SStr(s) == <<"str", s>>
Obj(ps) == <<"obj", ps>>
Good(d) == [v |-> "ok", d |-> d]
No == [v |-> "no", d |-> Null]
Open == [v |-> "?", d |-> Null]
Is(d, tag) == d[1] = tag

\* the verdict about a whole from the verdicts about its pieces
Whole(rs, D(_)) == IF \E i \in 1..Len(rs) : rs[i].v = "no" THEN No
                   ELSE IF \E i \in 1..Len(rs) : rs[i].v = "?" THEN Open
                   ELSE Good(TLCEval(D(TLCEval([i \in 1..Len(rs) |-> rs[i].d]))))

\* ------------------------------------------------------------- objects
Having(ps, k) == SelectSeq(ps, LAMBDA p : p[1] = k)
LastOf(ps, k) == LET h == Having(ps, k) IN h[Len(h)][2]
Doubled(ps, ks) == \E k \in ks : Len(Having(ps, k)) > 1
FirstPos(ps, k) == FirstIdx(1, Len(ps), LAMBDA i : ps[i][1] = k)
\* the value given last for a key is the one that counts; keys stay where they were first seen
Collapsed(ps) == LET keep == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : FirstPos(ps, ps[i][1]) = i)
                 IN [j \in 1..Len(keep) |-> <<ps[keep[j]][1], LastOf(ps, ps[keep[j]][1])>>]
NamesOf(fs) == {fs[i].n : i \in 1..Len(fs)}

RECURSIVE Norm(_, _), NormRef(_, _), NormFields(_, _), NormField(_, _), NormPos(_, _), NormVariant(_, _)

Norm(T, d) ==
  CASE T.t = "text"  -> IF Is(d, "str") THEN Good(d) ELSE No
    [] T.t = "url"   -> IF ~Is(d, "str") THEN No ELSE IF d[2] \in RangeOf(In.urls) THEN Good(d) ELSE No
    [] T.t = "method"-> IF ~Is(d, "str") THEN No ELSE IF d[2] \in RangeOf(In.methods) THEN Good(d) ELSE IF d[2] = "" THEN No ELSE Open
    [] T.t = "char"  -> IF Is(d, "str") /\ Len(UChars(d[2])) = 1 THEN Good(d) ELSE No
    [] T.t = "num"   -> IF Is(d, "num") /\ d[2] >= T.lo THEN Good(d) ELSE No
    [] T.t = "bool"  -> IF Is(d, "bool") THEN Good(d) ELSE No
    [] T.t = "int"   -> IF Is(d, "num") /\ d[2] >= T.lo /\ d[2] <= T.hi THEN Good(d) ELSE No
    [] T.t = "headers" -> IF ~Is(d, "obj") THEN No ELSE IF Doubled(d[2], Keys(d[2])) \/ (\E i \in 1..Len(d[2]) : ~Is(d[2][i][2], "str")) THEN Open ELSE Good(d)
    [] T.t = "parts" -> IF ~Is(d, "obj") \/ (\E i \in 1..Len(d[2]) : ~Is(d[2][i][2], "arr") \/ (\E j \in 1..Len(d[2][i][2][2]) : ~Is(d[2][i][2][2][j], "str"))) THEN No
                        ELSE LET els == UNION {{<<i, j>> : j \in 1..Len(d[2][i][2][2])} : i \in 1..Len(d[2])} IN
                             IF Doubled(d[2], Keys(d[2])) \/ Cardinality({d[2][e[1]][2][2][e[2]] : e \in els}) # Cardinality(els) THEN No ELSE Good(d)
    [] T.t = "open"  -> IF \E i \in 1..Len(T.like) : T.like[i] = d THEN Good(d) ELSE Open
    [] T.t = "opt"   -> IF Is(d, "null") THEN Good(Null) ELSE Norm(T.of, d)
    [] T.t = "list"  -> IF ~Is(d, "arr") THEN No ELSE LET rs == TLCEval([i \in 1..Len(d[2]) |-> Norm(T.of, d[2][i])]) IN Whole(rs, LAMBDA ds : <<"arr", ds>>)
    [] T.t = "set"   -> IF ~Is(d, "arr") \/ (\E i \in 1..Len(d[2]) : ~Is(d[2][i], "str")) THEN No
                        ELSE IF T.once /\ Cardinality(RangeOf(d[2])) # Len(d[2]) THEN No
                        ELSE Good(d)
    [] T.t = "dict"  -> IF ~Is(d, "obj") THEN No
                        ELSE IF T.once /\ Doubled(d[2], Keys(d[2])) THEN No
                        ELSE LET ps == d[2]
                                 rs == TLCEval([i \in 1..Len(ps) |-> Norm(T.of, ps[i][2])])
                                 all == Whole(rs, LAMBDA ds : Obj([i \in 1..Len(ps) |-> <<ps[i][1], ds[i]>>]))
                             IN IF all.v = "ok" THEN Good(Obj(Collapsed(all.d[2]))) ELSE all
    [] T.t = "ref"   -> NormRef(Sch[T.n], d)

NormRef(D, d) ==
  IF Is(d, "str") THEN
       (CASE D.bare = "variant" -> NormRef(D, Obj(<<<<D.to, d>>>>))
          [] D.bare = "field"   -> NormRef(D, Obj(<<<<D.to, d>>>>))
          [] D.bare = "path"    -> IF d[2] = ":memory:" THEN Good(Obj(<<<<"Memory", Null>>>>)) ELSE NormRef(D, Obj(<<<<D.to, d>>>>))
          [] D.bare = "words"   -> LET h == Having(D.words, d[2]) IN IF h = <<>> THEN No ELSE NormRef(D, h[1][2])
          [] OTHER -> IF D.kind # "enum" THEN No
                      ELSE LET h == SelectSeq(D.variants, LAMBDA x : x.n = d[2] /\ x.form = "unit") IN IF h = <<>> THEN No ELSE Good(Obj(<<<<d[2], Null>>>>)))
  ELSE IF Is(d, "null") THEN (IF D.nul = "" THEN No ELSE Good(Obj(<<<<D.nul, Null>>>>)))
  ELSE IF Is(d, "num") /\ D.numb # "" THEN NormRef(D, Obj(<<<<D.numb, d>>>>))
  ELSE IF D.kind = "struct" THEN
       (IF Is(d, "obj") THEN NormFields(D.fields, d[2])
        ELSE IF Is(d, "arr") /\ D.seq THEN NormPos(D.fields, d[2])
        ELSE No)
  ELSE IF ~Is(d, "obj") THEN (IF Is(d, "arr") /\ D.loose # <<>> THEN Open ELSE No)
  ELSE LET tagged == IF Len(d[2]) # 1 THEN No ELSE NormVariant(D, d[2][1])
       IN IF tagged.v # "no" \/ D.loose = <<>> THEN tagged ELSE NormFields(D.loose, d[2])

NormVariant(D, p) ==
  LET h == SelectSeq(D.variants, LAMBDA x : x.n = p[1]) IN
  IF h = <<>> THEN No
  ELSE LET V == h[1] d == p[2]
           r == CASE V.form = "unit" -> IF Is(d, "null") THEN Good(Null) ELSE IF d = Obj(<<>>) THEN Open ELSE No
                  [] V.form = "new"  -> Norm(V.of, d)
                  [] V.form = "fields" -> IF Is(d, "obj") THEN NormFields(V.fields, d[2])
                                          ELSE IF Is(d, "arr") /\ V.seq THEN NormPos(V.fields, d[2])
                                          ELSE No
       IN IF r.v = "ok" THEN Good(Obj(<<<<p[1], r.d>>>>)) ELSE r

\* a field that is not written has its default, if it has one
Absent(F) == IF F.omit = "no" THEN No ELSE Norm(F.of, F.dflt)
NormField(F, ps) == LET h == Having(ps, F.n) IN IF h = <<>> THEN Absent(F) ELSE IF Len(h) > 1 THEN No ELSE Norm(F.of, h[1][2])

\* the fields of an object; a flattened field reads what the others leave
NormFields(fs, ps) ==
  LET own == SelectSeq(fs, LAMBDA f : ~f.flat)
      flats == SelectSeq(fs, LAMBDA f : f.flat)
      rest == SelectSeq(ps, LAMBDA p : p[1] \notin NamesOf(own))
      mine == TLCEval([i \in 1..Len(own) |-> NormField(own[i], ps)])
      base == Whole(mine, LAMBDA ds : Obj([i \in 1..Len(own) |-> <<own[i].n, ds[i]>>]))
      flatOf(F) == LET D == Sch[F.of.n] IN
                   IF D.kind = "struct" THEN NormFields(D.fields, rest)
                   ELSE LET known == SelectSeq(rest, LAMBDA p : \E i \in 1..Len(D.variants) : D.variants[i].n = p[1])
                        IN IF known = <<>> THEN No
                           ELSE IF Len(known) > 1 THEN Open
                           ELSE NormVariant(D, known[1])
  IN IF flats = <<>> THEN base
     ELSE LET fr == flatOf(flats[1]) IN
          IF base.v = "no" \/ fr.v = "no" THEN No
          ELSE IF base.v = "?" \/ fr.v = "?" THEN Open
          ELSE Good(Obj(base.d[2] \o fr.d[2]))

\* fields by position
NormPos(fs, ds) ==
  IF Len(ds) > Len(fs) THEN No
  ELSE LET rs == TLCEval([i \in 1..Len(fs) |-> IF i <= Len(ds) THEN Norm(fs[i].of, ds[i]) ELSE IF fs[i].omit = "dflt" THEN Norm(fs[i].of, fs[i].dflt) ELSE No])
       IN Whole(rs, LAMBDA xs : Obj([i \in 1..Len(fs) |-> <<fs[i].n, xs[i]>>]))

\* ------------------------------------------------------------- writing a document down differently
\* everything one change somewhere in d makes of it
Atoms == {Null, Obj(<<<<"None", Null>>>>), SStr("x"), SStr(""), SStr("None"), SStr("Lowercase"), <<"num", 1>>, <<"num", -1>>, <<"num", 300>>, <<"bool", TRUE>>, <<"arr", <<>>>>, Obj(<<>>)}
Here(d) == Atoms \cup {<<"arr", <<d>>>>, Obj(<<<<"x", d>>>>)}
           \cup (IF Is(d, "obj") THEN {<<"arr", [i \in 1..Len(d[2]) |-> d[2][i][2]]>>, Obj(d[2] \o <<<<"zz", Null>>>>)} \cup {Obj(d[2] \o <<d[2][i]>>) : i \in 1..Len(d[2])}
                   \cup {Obj(SubSeq(d[2], 1, i - 1) \o SubSeq(d[2], i + 1, Len(d[2]))) : i \in 1..Len(d[2])}
                   \cup (IF Len(d[2]) > 1 THEN {Obj([i \in 1..Len(d[2]) |-> d[2][Len(d[2]) + 1 - i]])} ELSE {})
                 ELSE {})
           \cup (IF Is(d, "arr") THEN {<<"arr", d[2] \o d[2]>>} \cup {<<"arr", SubSeq(d[2], 1, i - 1) \o SubSeq(d[2], i + 1, Len(d[2]))>> : i \in 1..Len(d[2])} ELSE {})
           \cup (IF Is(d, "str") THEN {Obj(<<<<d[2], Null>>>>)} ELSE {})
RECURSIVE Alter(_, _)
Alter(d, depth) ==
  Here(d) \cup
  (IF depth = 0 THEN {}
   ELSE IF Is(d, "arr") THEN UNION {{<<"arr", [d[2] EXCEPT ![i] = m]>> : m \in Alter(d[2][i], depth - 1)} : i \in 1..Len(d[2])}
   ELSE IF Is(d, "obj") THEN UNION {{Obj([d[2] EXCEPT ![i] = <<d[2][i][1], m>>]) : m \in Alter(d[2][i][2], depth - 1)} : i \in 1..Len(d[2])}
   ELSE {})
=============================================================================
