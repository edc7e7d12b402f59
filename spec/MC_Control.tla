----------------------------- MODULE MC_Control -----------------------------
(***************************************************************************)
(* Error and control flow of mappers (C04, C05).                           *)
(*                                                                         *)
(* State: a task (URL, scratchpad) on which one mapper is run.  The        *)
(* mappers are all combinators over a vocabulary of leaves that change the *)
(* URL, change the scratchpad, fail, fail after a partial change, or       *)
(* behave differently according to the state, to the given depth.          *)
(***************************************************************************)
EXTENDS MC
CONSTANTS DEPTH2, NL2          \* include depth two?  over how many of the leaves
VARIABLE cs

Frag == K("Fragment")
Starts == << [url |-> "https://h.example.com/p", flags |-> <<>>, vars |-> <<>>],
             [url |-> "https://example.com/p?q=1#fr", flags |-> <<"f">>, vars |-> <<<<"v", "1">>>>] >>
AppPath == ModP(K("Path"), AppendM("x"))
Leaves == <<
  AppPath,
  MErrN,
  All(<<SetFlag("f", TRUE), AppVar("v", "x"), AppPath, MErrN>>),
  IfM(FlagIs("f"), SetP(Frag, Str("set")), <<MErrN>>),
  AppVar("v", "y"),
  SetFlag("f", FALSE),
  All(<<AppVar("v", "z"), IfM(VarIs("v", Str("zz")), K("None"), <<MErrN>>)>>),
  K("None"),
  SetFlag("g", TRUE),
  SetVar("v", SNone),
  [k |-> "MovePart", from |-> Frag, to |-> K("Query")],
  [k |-> "MovePart", from |-> K("Path"), to |-> Frag],
  [k |-> "CopyPart", from |-> K("Query"), to |-> K("Host")],
  [k |-> "CopyPart", from |-> K("Host"), to |-> Frag],
  ModP(Frag, AppendM("x")),
  ModP(Frag, All(<<AppendM("x"), MErrN>>)),
  ModP(K("Scheme"), X("Set", Str("mailto"))),
  SetP(K("Whole"), Str("x")),
  SetP(Frag, SErr),
  SetVar("v", SErr),
  SetFlag("f", TRUE),
  [k |-> "ModifyScratchpadVar", name |-> Str("v"), modification |-> AppendM("m")],
  [k |-> "ModifyScratchpadVar", name |-> Str("v"), modification |-> All(<<AppendM("x"), MErrN>>)],
  [k |-> "ModifyScratchpadVar", name |-> Str("zz"), modification |-> MErrN],
  IfM(MErrN, AppPath, <<AppPath>>),
  X("Rule", NRule(MErrN, AppPath, <<>>)),
  X("GetUrlFromQueryParam", Str("q")),
  X("SetHost", <<"a b">>),
  X("SetHost", <<>>),
  X("Join", Str("http://[")) >>
NL == Len(Leaves)
Atomic == {i \in 1..NL : i \notin {3, 7}}        \* leaves that are single steps
Un(o, m) ==
    CASE o = 1 -> X("IgnoreError", m)
      [] o = 2 -> X("RevertOnError", m)
      [] o \in 3..6 -> [k |-> "Retry", mapper |-> m, delay |-> 0, limit |-> o - 3]
      [] o = 7 -> X("Rule", MRule(m))
      [] o = 8 -> X("Rules", <<MRule(m), MRule(AppPath)>>)
      [] o = 9 -> IfM(FlagIs("f"), m, <<>>)
      [] o = 10 -> IfM(X("Not", FlagIs("f")), AppPath, <<m>>)
      [] o = 11 -> All(<<AppPath, m, AppVar("v", "t")>>)
      [] o = 12 -> X("Rule", [k |-> "Repeat", rules |-> <<MRule(m)>>, limit |-> 3])
NU == 12
Bin(o, a, b) ==
    CASE o = 1 -> Try(a, b)
      [] o = 2 -> All(<<a, b>>)
      [] o = 3 -> X("FirstNotError", <<a, b>>)
      [] o = 4 -> X("ConditionChain", <<[condition |-> FlagIs("f"), mapper |-> a], [condition |-> VarIs("v", Str("1")), mapper |-> b]>>)
      [] o = 5 -> IfM(FlagIs("f"), a, <<b>>)
NB == 5
Odd == <<All(<<>>), X("FirstNotError", <<>>), X("ConditionChain", <<>>), X("FirstNotError", <<MErrN, AppPath, MErrN>>), X("FirstNotError", <<Leaves[3], Leaves[3], Leaves[3]>>),
         X("Rules", <<>>), X("ConditionChain", <<[condition |-> MErrN, mapper |-> AppPath], [condition |-> K("Always"), mapper |-> AppPath]>>),
         X("ConditionChain", <<[condition |-> K("Never"), mapper |-> MErrN], [condition |-> K("Always"), mapper |-> Leaves[3]], [condition |-> K("Always"), mapper |-> AppPath]>>)>>

Init ==
    \/ \E s \in 1..2, l \in 1..NL : cs = <<"leaf", s, l>>
    \/ \E s \in 1..2, l \in 1..Len(Odd) : cs = <<"odd", s, l>>
    \/ \E s \in 1..2, o \in 1..NU, l \in 1..NL : cs = <<"un", s, o, l>>
    \/ \E s \in 1..2, o \in 1..NB, a, b \in 1..NL : (a <= NL2 \/ b <= NL2) /\ cs = <<"bin", s, o, a, b>>
    \/ DEPTH2 /\ \E s \in 1..2, u \in 1..NU, o \in 1..NB, a, b \in 1..NL2 : cs = <<"unbin", s, u, o, a, b>>
    \/ DEPTH2 /\ \E s \in 1..2, u \in 1..3, u2 \in 1..NU, l \in 1..NL : cs = <<"unun", s, u, u2, l>>
    \/ DEPTH2 /\ \E s \in 1..2, u \in {1, 2, 5}, o \in {1, 2, 3}, a, b \in 1..(NL2 - 2) : cs = <<"binun", s, u, o, a, b>>
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs

Term == CASE cs[1] = "leaf" -> Leaves[cs[3]]
          [] cs[1] = "odd" -> Odd[cs[3]]
          [] cs[1] = "un" -> Un(cs[3], Leaves[cs[4]])
          [] cs[1] = "bin" -> Bin(cs[3], Leaves[cs[4]], Leaves[cs[5]])
          [] cs[1] = "unbin" -> Un(cs[3], Bin(cs[4], Leaves[cs[5]], Leaves[cs[6]]))
          [] cs[1] = "unun" -> Un(cs[3], Un(cs[4], Leaves[cs[5]]))
          [] cs[1] = "binun" -> Bin(cs[4], Un(cs[3], Leaves[cs[5]]), Leaves[cs[6]])
S0 == Starts[cs[2]]
E0 == EnvOf(UrlOf(S0.url), [flags |-> RangeOf(S0.flags), vars |-> S0.vars], <<>>)
Run(m, E) == Mapper(m, E, C0)
SameState(v, E) == Serialize(v.url) = Serialize(E.url) /\ SameSp(v.sp, E.sp)
\* the laws of the property, on the specification's own transition
Law ==
    LET t == Term
        r == Run(t, E0) IN
    /\ r.k \in {"ok", "err", "out"}
    /\ (cs[1] = "leaf" /\ cs[3] \in Atomic /\ r.k = "err") => SameState(r.v, E0)
    /\ t.k = "IgnoreError" => r.k # "err" /\ LET q == Run(t.x, E0) IN q.k # "out" => SameState(r.v, Up(E0, q.v))
    /\ t.k = "RevertOnError" => (r.k = "err" => SameState(r.v, E0)) /\ r.k = Run(t.x, E0).k
    /\ t.k = "TryElse" =>
         LET q == Run(t.try, E0) IN
         IF q.k = "ok" THEN r.k = "ok" /\ SameState(r.v, Up(E0, q.v))
         ELSE IF q.k = "err" THEN LET p == Run(t.else, Up(E0, q.v)) IN r.k = p.k /\ (p.k # "out" => SameState(r.v, Up(E0, p.v))) ELSE TRUE
    /\ t.k = "Retry" => (t.limit = 0 => r.k = "ok" /\ SameState(r.v, E0)) /\ (Run(t.mapper, E0).k = "ok" /\ t.limit > 0 => r.k = "ok")
    /\ t.k = "All" /\ Len(t.x) = 2 => (Run(t.x[1], E0).k = "err" => r.k = "err" /\ SameState(r.v, Up(E0, Run(t.x[1], E0).v)))
    /\ t.k = "If" => LET c == Cond(t.condition, E0, C0) IN
         c.k = "ok" /\ ~c.v /\ t.else_mapper = <<>> => r.k = "ok" /\ SameState(r.v, E0)
Emitted == Emit(Doc(S0.url, S0.flags, S0.vars, <<StepN("mapper", Term)>>))
=============================================================================
