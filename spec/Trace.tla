------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded executions of the implementation against Interp.     *)
(*                                                                         *)
(* cases.json holds task states with the steps performed on them and what  *)
(* the implementation reported after every step: result, URL, scratchpad,  *)
(* cache, requests, host facts.  The behaviour of this specification walks *)
(* over all cases; each step is the corresponding Interp transition, and a *)
(* report that is not the one Interp gives is printed as a DIVERGE line.   *)
(* Where Interp does not describe a step (OUT) the state is taken from the *)
(* report, so that the rest of the history is still checked.               *)
(***************************************************************************)
EXTENDS Interp

Input == JsonDeserialize("cases.json")
Cases == Input.cases
Configs == Input.configs
VARIABLES i, j, url, sp, c,
          memo      \* the last starting point: its text, what parsing gave, and the facts of its host (only to save work)
vars == <<i, j, url, sp, c, memo>>

Cs == Cases[i]
Cfg == Configs[Cs.cfg]
Env(u, s) == [commons |-> Cfg.commons, params |-> Cfg.params, http |-> Cfg.http, ctx |-> Cs.ctx, jctx |-> Cs.jctx,
              env |-> Input.env, ca |-> Cs.ca, url |-> u, sp |-> s, net |-> Cs.net]
NoSp == [flags |-> {}, vars |-> <<>>]
NoC == [cache |-> <<>>, log |-> <<>>]
NextCase == i' = i + 1 /\ j' = 0 /\ url' = NoUrl /\ sp' = NoSp /\ c' = NoC

Init == i = 1 /\ j = 0 /\ url = NoUrl /\ sp = NoSp /\ c = NoC /\ memo = [s |-> "", p |-> UOut, f |-> <<>>]

Facts(u) ==
    LET dom == IsDomain(u)
        h == HStr(u)
        d == DomDetails(h)
        m == d.m
        e == IF d.f = <<>> THEN Len(h) ELSE d.f[1]
        cut(from, to) == <<Sub0(h, from, to)>> IN
    <<HostStr(u)>>
    \o (IF ~dom THEN <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>
       ELSE <<cut(0, e), IF m \in {<<>>, <<0>>} THEN <<>> ELSE cut(0, m[1] - 1), IF m = <<>> THEN <<>> ELSE cut(m[1], e),
              IF d.s \in {<<>>, <<0>>} THEN <<>> ELSE cut(0, d.s[1] - 1), IF m = <<>> THEN <<>> ELSE cut(m[1], d.s[1] - 1),
              IF d.s = <<>> THEN <<>> ELSE cut(d.s[1], e), IF d.f = <<>> THEN <<>> ELSE <<".">> >>)
    \o <<u.host # <<>>, dom /\ d.f # <<>>, dom, u.host # <<>> /\ ~dom, u.host # <<>> /\ u.host[1].k = "ipv4", u.host # <<>> /\ u.host[1].k = "ipv6">>
FactsOf(u) == IF FactsKnown(u) THEN Facts(u) ELSE <<>>
FactsOK(u, f) == f = <<>> \/ (LET x == IF memo.p.k = "ok" /\ memo.p.v.host = u.host THEN memo.f ELSE FactsOf(u) IN x = <<>> \/ f = x)

\* the start of a case: parsing its URL
Begin ==
    LET p == IF memo.s = Cs.url /\ Cs.url # "" THEN memo.p ELSE ParseUrl(Cs.url)
        f0 == IF p.k # "ok" THEN <<>> ELSE IF memo.s = Cs.url THEN memo.f ELSE FactsOf(p.v)
        s0 == [flags |-> RangeOf(Cs.flags), vars |-> Cs.vars]
        c0 == [cache |-> Cs.cache, log |-> <<>>]
        bad == \/ p.k = "ok" /\ (Cs.init.k # "ok" \/ (Cs.facts # <<>> /\ f0 # <<>> /\ Cs.facts # f0))
               \/ p.k = "ok" /\ Cs.init.k = "ok" /\ Serialize(p.v) # Cs.init.v
               \/ p.k = "err" /\ Cs.init.k # "err"
        q == IF p.k = "ok" THEN p ELSE IF p.k = "out" /\ Cs.init.k = "ok" THEN ParseUrl(Cs.init.v) ELSE UOut IN
    /\ IF bad THEN PrintT(<<"DIVERGE", Cs.id, 0, {"parse"}, IF p.k = "ok" THEN <<Serialize(p.v), Facts(p.v)>> ELSE p>>) ELSE TRUE
    /\ IF p.k = "out" THEN PrintT(<<"SKIP", Cs.id, 0>>) ELSE TRUE
    /\ memo' = [s |-> Cs.url, p |-> p, f |-> f0]
    /\ IF ~bad /\ q.k = "ok" /\ Len(Cs.obs) > 0
       THEN i' = i /\ j' = 1 /\ url' = q.v /\ sp' = s0 /\ c' = c0
       ELSE NextCase

S == Cs.steps[j]
O == Cs.obs[j]
\* a uniform result: [k, v, e, url, sp, c]
Res(r, v, u, s, cc) == [k |-> r.k, v |-> v, e |-> IF r.k = "err" THEN r.e ELSE <<>>, url |-> u, sp |-> s, c |-> IF r.k = "out" THEN cc ELSE r.c]
StateRes(r) == IF r.k = "out" THEN Res(r, "", url, sp, c) ELSE Res(r, "", r.v.url, r.v.sp, r.c)
ValRes(r) == Res(r, IF r.k = "out" THEN "" ELSE r.v, url, sp, c)
PureRes(u) == Res(Lift(u, <<>>, c), IF u.k = "ok" THEN u.v ELSE "", url, sp, c)
Eval ==
    LET E == Env(url, sp) n == S.node IN
    CASE S.kind = "mapper" -> StateRes(Mapper(n, E, c))
      [] S.kind = "rule" -> StateRes(Rule(n, E, c))
      [] S.kind = "rules" -> StateRes(Rules(n, E, c))
      [] S.kind = "task" -> LET r == StateRes(Rules(Cfg.rules, E, c)) IN IF r.k = "err" THEN [r EXCEPT !.e = <<"RuleError">> \o @] ELSE r
      [] S.kind = "cond" -> ValRes(Cond(n, E, c))
      [] S.kind = "src" -> ValRes(Src(n, E, c))
      [] S.kind = "mat" -> ValRes(Mat(n, S.s, E, c))
      [] S.kind = "mod" -> ValRes(Mod(n, S.s, E, c))
      [] S.kind = "loc" -> PureRes(Loc(n, S.s, S.d))
      [] S.kind = "charm" -> PureRes(CharM(n, UChars(S.s)[1]))
      [] S.kind = "pget" -> PureRes(PGet(n, url))
      [] S.kind = "pset" -> LET u == PSet(n, url, S.to) IN Res(Lift(u, <<>>, c), "", IF u.k = "ok" THEN u.v ELSE url, sp, c)
      [] S.kind = "cread" -> Res(Ok("", c), CRead(c, S.s, S.d), url, sp, c)
      [] S.kind = "cwrite" -> Res(Ok("", CWrite(c, S.s, S.d, S.to)), "", url, sp, c)
      [] S.kind = "reopen" -> Res(Ok("", IF Cs.mem THEN [c EXCEPT !.cache = <<>>] ELSE c), "", url, sp, c)

HasValue == S.kind \in {"cond", "src", "mat", "loc", "charm", "pget", "cread"}
PrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
LogSet(l) == [n \in 1..Len(l) |-> [w |-> l[n].w, m |-> l[n].m, u |-> l[n].u, h |-> RangeOf(l[n].h), b |-> l[n].b]]
Diff(r) ==
    (IF r.k # O.k THEN {"result"} ELSE {})
    \cup (IF r.k = "err" /\ O.k = "err" /\ ~PrefixOf(r.e, O.e) THEN {"error"} ELSE {})
    \cup (IF r.k = "ok" /\ O.k = "ok" /\ HasValue /\ r.v # O.v THEN {"value"} ELSE {})
    \cup (IF S.kind = "mod" /\ r.k = O.k /\ r.v # O.v THEN {"string"} ELSE {})
    \cup (IF Serialize(r.url) # O.url THEN {"url"} ELSE {})
    \cup (IF r.url # url /\ ~FactsOK(r.url, O.facts) THEN {"facts"} ELSE {})
    \cup (IF r.sp.flags # RangeOf(O.flags) \/ RangeOf(r.sp.vars) # RangeOf(O.vars) THEN {"scratchpad"} ELSE {})
    \cup (IF RangeOf(r.c.cache) # RangeOf(O.cache) THEN {"cache"} ELSE {})
    \cup (IF LogSet(r.c.log) # LogSet(O.log) THEN {"requests"} ELSE {})
\* what must hold of every report, whatever the step was
Always == (IF O.facts # O.fresh THEN {"facts differ from a fresh parse"} ELSE {})
     \cup (IF ~O.same THEN {"url text does not parse back to itself"} ELSE {})
Adopt == LET p == ParseUrl(O.url) IN
    IF p.k = "ok" /\ j < Len(Cs.obs)
    THEN /\ i' = i /\ j' = j + 1 /\ url' = p.v
         /\ sp' = [flags |-> RangeOf(O.flags), vars |-> O.vars] /\ c' = [cache |-> O.cache, log |-> O.log]
    ELSE NextCase
Step ==
    LET r == Eval
        d == Always \cup (IF r.k = "out" THEN {} ELSE Diff(r)) IN
    /\ IF r.k = "out" THEN PrintT(<<"SKIP", Cs.id, j>>) ELSE TRUE
    /\ IF d # {} THEN PrintT(<<"DIVERGE", Cs.id, j, d, r.k, IF HasValue \/ S.kind = "mod" THEN r.v ELSE "", r.e, Serialize(r.url), r.sp, r.c,
                               IF FactsKnown(r.url) THEN Facts(r.url) ELSE "?">>) ELSE TRUE
    /\ IF d # {} THEN NextCase
       ELSE IF r.k = "out" THEN Adopt
       ELSE IF j = Len(Cs.obs) THEN NextCase
       ELSE i' = i /\ j' = j + 1 /\ url' = r.url /\ sp' = r.sp /\ c' = r.c
Next == i <= Len(Cases) /\ IF j = 0 THEN Begin ELSE Step /\ UNCHANGED memo
Spec == Init /\ [][Next]_vars
AllVisited == TLCGet("queue") = 0
=============================================================================
