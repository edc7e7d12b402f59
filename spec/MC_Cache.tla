------------------------------- MODULE MC_Cache ------------------------------
(***************************************************************************)
(* The cache as tasks see it (C07).  State: the cache, the URL of the task,*)
(* and a ghost that records, for every category and key, what was written  *)
(* last.  Steps: writing, reading, reopening, and the cached steps of the  *)
(* language (strings, URLs, redirects) with inner steps that succeed, give *)
(* nothing, or fail; under each setting of read-cache and write-cache.     *)
(* LastWritten: what a read gives is what the ghost says.  HitRunsNothing, *)
(* MissRuns, StoredOnSuccess and SwitchedOff say when a cached step runs   *)
(* its inner step and when it stores.                                      *)
(***************************************************************************)
EXTENDS MC
CONSTANTS L
U0 == "http://www.example.com/"
Cats == <<"c1", "c2">>
Kys == <<"k1", "k2">>
Vals == <<<<>>, <<"x">>, <<"y">>>>
Cross(ls, F(_)) == [i \in 1..Prod([j \in 1..Len(ls) |-> Len(ls[j])]) |->
    LET d == Digits0(i - 1, [j \in 1..Len(ls) |-> Len(ls[j])]) IN F([j \in 1..Len(ls) |-> ls[j][d[j]]])]
CacheSrc(cat, k, v) == [k |-> "Cache", category |-> cat, key |-> k, value |-> v]
CacheUrl(cat, m) == [k |-> "CacheUrl", category |-> cat, mapper |-> m]
Inner == <<Str("x"), Str("y"), SNone, SErr>>
SetPathTo(s) == SetP(K("Path"), Str(s))
InnerM == <<SetPathTo("/p1"), All(<<SetPathTo("/p2"), MErrN>>), All(<<SetFlag("ran", TRUE), SetVar("n", Str("1"))>>)>>
Op(name, key, step) == [name |-> name, key |-> key, step |-> step]
Ops == Cross(<<Cats, Kys, Vals>>, LAMBDA a : Op("write", <<a[1], a[2]>>, StepD("cwrite", "", a[1], a[2], a[3])))
   \o Cross(<<Cats, Kys>>, LAMBDA a : Op("read", <<a[1], a[2]>>, StepD("cread", "", a[1], a[2], <<>>)))
   \o <<Op("reopen", <<>>, StepD("reopen", "", "", "", <<>>))>>
   \o Cross(<<<<<<"c1", "k1">>, <<"c1", "k2">>, <<"c2", "k1">>>>, Inner>>, LAMBDA a : Op("string", a[1], StepN("src", CacheSrc(Str(a[1][1]), Str(a[1][2]), a[2]))))
   \o <<Op("string", <<>>, StepN("src", CacheSrc(SNone, Str("k1"), Str("x")))), Op("string", <<>>, StepN("src", CacheSrc(Str("c1"), SErr, Str("x"))))>>
   \o Cross(<<Cats \o <<"redirect">>, InnerM>>, LAMBDA a : Op("url", <<a[1], "URL">>, StepN("mapper", CacheUrl(Str(a[1]), a[2]))))
   \o <<Op("url", <<"redirect", "URL">>, StepN("mapper", [k |-> "ExpandRedirect", headers |-> <<>>, http_client_config_diff |-> <<>>])),
        Op("back", <<>>, StepN("mapper", SetP(K("Whole"), Str(U0))))>>
   \o Cross(<<<<"c1", "redirect">>, <<<<>>, <<"http://n.example/hit">>, <<"no url">>>>>>, LAMBDA a : Op("write", <<a[1], U0>>, StepD("cwrite", "", a[1], U0, a[2])))

VARIABLES rc, wc, c, u, hist, last, res
vars == <<rc, wc, c, u, hist, last, res>>
Init == rc \in BOOLEAN /\ wc \in BOOLEAN /\ c = C0 /\ u = UrlOf(U0) /\ hist = <<>> /\ last = <<>> /\ res = Ok("", C0)
E0 == [EnvOf(u, NoSp0, <<>>) EXCEPT !.params.read_cache = rc, !.params.write_cache = wc, !.net = In.net]
KeyOf(o) == IF o.key # <<>> /\ o.key[2] = "URL" THEN <<o.key[1], Serialize(u)>> ELSE o.key
Result(o) ==
    CASE o.name = "write" -> Ok("", CWrite(c, o.step.s, o.step.d, o.step.to))
      [] o.name = "read" -> Ok(CRead(c, o.step.s, o.step.d), c)
      [] o.name = "reopen" -> Ok("", c)
      [] o.name = "string" -> Src(o.step.node, E0, c)
      [] o.name \in {"url", "back"} -> Mapper(o.step.node, E0, c)
\* what the inner step alone would give
InnerOf(o) == IF o.name = "string" THEN Src(o.step.node.value, E0, c)
              ELSE IF o.step.node.k = "CacheUrl" THEN Mapper(o.step.node.mapper, E0, c)
              ELSE Redirect(o.step.node, [E0 EXCEPT !.params.read_cache = FALSE, !.params.write_cache = FALSE], c)
Stored(o, r) == IF o.name = "string" THEN r.v ELSE <<Serialize(r.v.url)>>
Do(i) ==
    LET o == Ops[i] r == Result(o) IN
    /\ r.k # "out"
    /\ res' = r /\ c' = r.c /\ hist' = Append(hist, i)
    /\ u' = IF o.name \in {"url", "back"} THEN r.v.url ELSE u
    /\ last' = IF o.name = "write" THEN PutAl(last, o.key, o.step.to)
               ELSE IF o.name \in {"string", "url"} /\ o.key # <<>> /\ wc /\ ~(rc /\ KeyOf(o) \in Keys(last)) /\ InnerOf(o).k = "ok" THEN PutAl(last, KeyOf(o), Stored(o, InnerOf(o)))
               ELSE last
    /\ UNCHANGED <<rc, wc>>
Next == Len(hist) < L /\ \E i \in 1..Len(Ops) : Do(i)
Spec == Init /\ [][Next]_vars

LastWritten == RangeOf(c.cache) = RangeOf(last)
ReadGives == hist # <<>> => LET o == Ops[hist[Len(hist)]] IN o.name = "read" => res.v = LookupAl(last, o.key)
\* as properties of the steps
Cached1(o) == o.name \in {"string", "url"} /\ o.key # <<>>
OpDone == Ops[hist'[Len(hist')]]
Hit(o) == rc /\ KeyOf(o) \in Keys(last)
HitRunsNothing == [][LET o == OpDone IN Cached1(o) /\ Hit(o)
                     => c' = c /\ (o.name = "string" => res'.v = LookupAl(last, KeyOf(o))[1])
                               /\ (o.name = "url" /\ res'.k = "ok" => <<Serialize(u')>> = LookupAl(last, KeyOf(o))[1])]_vars
MissRuns == [][LET o == OpDone IN Cached1(o) /\ ~Hit(o) => res'.k = InnerOf(o).k /\ (res'.k = "ok" => res'.v = InnerOf(o).v)]_vars
SwitchedOff == [][LET o == OpDone IN ~wc /\ Cached1(o) => c'.cache = c.cache]_vars
NotOnFailure == [][LET o == OpDone IN Cached1(o) /\ res'.k = "err" => c'.cache = c.cache]_vars
Emitted == Len(hist) = L => Emit([cfg |-> (IF rc THEN 0 ELSE 1) + (IF wc THEN 0 ELSE 2), steps |-> [i \in 1..L |-> Ops[hist[i]].step]])
=============================================================================
