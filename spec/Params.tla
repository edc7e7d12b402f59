------------------------------- MODULE Params --------------------------------
(***************************************************************************)
(* Parameters as a state, and the ways of changing them (C13): a params    *)
(* diff, and the options of the command line, which add up to one diff     *)
(* that comes after those of the files.                                    *)
(*                                                                         *)
(* p = [flags, vars, sets, lists, maps, np, read_cache, write_cache, http] *)
(* with flags and the members of sets as sets and everything keyed as      *)
(* association lists; http holds the settings of the HTTP client.          *)
(***************************************************************************)
EXTENDS Interp

\* parameters as a configuration gives them
Load(cfg) == LET q == cfg.params IN
    [flags |-> RangeOf(q.flags), vars |-> q.vars, sets |-> [i \in 1..Len(q.sets) |-> <<q.sets[i][1], RangeOf(q.sets[i][2])>>],
     lists |-> q.lists, maps |-> q.maps, np |-> q.np, read_cache |-> q.read_cache, write_cache |-> q.write_cache, http |-> cfg.http]

GetSet(p, k) == LET s == LookupAl(p.sets, k) IN IF s = <<>> THEN {} ELSE s[1]
NoMap == [map |-> <<>>, if_null |-> <<>>, else |-> <<>>]
GetMap(p, k) == LET m == LookupAl(p.maps, k) IN IF m = <<>> THEN NoMap ELSE m[1]
Without(al, ks) == SelectSeq(al, LAMBDA x : x[1] \notin ks)
PutAll(al, kvs) == FoldLeft(LAMBDA a, kv : PutAl(a, kv[1], kv[2]), al, kvs)

NoDiff == [flags |-> {}, unflags |-> {}, vars |-> <<>>, unvars |-> {}, init_sets |-> {}, ins |-> <<>>, rem |-> <<>>, del |-> {},
           init_maps |-> {}, mapdiffs |-> <<>>, delmaps |-> {}, rc |-> <<>>, wc |-> <<>>, http |-> <<>>]
\* what the changes of one diff do, removals last
InitSets(p, ks) == FoldLeft(LAMBDA q, k : [q EXCEPT !.sets = PutAl(@, k, GetSet(q, k))], p, SetToSeq(ks))
InsertInto(p, kvs) == FoldLeft(LAMBDA q, kv : [q EXCEPT !.sets = PutAl(@, kv[1], GetSet(q, kv[1]) \cup RangeOf(kv[2]))], p, kvs)
RemoveFrom(p, kvs) == FoldLeft(LAMBDA q, kv : IF kv[1] \in Keys(q.sets) THEN [q EXCEPT !.sets = PutAl(@, kv[1], GetSet(q, kv[1]) \ RangeOf(kv[2]))] ELSE q, p, kvs)
InitMaps(p, ks) == FoldLeft(LAMBDA q, k : [q EXCEPT !.maps = PutAl(@, k, GetMap(q, k))], p, SetToSeq(ks))
MapDiffs(p, kds) == FoldLeft(LAMBDA q, kd : [q EXCEPT !.maps = PutAl(@, kd[1], [GetMap(q, kd[1]) EXCEPT !.map = Without(PutAll(@, kd[2].ins), RangeOf(kd[2].rem))])], p, kds)
Apply(p, d) ==
    LET a == [p EXCEPT !.flags = (@ \cup d.flags) \ d.unflags, !.vars = Without(PutAll(@, d.vars), d.unvars)]
        s == RemoveFrom(InsertInto(InitSets(a, d.init_sets), d.ins), d.rem)
        m == MapDiffs(InitMaps(s, d.init_maps), d.mapdiffs) IN
    [m EXCEPT !.sets = Without(@, d.del), !.maps = Without(@, d.delmaps),
              !.read_cache = IF d.rc = <<>> THEN @ ELSE d.rc[1], !.write_cache = IF d.wc = <<>> THEN @ ELSE d.wc[1],
              !.http = IF d.http = <<>> THEN @ ELSE HDiff(@, d.http[1])]
ApplyAll(p, ds) == FoldLeft(LAMBDA q, d : Apply(q, d), p, ds)

(* ------------------------- the command line ---------------------------- *)
\* an option: [o, a] with its name and arguments.  They add up to one diff; an option that may occur once is an error the
\* second time, and so is a key without a value
RECURSIVE Pairs2(_)
Pairs2(a) == IF a = <<>> THEN <<>> ELSE <<<<a[1], a[2]>>>> \o Pairs2(SubSeq(a, 3, Len(a)))
AddTo(al, k, vs) == LET l == LookupAl(al, k) IN PutAl(al, k, (IF l = <<>> THEN <<>> ELSE l[1]) \o vs)
MapD(al, k) == LET l == LookupAl(al, k) IN IF l = <<>> THEN [ins |-> <<>>, rem |-> <<>>] ELSE l[1]
BoolOf(a) == IF a = <<>> THEN <<TRUE>> ELSE <<a[1] = "true">>
HNone == [redirect_policy |-> <<>>, add_default_headers |-> <<>>, https_only |-> <<>>, set_proxies |-> <<>>, add_proxies |-> <<>>, no_proxy |-> <<>>, referer |-> <<>>, add_extra_certificates |-> <<>>, remove_extra_certificates |-> <<>>]
HOf(d) == IF d.http = <<>> THEN HNone ELSE d.http[1]
AddOption(d, x) ==
    LET a == x.a IN
    CASE x.o = "flag" -> [d EXCEPT !.flags = @ \cup {a[1]}]
      [] x.o = "unflag" -> [d EXCEPT !.unflags = @ \cup {a[1]}]
      [] x.o = "var" -> [d EXCEPT !.vars = PutAl(@, a[1], a[2])]
      [] x.o = "unvar" -> [d EXCEPT !.unvars = @ \cup {a[1]}]
      [] x.o = "insert-into-set" -> [d EXCEPT !.ins = AddTo(@, a[1], Tail(a))]
      [] x.o = "remove-from-set" -> [d EXCEPT !.rem = AddTo(@, a[1], Tail(a))]
      [] x.o = "insert-into-map" -> [d EXCEPT !.mapdiffs = PutAl(@, a[1], [MapD(@, a[1]) EXCEPT !.ins = @ \o Pairs2(Tail(a))])]
      [] x.o = "remove-from-map" -> [d EXCEPT !.mapdiffs = PutAl(@, a[1], [MapD(@, a[1]) EXCEPT !.rem = @ \o Tail(a)])]
      [] x.o = "read-cache" -> [d EXCEPT !.rc = BoolOf(a)]
      [] x.o = "write-cache" -> [d EXCEPT !.wc = BoolOf(a)]
      [] x.o = "no-proxy" -> [d EXCEPT !.http = <<[HOf(d) EXCEPT !.no_proxy = BoolOf(a)]>>]
      [] x.o = "proxy" -> [d EXCEPT !.http = <<[HOf(d) EXCEPT !.set_proxies = <<<<[url |-> a[1], mode |-> "All", auth |-> <<>>]>>>>]>>]
Once == {"read-cache", "write-cache", "no-proxy", "proxy"}
BadOption(x) == \/ x.o \in {"insert-into-map"} /\ Len(x.a) % 2 = 0
                \/ x.o = "var" /\ Len(x.a) # 2
                \/ x.o \in {"insert-into-set", "remove-from-set", "remove-from-map"} /\ x.a = <<>>
                \/ x.o \in {"read-cache", "write-cache", "no-proxy"} /\ x.a # <<>> /\ x.a[1] \notin {"true", "false"}
BadOptions(xs) == \/ \E i \in 1..Len(xs) : BadOption(xs[i])
                  \/ \E i, j \in 1..Len(xs) : i < j /\ xs[i].o = xs[j].o /\ xs[i].o \in Once
ArgDiff(xs) == FoldLeft(LAMBDA d, x : AddOption(d, x), NoDiff, xs)

\* which way a request to the address of the direct server goes
Via(p) == LET ps == SelectSeq(p.http.proxies, LAMBDA x : x.mode # "Https") IN
          IF p.http.https_only \/ p.http.certs # <<>> THEN "failed"       \* (the certificates of the model are none)
          ELSE IF p.http.no_proxy \/ ps = <<>> THEN "direct" ELSE ps[1].url
\* the parameters as the environment of an evaluation has them
AsParams(p) == [flags |-> SetToSeq(p.flags), vars |-> p.vars, sets |-> [i \in 1..Len(p.sets) |-> <<p.sets[i][1], SetToSeq(p.sets[i][2])>>],
                lists |-> p.lists, maps |-> p.maps, np |-> p.np, read_cache |-> p.read_cache, write_cache |-> p.write_cache]
=============================================================================
