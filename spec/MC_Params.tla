------------------------------ MODULE MC_Params ------------------------------
(***************************************************************************)
(* Histories of parameter changes.  The state is the parameters; a step    *)
(* applies one of the diffs of In.diffs.  The laws say what one diff does  *)
(* to each entry, without reference to how Apply proceeds: what is removed *)
(* is gone, what is set has the value set unless it is removed, and what   *)
(* is not mentioned is as before.  Every history is emitted with the       *)
(* parameters it leads to.                                                 *)
(***************************************************************************)
EXTENDS Params, MC
CONSTANTS L
DS == In.diffs
D(i) == LET d == DS[i] IN [d EXCEPT !.flags = RangeOf(@), !.unflags = RangeOf(@), !.unvars = RangeOf(@), !.init_sets = RangeOf(@), !.del = RangeOf(@), !.init_maps = RangeOf(@), !.delmaps = RangeOf(@)]
VARIABLES p, prev, hist
vars == <<p, prev, hist>>
P0 == Load(In.config)
Init == p = P0 /\ prev = P0 /\ hist = <<>>
Change(i) == p' = Apply(p, D(i)) /\ prev' = p /\ hist' = Append(hist, i)
Next == Len(hist) < L /\ \E i \in 1..Len(DS) : Change(i)
Spec == Init /\ [][Next]_vars

LastD == D(hist[Len(hist)])
AllIns(d, k) == UNION {RangeOf(d.ins[i][2]) : i \in {j \in 1..Len(d.ins) : d.ins[j][1] = k}}
AllRem(d, k) == UNION {RangeOf(d.rem[i][2]) : i \in {j \in 1..Len(d.rem) : d.rem[j][1] = k}}
MD(d, k) == MapD(d.mapdiffs, k)
FlagLaw == LET d == LastD IN \A f \in p.flags \cup prev.flags \cup d.flags \cup d.unflags :
    (f \in p.flags) = (f \notin d.unflags /\ (f \in d.flags \/ f \in prev.flags))
VarLaw == LET d == LastD IN \A v \in Keys(p.vars) \cup Keys(prev.vars) \cup Keys(d.vars) \cup d.unvars :
    LookupAl(p.vars, v) = IF v \in d.unvars THEN <<>> ELSE IF v \in Keys(d.vars) THEN LookupAl(d.vars, v) ELSE LookupAl(prev.vars, v)
SetLaw == LET d == LastD IN \A k \in Keys(p.sets) \cup Keys(prev.sets) \cup Keys(d.ins) \cup Keys(d.rem) \cup d.del \cup d.init_sets :
    LET was == k \in Keys(prev.sets) \/ k \in d.init_sets \cup Keys(d.ins) IN
    /\ (k \in Keys(p.sets)) = (was /\ k \notin d.del)
    /\ k \in Keys(p.sets) => \A x \in GetSet(p, k) \cup GetSet(prev, k) \cup AllIns(d, k) \cup AllRem(d, k) :
          (x \in GetSet(p, k)) = (x \notin AllRem(d, k) /\ (x \in AllIns(d, k) \/ x \in GetSet(prev, k)))
MapLaw == LET d == LastD IN \A k \in Keys(p.maps) \cup Keys(prev.maps) \cup Keys(d.mapdiffs) \cup d.delmaps \cup d.init_maps :
    /\ (k \in Keys(p.maps)) = (k \notin d.delmaps /\ (k \in Keys(prev.maps) \/ k \in d.init_maps \/ k \in Keys(d.mapdiffs)))
    /\ k \in Keys(p.maps) =>
          /\ GetMap(p, k).if_null = GetMap(prev, k).if_null /\ GetMap(p, k).else = GetMap(prev, k).else
          /\ \A x \in Keys(GetMap(p, k).map) \cup Keys(GetMap(prev, k).map) \cup RangeOf(MD(d, k).rem) \cup Keys(MD(d, k).ins) :
               LookupAl(GetMap(p, k).map, x) = IF x \in RangeOf(MD(d, k).rem) THEN <<>>
                                               ELSE IF x \in Keys(MD(d, k).ins) THEN LookupAl(MD(d, k).ins, x) ELSE LookupAl(GetMap(prev, k).map, x)
RestLaw == LET d == LastD IN
    /\ p.lists = prev.lists /\ p.np = prev.np
    /\ p.read_cache = IF d.rc = <<>> THEN prev.read_cache ELSE d.rc[1]
    /\ p.write_cache = IF d.wc = <<>> THEN prev.write_cache ELSE d.wc[1]
    /\ d.http = <<>> => p.http = prev.http
    /\ d.http # <<>> => LET h == d.http[1] IN
          /\ p.http.no_proxy = (IF h.no_proxy = <<>> THEN prev.http.no_proxy ELSE h.no_proxy[1])
          /\ p.http.https_only = (IF h.https_only = <<>> THEN prev.http.https_only ELSE h.https_only[1])
          /\ p.http.referer = (IF h.referer = <<>> THEN prev.http.referer ELSE h.referer[1])
          /\ p.http.proxies = (IF h.set_proxies = <<>> THEN prev.http.proxies ELSE h.set_proxies[1]) \o h.add_proxies
Laws == hist # <<>> => FlagLaw /\ VarLaw /\ SetLaw /\ MapLaw /\ RestLaw
\* diffs that mention different things commute, and a diff applied twice is the same as once unless it appends
Again(d) == d.http # <<>> /\ d.http[1].add_proxies # <<>>
Same(a, b) == /\ a.flags = b.flags /\ RangeOf(a.vars) = RangeOf(b.vars) /\ RangeOf(a.sets) = RangeOf(b.sets)
              /\ [k \in Keys(a.maps) |-> LET m == GetMap(a, k) IN <<RangeOf(m.map), m.if_null, m.else>>] = [k \in Keys(b.maps) |-> LET m == GetMap(b, k) IN <<RangeOf(m.map), m.if_null, m.else>>]
              /\ a.read_cache = b.read_cache /\ a.write_cache = b.write_cache
              /\ [a.http EXCEPT !.headers = RangeOf(@), !.certs = RangeOf(@)] = [b.http EXCEPT !.headers = RangeOf(@), !.certs = RangeOf(@)]
Idempotent == hist # <<>> /\ ~Again(LastD) => Same(Apply(p, LastD), p)
Emitted == hist # <<>> => Emit([hist |-> hist, p |-> p])
=============================================================================
