------------------------------- MODULE MC_Flags ------------------------------
(***************************************************************************)
(* What the documented flags of the default configuration about particular *)
(* sites do (C17): for each family of sites, Doc(u, F, V) says what the    *)
(* documentation promises for the URL u under the flags F and variables V. *)
(* URLs are [host, segs, query] here: a host, path segments, parameters.   *)
(* The implementation, running the real configuration, must agree for      *)
(* every URL, every set of the family's flags and both sets of variables.  *)
(***************************************************************************)
EXTENDS MC
RECURSIVE OfFam(_, _, _, _)
H == In.hosts           \* hosts of the categories: [breezewiki, invidious, nitter, x]
In3(h, S) == NoWww(h) \in RangeOf(S)
DropQ(q, n) == SelectSeq(q, LAMBDA p : p[1] # n)
PutQ(q, n, v) == IF n \in {q[i][1] : i \in DOMAIN q} THEN [i \in DOMAIN q |-> IF q[i][1] = n THEN <<n, v>> ELSE q[i]] ELSE Append(q, <<n, v>>)
V(vs, n) == LookupAl(vs, n)[1]
Home(u) == u.segs = <<"">>
\* ---- youtube and Invidious
Yt(u, F, vs) ==
    LET a == IF In3(u.host, H.invidious) /\ F \cap {"invidious", "uninvidious"} # {} /\ ~Home(u) THEN [u EXCEPT !.host = "youtube.com"] ELSE u IN
    IF ~EndsWith(a.host, "youtube.com") THEN a ELSE
    LET s == a.segs[1]
        turn == (s = "shorts" /\ "youtube-unshort" \in F) \/ (s = "live" /\ "youtube-unlive" \in F) \/ (s = "embed" /\ "youtube-unembed" \in F)
        b == IF turn THEN [a EXCEPT !.segs = <<"watch">>, !.query = PutQ(@, "v", a.segs[2])] ELSE a
        c == IF "youtube-unplaylist" \in F /\ b.segs[1] = "watch" THEN [b EXCEPT !.query = DropQ(@, "list")] ELSE b
        d == IF "youtube-keep-sub-confirmation" \in F THEN c ELSE [c EXCEPT !.query = DropQ(@, "sub_confirmation")] IN
    IF "invidious" \in F THEN [d EXCEPT !.host = V(vs, "invidious-host")] ELSE d
\* ---- x.com and its front ends
Tw(u, F, vs) ==
    LET a == IF (In3(u.host, H.nitter) /\ F \cap {"nitter", "unnitter"} # {} /\ ~Home(u)) \/ In3(u.host, H.x) THEN [u EXCEPT !.host = "x.com"] ELSE u IN
    IF NoWww(a.host) # "x.com" THEN a ELSE
    LET b == IF a.segs[1] = "intent" THEN a ELSE [a EXCEPT !.query = SelectSeq(@, LAMBDA p : p[1] \in {"q", "f", "pf", "lf"})]
        c == IF "embed-compatibility" \in F /\ Len(b.segs) > 1 /\ b.segs[2] = "status" THEN [b EXCEPT !.host = V(vs, "twitter-embed-host")] ELSE b IN
    IF "nitter" \in F THEN [c EXCEPT !.host = V(vs, "nitter-host")] ELSE c
Bs(u, F, vs) == LET a == [u EXCEPT !.host = "bsky.app"] IN IF "embed-compatibility" \in F THEN [a EXCEPT !.host = V(vs, "bluesky-embed-host")] ELSE a
\* ---- fandom.com and Breezewiki: x.fandom.com/wiki/P <-> host/x/wiki/P
Bw(u, F, vs) ==
    LET a == IF In3(u.host, H.breezewiki) /\ F \cap {"breezewiki", "unbreezewiki"} # {} /\ ~Home(u) THEN [u EXCEPT !.host = u.segs[1] \o ".fandom.com", !.segs = Tail(@)] ELSE u IN
    IF "breezewiki" \in F /\ EndsWith(a.host, ".fandom.com") THEN [a EXCEPT !.host = V(vs, "breezewiki-host"), !.segs = <<Upto(a.host, Len(a.host) - 11)>> \o @] ELSE a
Di(u, F) == IF "discord-unexternal" \in F THEN [host |-> u.segs[4], segs |-> SubSeq(u.segs, 5, Len(u.segs)), query |-> <<>>] ELSE u
Fa(u, F) ==
    LET a == IF "furaffinity-sfw" \in F /\ NoWww(u.host) = "furaffinity.net" THEN [u EXCEPT !.host = "sfw.furaffinity.net"] ELSE u IN
    IF "furaffinity-unsfw" \in F /\ a.host = "sfw.furaffinity.net" THEN [a EXCEPT !.host = "furaffinity.net"] ELSE a
Ig(u, F) == IF "instagram-unprofilecard" \in F /\ Len(u.segs) > 1 /\ u.segs[2] = "profilecard" THEN [u EXCEPT !.segs = <<@[1]>> \o SubSeq(@, 3, Len(@))] ELSE u
Ru(u, F) == IF "remove-unused-search-query" \in F /\ <<"s", "view">> \in RangeOf(u.query) THEN [u EXCEPT !.query = DropQ(@, "tags")] ELSE u
\* ---- blog.tumblr.com/post/1 -> tumblr.com/blog/1
Tu(u0, F) ==
    LET u == [u0 EXCEPT !.query = <<>>] b == IF u.host = "tumblr.com" THEN "" ELSE Upto(u.host, Len(u.host) - 11) IN
    IF "tumblr-unsubdomain-blog" \notin F \/ b \in {"www", "at", ""} THEN u
    ELSE [u EXCEPT !.host = "tumblr.com", !.segs = <<b>> \o (IF @[1] = "post" THEN Tail(@) ELSE @)]
OfFam(f, u, F, vs) ==
    CASE f = "yt" -> Yt(u, F, vs) [] f = "tw" -> Tw(u, F, vs) [] f = "bs" -> Bs(u, F, vs) [] f = "bw" -> Bw(u, F, vs) [] f = "di" -> Di(u, F)
      [] f = "fa" -> Fa(u, F) [] f = "ig" -> Ig(u, F) [] f = "ru" -> Ru(u, F) [] OTHER -> Tu(u, F)
Www(h) == IF NoWww(h) # h THEN NoWww(h) ELSE h
Text(u) == "https://" \o u.host \o "/" \o JoinS(u.segs, "/") \o (IF u.query = <<>> THEN "" ELSE "?" \o JoinS([i \in DOMAIN u.query |-> u.query[i][1] \o "=" \o u.query[i][2]], "&"))
Result(f, u, F, vs) == LET r == OfFam(f, u, F, vs) IN [r EXCEPT !.host = Www(r.host)]

\* families: [name, hosts, segs, query, flags]
Fams == In.families
VARIABLES fam, host, segs, query, fl, vs
vars == <<fam, host, segs, query, fl, vs>>
Init == /\ fam \in 1..Len(Fams) /\ host \in 1..Len(Fams[fam].hosts) /\ segs \in 1..Len(Fams[fam].segs) /\ query \in 1..Len(Fams[fam].query)
        /\ fl = {} /\ vs = 0
\* the environment chooses the flags and the variables
Next == vs = 0 /\ fl' \in SUBSET (1..Len(Fams[fam].flags)) /\ vs' \in 1..Len(In.vars) /\ UNCHANGED <<fam, host, segs, query>>
Spec == Init /\ [][Next]_vars
U == [host |-> Fams[fam].hosts[host], segs |-> Fams[fam].segs[segs], query |-> Fams[fam].query[query]]
F == {Fams[fam].flags[i] : i \in fl}
R == Result(Fams[fam].name, U, F, In.vars[vs])
Ran == vs # 0
\* opposite flags undo one another's direction: the result of a flag that removes front ends names none
Opposite == Ran => /\ ("uninvidious" \in F /\ "invidious" \notin F /\ ~Home(U)) => ~In3(R.host, H.invidious)
                   /\ ("unnitter" \in F /\ F \cap {"nitter", "embed-compatibility"} = {} /\ ~Home(U)) => ~In3(R.host, H.nitter)
                   /\ (Fams[fam].name # "di" => SelectSeq(R.query, LAMBDA p : p[1] # "v") = SelectSeq(R.query, LAMBDA p : p \in RangeOf(U.query) /\ p[1] # "v"))
Emitted == Ran => Emit([url |-> Text(U), flags |-> SetToSeq(F), vars |-> vs, want |-> Text(R)])
=============================================================================
