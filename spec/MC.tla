--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Common part of the bounded models: short constructors for syntax trees, *)
(* the fixed environment, and the documents that are replayed on the       *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Interp
In == JsonDeserialize("inputs.json")

K(k) == [k |-> k]
X(k, x) == [k |-> k, x |-> x]
Str(s) == X("String", s)
SNone == K("None")
SErr == X("Error", "e")
SPart(p) == X("Part", p)
Var(t, n) == X("Var", [type |-> t, name |-> Str(n)])
SpVar(n) == Var("Scratchpad", n)
JoinSrc(ss) == [k |-> "Join", sources |-> ss, join |-> ""]
NTE(s) == X("NoneToEmptyString", s)
FlagRef(t, n) == [type |-> t, name |-> Str(n)]
FlagIs(n) == X("FlagIsSet", FlagRef("Scratchpad", n))
VarIs(n, s) == [k |-> "VarIs", var |-> [type |-> "Scratchpad", name |-> Str(n)], value |-> s]
MErrN == X("Error", "e")
SetP(p, s) == [k |-> "SetPart", part |-> p, value |-> s]
ModP(p, m) == [k |-> "ModifyPart", part |-> p, modification |-> m]
AppendM(s) == X("Append", Str(s))
SetFlag(n, b) == [k |-> "SetScratchpadFlag", name |-> Str(n), value |-> b]
SetVar(n, s) == [k |-> "SetScratchpadVar", name |-> Str(n), value |-> s]
AppVar(n, s) == SetVar(n, JoinSrc(<<NTE(SpVar(n)), Str(s)>>))
IfM(c, a, b) == [k |-> "If", condition |-> c, mapper |-> a, else_mapper |-> b]
Try(a, b) == [k |-> "TryElse", try |-> a, else |-> b]
All(xs) == X("All", xs)
TMap(m, n, e) == [map |-> m, if_null |-> n, else |-> e]
Call(n, fs, vs) == [name |-> Str(n), args |-> [flags |-> fs, vars |-> vs]]
MRule(m) == X("Mapper", m)
NRule(c, m, e) == [k |-> "Normal", condition |-> c, mapper |-> m, else_mapper |-> e]

\* the i-th (from 0) element of a product of sequences with the given lengths: 1-based digits
RECURSIVE Digits0(_, _)
Digits0(i, ls) == IF ls = <<>> THEN <<>> ELSE <<(i % Head(ls)) + 1>> \o Digits0(i \div Head(ls), Tail(ls))
Prod(ls) == FoldLeft(LAMBDA a, b : a * b, 1, ls)

NoSp0 == [flags |-> {}, vars |-> <<>>]
C0 == [cache |-> <<>>, log |-> <<>>]
EnvOf(u, sp, ca) == [commons |-> In.config.commons, params |-> In.config.params, http |-> In.config.http, ctx |-> In.ctx, jctx |-> In.jctx,
                     env |-> In.env, ca |-> ca, url |-> u, sp |-> sp, net |-> <<>>]
UrlOf(s) == ParseUrl(s).v
StepD(kind, node, s, d, to) == [kind |-> kind, node |-> node, s |-> s, d |-> d, to |-> to]
StepN(kind, node) == StepD(kind, node, "", "", <<>>)
Doc(url, flags, vs, steps) == [url |-> url, flags |-> flags, vars |-> vs, ca |-> <<>>, steps |-> steps]
DocCa(url, flags, vs, ca, steps) == [url |-> url, flags |-> flags, vars |-> vs, ca |-> ca, steps |-> steps]
Emit(d) == PrintT(ToJson(d))
=============================================================================
