------------------------------ MODULE MC_Regex ------------------------------
(***************************************************************************)
(* Regular expressions under every set of flags (C16): In.rx holds, for    *)
(* each of the 128 sets of flags in binary order, four patterns that the   *)
(* flags matter to, and then patterns under other line terminators and     *)
(* without unicode.                                                        *)
(***************************************************************************)
EXTENDS MC
VARIABLE cs
NP == 4
Init == cs \in 1..Len(In.rx)
Next == FALSE /\ UNCHANGED cs
Spec == Init /\ [][Next]_cs
Texts == <<"", "a", "A", "b", "aab", "aAbB", "ab", "a b #1\nB", "abB", "AB", "a\nb", "a\r\nb", "b\r", "\r\nab", "a\r", "\ra\n", "\n", "\r\n", "x\ny\rz\r\nw", "141", "\\141", "a.b", "aXa\nab\r\naab", "bab", "b" \o Chr(0) \o "b">>
E0 == EnvOf(UrlOf("https://www.example.com/"), NoSp0, <<>>)
Has(r, t) == Mat(X("Regex", r), t, E0, C0)
Found(r, t) == Mod([k |-> "JoinAllRegexCaptures", regex |-> r, replace |-> Str("<$0>"), join |-> Str(",")], t, E0, C0)
Index == cs - 1
Flags == Index \div NP
HasFlag(b) == (Flags \div b) % 2 = 1
Other(b) == In.rx[IF HasFlag(b) THEN cs - b * NP ELSE cs + b * NP]
Described(r) == r.rx # <<>>
Law ==
    LET r == In.rx[cs] IN
    /\ \A i \in 1..Len(Texts) : Has(r, Texts[i]).k = "ok" => ~r.bad /\ (Has(r, Texts[i]).v = (Len(RxAll(r.rx[1], Texts[i], 1, 0)) > 0))
    /\ cs <= 128 * NP => \A i \in 1..Len(Texts) :
         LET t == Texts[i]
             both(q) == Described(r) /\ Described(q) IN
         \* greed decides how much is found, not whether anything is
         /\ both(Other(64)) => Has(r, t) = Has(Other(64), t)
         \* ignoring case, letting . match everything and giving ^ and $ more places only adds matches
         /\ (HasFlag(1) /\ both(Other(1)) /\ Has(Other(1), t) = Ok(TRUE, C0)) => Has(r, t) = Ok(TRUE, C0)
         /\ (HasFlag(4) /\ both(Other(4)) /\ Has(Other(4), t) = Ok(TRUE, C0)) => Has(r, t) = Ok(TRUE, C0)
         /\ (HasFlag(16) /\ both(Other(16)) /\ Has(Other(16), t) = Ok(TRUE, C0)) => Has(r, t) = Ok(TRUE, C0)
         \* which of \r and \n ends a line does not matter where there are none
         /\ (both(Other(2)) /\ ~HasStr(t, "\r")) => Found(r, t) = Found(Other(2), t)
    \* octal decides whether \141 is a character; nothing else is wrong with any of these
    /\ cs <= 128 * NP => r.bad = (Index % NP = 3 /\ ~HasFlag(32))
Emitted == Emit(Doc("https://www.example.com/", <<>>, <<>>, FoldLeft(LAMBDA acc, t : acc \o <<StepD("mat", X("Regex", In.rx[cs]), t, "", <<>>),
              StepD("mod", [k |-> "JoinAllRegexCaptures", regex |-> In.rx[cs], replace |-> Str("<$0>"), join |-> Str(",")], t, "", <<>>)>>, <<>>, Texts)))
=============================================================================
