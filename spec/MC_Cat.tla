-------------------------------- MODULE MC_Cat -------------------------------
(***************************************************************************)
(* Concatenation of all short lists of small datashapes.                   *)
(***************************************************************************)
EXTENDS Index, Json, TLC
CONSTANTS N, Rich
Big == Fix(NFromDigits(1, Cp("9223372036854775807")))
Lead == IF Rich THEN {Fix(NZero), Fix(NInt(3)), Fix(NInt(9999)), Big, VarDim, <<"tv", Cp("N")>>, <<"ell", <<>>>>}
        ELSE {Fix(NZero), Fix(NInt(3)), Big, VarDim}
Rest == {CT("int32"), <<"ds", <<VarDim>>, CT("int32")>>, <<"ds", <<Fix(NInt(3))>>, CT("int32")>>, OptOf(CT("int32")), <<"tv", Cp("N")>>}
        \cup (IF Rich THEN {StringT, <<"ds", <<<<"tv", Cp("N")>>>>, CT("int32")>>, <<"ds", <<<<"tv", Cp("N")>>, VarDim>>, CT("int32")>>, <<"ds", <<<<"ell", <<>>>>>>, CT("int32")>>,  <<"ds", <<Fix(NInt(3)), VarDim>>, CT("int32")>>, <<"rec", <<<<Cp("a"), CT("int32")>>>>>>, <<"rec", <<>>>>} ELSE {})
Universe == {MkDs(<<d>>, r) : d \in Lead, r \in Rest} \cup Rest
VARIABLE ts
Init == ts = <<>>
Next == Len(ts) < N /\ \E T \in Universe : ts' = Append(ts, T)
Spec == Init /\ [][Next]_ts
R == CatDs(ts)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s)+1-i]]
Good == R[1] = "ok" => WellFormed(R[2])
\* order does not matter to the result, nor does grouping
Commutes == Len(ts) # 1 => CatDs(Rev(ts)) = R
Groups == Len(ts) >= 3 => LET a == CatDs(SubSeq(ts, 1, 2))
                              b == CatDs(<<a[2]>> \o SubSeq(ts, 3, Len(ts)))
                          IN IF a[1] = "ok" THEN b = R ELSE R = IxExc
Emit == PrintT(ToJson(<<ts, R>>))
=============================================================================
