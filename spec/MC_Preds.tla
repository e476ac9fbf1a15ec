------------------------------- MODULE MC_Preds ------------------------------
(***************************************************************************)
(* The predicates over all datashapes built from few parts, and how they   *)
(* hang together.                                                          *)
(***************************************************************************)
EXTENDS JudgeChecks, Json
CONSTANTS Depth, Leaves, Wide
Tv(n) == <<"tv", Cp(n)>>
LeafSet == CASE Leaves = "few" -> {CT("int32"), CT("bool"), Tv("A")}
             [] OTHER -> {CT(n) : n \in CTypeNames} \cup {NullT, DateT, TimeT, DateTimeT, <<"datetime", <<Cp("UTC")>>>>, <<"time", <<Cp("UTC")>>>>, <<"td", "us">>, <<"td", "D">>,
                           StringT, <<"str", <<NInt(3)>>, "A">>, <<"dec", NInt(5), NInt(2)>>, <<"dec", NInt(18), NZero>>, <<"bytes">>, <<"json">>, Tv("A"),
                           <<"units", Cp("m"), CT("float64")>>, <<"cat", <<<<"int", NOne>>>>, CT("int64"), FALSE>>,
                           <<"rec", <<>>>>, <<"tup", <<>>>>, <<"fun", <<>>, CT("int8")>>}
DimSet == {Fix(NInt(3)), VarDim, Tv("N"), <<"ell", <<>>>>, <<"ell", <<Cp("M")>>>>}
VARIABLES T, left
Init == T \in LeafSet /\ left = Depth
Grow(x) == left > 0 /\ left' = left - 1 /\ T' = x
I == CT("int32")
Next == \/ \E d \in DimSet : (d[1] = "ell" => ~HasDim(MkDs(DimsOf(T), NullT), {"ell"})) /\ Grow(MkDs(<<d>>, T))
        \/ Grow(OptOf(T)) \/ Grow(<<"tup", <<T>>>>) \/ Grow(<<"rec", <<<<Cp("a"), T>>>>>>)
        \/ Grow(<<"rec", <<<<Cp("b"), I>>, <<Cp("a"), T>>>>>>)
        \/ Wide /\ (Grow(<<"tup", <<T, T>>>>) \/ Grow(<<"tup", <<OptOf(T), T>>>>) \/ Grow(<<"map", T, I>>) \/ Grow(<<"map", I, T>>)
                    \/ Grow(<<"fun", <<T>>, I>>) \/ Grow(<<"fun", <<I>>, T>>) \/ Grow(<<"units", Cp("m"), T>>))
Spec == Init /\ [][Next]_<<T, left>>
Good == WellFormed(T)
Coherent == /\ ~(PScalar(T) /\ PRecord(T))
            /\ PScalar(T) => PHomogeneous(T) /\ ~PCollection(T)
            /\ PReal(T) => PNumeric(T) = "yes"
            /\ PBoolean(T) => PNumeric(T) = "no"
            /\ PDateLike(T) => PNumeric(T) = "no"
            /\ HasDim(T, {"ell"}) => HasDim(T, {"var", "ell"})
            /\ (PFixed(T) = "yes" => ~HasDim(MkDs(DimsOf(T), NullT), {"var", "ell"}))
            /\ (PTabular(T) => PRecord(MeasureOf(T)) /\ DimsOf(T) # <<>>)
            /\ (T[1] = "opt" /\ T[2][1] # "opt" => (PScalar(T) = PScalar(T[2]) /\ PRecord(T) = PRecord(T[2])))
\* dimensions in front change no property of the measure
OuterDims == ~HasDim(T, {"ell"}) =>
   LET D == MkDs(<<Fix(NInt(2))>>, T) IN /\ PNumeric(D) = PNumeric(T) /\ PReal(D) = PReal(T) /\ PBoolean(D) = PBoolean(T) /\ PDateLike(D) = PDateLike(T)
                                         /\ PHomogeneous(D) = PHomogeneous(T) /\ PCollection(D) /\ PFixed(D) = PFixed(T)
CollectAll == LET all == CollectT(T, {"fix", "var", "ell"}) IN
              (\E i \in 1..Len(all) : all[i][1] \in {"var", "ell"}) = HasDim(T, {"var", "ell"})
KindLists == <<<<"ct">>, <<"fix", "var">>, <<"tv">>, <<"rec", "ct">>, <<"opt", "ell">>, <<"tup", "map", "fun">>>>
Emit == PrintT(ToJson(<<T, [p \in PredNames |-> Says(p, T)], [i \in 1..Len(KindLists) |-> <<KindLists[i], CollectT(T, RangeOf(KindLists[i]))>>]>>))
=============================================================================
