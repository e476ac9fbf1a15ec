------------------------------- MODULE MC_Types ------------------------------
(***************************************************************************)
(* All datashapes built by few constructors from few leaves: the round     *)
(* trip through their text holds, and each one is replayed into the code.  *)
(***************************************************************************)
EXTENDS Printer, Json
CONSTANTS Depth, Leaves, Wide

LeafSet ==
  CASE Leaves = "few" -> {CT("int32"), StringT}
    [] Leaves = "all" -> {CT(n) : n \in CTypeNames} \cup {NullT, DateT, <<"bytes">>, <<"json">>, TimeT, DateTimeT, <<"tv", Cp("A")>>}
         \cup {<<"time", <<Cp("UTC")>>>>, <<"datetime", <<Cp("Europe/Berlin")>>>>, <<"datetime", <<<<>>>>>>}
         \cup {<<"td", u>> : u \in TimeUnits}
         \cup {<<"str", f, e>> : f \in {<<>>, <<NZero>>, <<NInt(7)>>, <<NFromDigits(1, Cp("98765432109876543210"))>>}, e \in {"A", "U8", "U16", "U32"}}
         \cup {<<"dec", NInt(p), NInt(k)>> : p \in {0, 18}, k \in {-2, 0, 3}}
         \cup {<<"units", Cp("m"), CT(n)>> : n \in {"float64", "int8"}}
         \cup {<<"cat", cs, ty, o>> : cs \in {<<>>, <<<<"int", NInt(-1)>>, <<"int", NInt(2)>>>>, <<<<"str", Cp("a b")>>>>, <<<<"bool", TRUE>>>>},
                                     ty \in {CT("int64"), StringT}, o \in BOOLEAN}
    [] Leaves = "texts" ->
         LET tx == {<<>>, <<39>>, <<34>>, <<92>>, <<39, 34>>, <<92, 110>>, <<10>>, <<32>>, <<35>>, <<233>>, <<8232>>, <<133>>, <<0>>,
                    <<127>>, <<55357>>, <<128512>>, <<97, 10>>, <<49, 97>>, <<45>>, <<84, 114, 117, 101>>, <<92, 39>>, <<39, 39>>, <<160>>, <<44>>}
         IN {<<"rec", <<<<t, CT("int8")>>>>>> : t \in tx} \cup {<<"time", <<t>>>> : t \in tx} \cup {<<"datetime", <<t>>>> : t \in tx}
            \cup {<<"units", t, CT("int8")>> : t \in tx} \cup {<<"cat", <<<<"str", t>>>>, StringT, FALSE>> : t \in tx}
            \cup {<<"rec", <<<<t, CT("int8")>>, <<u, CT("int8")>>>>>> : t \in tx \ {<<34>>, <<39>>}, u \in {<<34>>, <<39>>, <<97>>}}
DimSet == IF Wide THEN {Fix(NZero), Fix(NInt(3)), VarDim, <<"tv", Cp("N")>>, <<"ell", <<>>>>, <<"ell", <<Cp("M")>>>>}
          ELSE {Fix(NInt(3)), VarDim, <<"ell", <<>>>>}
VARIABLES T, left
Init == T \in LeafSet /\ left = Depth
Grow(x) == left > 0 /\ left' = left - 1 /\ T' = x
AddDim == \E d \in DimSet : Grow(MkDs(<<d>>, T))
Small == CT("int8")
Nest == \/ Grow(OptOf(T))
        \/ Grow(<<"tup", <<T>>>>)
        \/ Grow(<<"rec", <<<<Cp("a"), T>>>>>>)
        \/ Grow(<<"map", T, Small>>) \/ Grow(<<"map", Small, T>>)
        \/ Grow(<<"fun", <<T>>, Small>>) \/ Grow(<<"fun", <<>>, T>>) \/ Grow(<<"fun", <<Small>>, T>>)
        \/ Grow(<<"units", Cp("m"), T>>)
Grow2 == \/ Grow(<<"tup", <<T, T>>>>) \/ Grow(<<"tup", <<Small, T>>>>)
         \/ Grow(<<"rec", <<<<Cp("b"), T>>, <<Cp("a"), Small>>>>>>)
         \/ Grow(<<"rec", <<<<Cp("a"), Small>>, <<Cp("b"), T>>>>>>)
Empty == Grow(<<"rec", <<>>>>) \/ Grow(<<"tup", <<>>>>)
CatOf == IsDs(T) = FALSE /\ Grow(<<"cat", <<<<"int", NOne>>>>, T, TRUE>>)
Next == AddDim \/ Nest \/ (Wide /\ (Grow2 \/ CatOf \/ Empty))
Spec == Init /\ [][Next]_<<T, left>>

Good == WellFormed(T)
RoundTrip == Expressible(T) => DShape(Unparse(T)) = OkT(T)
Inexpressible == ~Expressible(T) => ManyWildcards(T)
Emit == Expressible(T) => PrintT(ToJson(<<T, Unparse(T)>>))
=============================================================================
