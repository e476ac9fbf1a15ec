-------------------------------- MODULE MC_Eq --------------------------------
(***************************************************************************)
(* Equality over a universe of small datashapes: an equivalence, told      *)
(* apart by the canonical text.  All pairs are replayed into the code.     *)
(***************************************************************************)
EXTENDS Printer, Json
CONSTANT Big
I == CT("int8")
J == CT("int32")
Base == {I, J, StringT, NullT, DateT, TimeT, <<"time", <<Cp("UTC")>>>>, DateTimeT, <<"datetime", <<Cp("UTC")>>>>, <<"td", "us">>, <<"td", "ms">>,
         <<"str", <<NInt(3)>>, "U8">>, <<"str", <<NInt(3)>>, "A">>, <<"str", <<>>, "A">>, <<"dec", NInt(3), NInt(2)>>, <<"dec", NInt(3), NZero>>,
         <<"dec", NInt(2), NInt(3)>>, <<"tv", Cp("A")>>, <<"tv", Cp("B")>>, <<"bytes">>, <<"json">>}
Sub1 == {I, J, MkDs(<<Fix(NInt(2))>>, I)}
Mid == {OptOf(t) : t \in Sub1} \cup {<<"map", a, b>> : a \in Sub1, b \in Sub1} \cup {<<"tup", <<a, b>>>> : a \in Sub1, b \in Sub1}
       \cup {<<"tup", <<>>>>, <<"tup", <<I>>>>, <<"rec", <<>>>>} \cup {<<"fun", <<a>>, b>> : a \in {I, J}, b \in {I, J}} \cup {<<"fun", <<>>, I>>, <<"fun", <<I, I>>, I>>}
       \cup {<<"rec", <<<<n, a>>>>>> : n \in {Cp("a"), Cp("b")}, a \in Sub1}
       \cup {<<"rec", <<<<Cp("a"), a>>, <<Cp("b"), b>>>>>> : a \in {I, J}, b \in {I, J}} \cup {<<"rec", <<<<Cp("b"), a>>, <<Cp("a"), b>>>>>> : a \in {I, J}, b \in {I, J}}
       \cup {<<"units", u, t>> : u \in {Cp("m"), Cp("s")}, t \in {CT("float64"), I}}
       \cup {<<"cat", cs, t, o>> : cs \in {<<>>, <<<<"int", NOne>>>>, <<<<"bool", TRUE>>>>, <<<<"int", NOne>>, <<"int", NInt(2)>>>>, <<<<"int", NInt(2)>>, <<"int", NOne>>>>,
                                           <<<<"str", Cp("1")>>>>}, t \in {CT("int64"), StringT}, o \in BOOLEAN}
       \cup {<<"rec", <<<<Cp("a"), OptOf(I)>>>>>>, OptOf(<<"rec", <<<<Cp("a"), I>>>>>>), OptOf(OptOf(I)), <<"tup", <<<<"tup", <<I>>>>>>>>}
Dimmed == {MkDs(ds, t) : ds \in {<<Fix(NInt(2))>>, <<Fix(NInt(3))>>, <<Fix(NZero)>>, <<VarDim>>, <<<<"tv", Cp("A")>>>>, <<<<"ell", <<>>>>>>, <<<<"ell", <<Cp("A")>>>>>>,
                                 <<Fix(NInt(2)), VarDim>>, <<VarDim, Fix(NInt(2))>>}, t \in {I, J, OptOf(I), <<"tv", Cp("A")>>}}
          \cup {OptOf(MkDs(<<VarDim>>, I)), OptOf(MkDs(<<Fix(NInt(3))>>, I))}
U == Base \cup Mid \cup (IF Big THEN Dimmed ELSE {d \in Dimmed : MeasureOf(d) \in {I, OptOf(I)}})
VARIABLES a, b
Init == a \in U /\ b \in U
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
E(x, y) == EqForm(x) = EqForm(y)
Symmetric == E(a, b) = E(b, a) /\ (a = b => E(a, b))
Transitive == E(a, b) => \A c \in U : E(b, c) = E(a, c)
NoCats(t) == t[1] # "cat"
TextsDiffer == NoCats(a) /\ NoCats(b) => (E(a, b) <=> Unparse(a) = Unparse(b))
Emit == PrintT(ToJson(<<a, b, E(a, b)>>))
=============================================================================
