------------------------------- MODULE MC_Valid ------------------------------
(***************************************************************************)
(* Schemas and values built side by side: values that fit, and values made *)
(* not to fit at one place.                                                *)
(***************************************************************************)
EXTENDS JudgeChecks, Json
CONSTANTS Depth, Pool
VARIABLES T, v, left
S(x) == <<"seq", x>>
Scalars == {<<"int">>, <<"float">>, <<"bool">>, <<"complex">>, <<"str", Cp("a"), "none">>, <<"none">>, <<"date">>, <<"datetime">>, <<"time">>, <<"bytes">>,
            <<"np", <<"n", "int32">>>>, <<"np", <<"n", "float64">>>>, <<"np", <<"n", "bool">>>>, S(<<>>), <<"map", <<>>>>}
Few == {<<"int">>, <<"str", Cp("a"), "none">>, <<"none">>}
Sc == IF Pool = "wide" THEN Scalars ELSE Few
Types0 == IF Pool = "wide" THEN {CT(n) : n \in {"int64", "int32", "uint8", "float64", "float32", "bool", "complex[float64]"}}
                                \cup {StringT, <<"str", <<NInt(3)>>, "A">>, DateT, TimeT, DateTimeT, <<"rec", <<>>>>}
          ELSE {CT("int64"), StringT}
Init == T \in Types0 /\ v \in Sc /\ left = Depth
A == Cp("a")
B == Cp("b")
I == CT("int64")
Next ==
  /\ left > 0 /\ left' = left - 1
  /\ \/ \E d \in {Fix(NInt(0)), Fix(NInt(1)), Fix(NInt(2)), VarDim, <<"tv", Cp("N")>>} :
          T' = MkDs(<<d>>, T) /\ \E n \in 0..2, x \in Few : v' \in {S([i \in 1..n |-> v]), S(<<v, x>>)}
     \/ /\ T' \in {<<"rec", <<<<A, T>>>>>>, <<"rec", <<<<A, T>>, <<B, I>>>>>>, <<"rec", <<<<B, I>>, <<A, T>>>>>>}
        /\ v' \in {<<"map", <<<<A, v>>>>>>, <<"map", <<<<A, v>>, <<B, <<"int">>>>>>>>, <<"omap", <<<<B, <<"int">>>>, <<A, v>>>>>>, S(<<v>>), S(<<v, <<"int">>>>), S(<<<<"int">>, v>>),
                   <<"mproxy", <<<<A, v>>, <<B, <<"int">>>>>>>>, v}
Spec == Init /\ [][Next]_<<T, v, left>>
\* what is discovered validates the value, where nothing was converted to a common type
RECURSIVE Checked(_)
Checked(t) == LET k == Kids(MeasureOf(t)) IN
  /\ MeasureOf(t)[1] \in {"rec", "ct", "str", "date", "time", "datetime"} /\ MeasureOf(t) \notin {CT("object"), CT("void"), CT("char")}
  /\ \A i \in 1..Len(k) : Checked(k[i])
Decided == Checked(T) => Conforms(T, v) # "any"
RECURSIVE Uniform(_)
Uniform(x) ==
  CASE x[1] = "seq" -> /\ \A i \in 1..Len(x[2]) : Uniform(x[2][i]) /\ Disc(x[2][i]) = Disc(x[2][1])
                       /\ Len(x[2]) > 0
    [] x[1] \in {"map", "omap"} -> \A i \in 1..Len(x[2]) : Uniform(x[2][i][2])
    [] OTHER -> x[1] \notin {"mproxy", "none", "bytes", "np"} /\ (x[1] = "str" => Disc(x) = StringT)
Self == Uniform(v) /\ Checked(Disc(v)) => Conforms(Disc(v), v) = "yes"
\* a value of a mapping may hold more than the record names
Wider == MeasureOf(T)[1] = "rec" /\ T[1] # "ds" /\ v[1] = "map" /\ B \notin NameSet(v[2]) /\ B \notin NameSet(T[2])
            => Conforms(T, <<"map", Append(v[2], <<B, <<"none">>>>)>>) = Conforms(T, v)
Emit == PrintT(ToJson(<<T, v, Conforms(T, v)>>))
=============================================================================
