------------------------------- MODULE MC_NumPy ------------------------------
(***************************************************************************)
(* NumPy dtypes built from all scalar ones: converting to a datashape and  *)
(* back gives the dtype again, as far as datashapes tell them apart.       *)
(***************************************************************************)
EXTENDS JudgeNumPy, Json
CONSTANTS Depth, AllScalars
Widths == {NZero, NOne, NInt(7), NInt(10000), NInt(99999999)}
NpUnits == TimeUnits \cup {"ps", "fs", "as", "generic"}
Scalars == IF AllScalars
           THEN {<<"n", n>> : n \in NpNames} \cup {<<k, w>> : k \in {"S", "U"}, w \in Widths}
                \cup {<<k, u, NOne>> : k \in {"M", "m"}, u \in NpUnits} \cup {<<k, "s", NInt(25)>> : k \in {"M", "m"}}
                \cup {<<"V", NZero>>, <<"V", NInt(8)>>}
           ELSE {<<"n", "int8">>, <<"S", NInt(7)>>, <<"M", "ns", NOne>>, <<"m", "s", NOne>>, <<"V", NInt(3)>>}
DtShapes == {<<>>, <<NInt(3)>>, <<NZero>>, <<NInt(2), NOne>>}
VARIABLES d, left
Init == d \in Scalars /\ left = Depth
FieldShapes == IF Sizeless(d) THEN {<<>>} ELSE DtShapes
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ \E s \in FieldShapes : d' = <<"rec", <<<<Cp("a"), s, d>>>>>>
           \/ \E s \in FieldShapes : d' = <<"rec", <<<<Cp("b c"), <<>>, <<"n", "bool">>>>, <<Cp("a"), s, d>>>>>>
           \/ \E s \in FieldShapes : d' = <<"rec", <<<<Cp("x"), s, d>>, <<Cp("y"), <<>>, d>>>>>>
Spec == Init /\ [][Next]_<<d, left>>
R(s) == FromNp(s, d)
Good == R(<<>>)[1] = "ok" => WellFormed(R(<<>>)[2])
RoundTrip == \A s \in DtShapes : R(s)[1] = "ok" => ToNp(R(s)[2]) = NpOk(<<s, Told(d)>>)
\* what comes back is a fixed point
Stable == R(<<>>)[1] = "ok" => FromNp(<<>>, Told(d)) = R(<<>>)
Emit == \A s \in DtShapes : PrintT(ToJson(<<s, d, R(s), IF R(s)[1] = "ok" THEN ToNp(R(s)[2]) ELSE NpExc>>))
=============================================================================
