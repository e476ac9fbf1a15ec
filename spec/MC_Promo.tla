------------------------------- MODULE MC_Promo ------------------------------
(***************************************************************************)
(* Promotion of all pairs of scalar types.                                 *)
(***************************************************************************)
EXTENDS JudgeNumPy, Json
CONSTANTS Rich
Numbers == {CT(n) : n \in CTypeNames}
Others == {DateT, DateTimeT, TimeT, StringT, NullT, <<"json">>, <<"bytes">>, <<"str", <<NInt(5)>>, "A">>, <<"str", <<NInt(7)>>, "U32">>,
           <<"td", "us">>, <<"td", "Y">>, <<"dec", NInt(9), NZero>>}
More == {<<"td", u>> : u \in TimeUnits} \cup {<<"dec", NInt(p), NInt(k)>> : p \in {2, 4, 9, 18, 19}, k \in {0, 2}}
        \cup {<<"str", f, e>> : f \in {<<>>, <<NZero>>, <<NInt(3)>>}, e \in {"A", "U8", "U16", "U32"}}
        \cup {<<"datetime", <<Cp("UTC")>>>>, <<"time", <<Cp("UTC")>>>>, <<"tv", Cp("T")>>, <<"units", Cp("m"), CT("int8")>>,
              <<"cat", <<<<"int", NOne>>>>, CT("int64"), FALSE>>}
Base == Numbers \cup Others \cup (IF Rich THEN More ELSE {})
All == Base \cup {OptOf(T) : T \in Base}
VARIABLES a, b, opt
Init == a \in All /\ b = NullT /\ opt = FALSE
Next == opt = FALSE /\ b = NullT /\ a' = a /\ b' \in All /\ opt' \in BOOLEAN
Spec == Init /\ [][Next]_<<a, b, opt>>
R == Promote(a, b, opt)
Up(r) == IF r[1] = "ok" THEN <<"ok", EqForm(r[2])>> ELSE r
Same == SameAs(a, b)
Commutes == Up(Promote(b, a, opt)) = Up(R)
Itself == Same => R = NpOk(a)
Absorbs == (R[1] = "ok") => /\ Up(Promote(R[2], a, opt)) = Up(R)
                            /\ Up(Promote(a, R[2], opt)) = Up(R)
                            /\ Up(Promote(R[2], b, opt)) = Up(R)
Optional == (R[1] = "ok" /\ ~Same) => IsOption(R[2]) = (opt /\ (IsOption(a) \/ IsOption(b)))
\* the order of safe conversions between numbers
Np(T) == NpOfCt(T[2])
Safe(x, y) ==
  LET kx == KindOf(x)
      ky == KindOf(y)
  IN \/ x = y \/ ky = "O"
     \/ kx = "b" /\ ky # "O"
     \/ kx = "u" /\ ((ky = "u" /\ BitsOf(x) <= BitsOf(y)) \/ (ky = "i" /\ BitsOf(x) < BitsOf(y)))
     \/ kx = "i" /\ ky = "i" /\ BitsOf(x) <= BitsOf(y)
     \/ kx \in {"u", "i"} /\ ky \in {"f", "c"} /\ FloatForInt(BitsOf(x)) <= BitsOf(y)
     \/ kx = "f" /\ ky \in {"f", "c"} /\ BitsOf(x) <= BitsOf(y)
     \/ kx = "c" /\ ky = "c" /\ BitsOf(x) <= BitsOf(y)
IsNum(T) == T[1] = "ct" /\ T[2] \notin {"void", "char"}
\* an upper bound with none strictly below it, and the least integer one where there is one
Least == (IsNum(a) /\ IsNum(b)) =>
           LET ups == {q \in NpNames : Safe(Np(a), q) /\ Safe(Np(b), q)}
               ints == {q \in ups : KindOf(q) \in {"u", "i"}}
               r == Np(R[2])
           IN /\ R[1] = "ok" /\ IsNum(R[2])
              /\ r \in ups
              /\ \A q \in ups : Safe(q, r) => q = r
              /\ (ints # {} /\ r # "bool_") => \A q \in ints : Safe(r, q)
Emit == PrintT(ToJson(<<a, b, opt, R>>))
=============================================================================
