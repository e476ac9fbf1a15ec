------------------------------- MODULE MC_Index ------------------------------
(***************************************************************************)
(* Indexing small datashapes by every index of a universe: the counting of *)
(* slices agrees with walking them, and every case is replayed.            *)
(***************************************************************************)
EXTENDS Index, Json, FiniteSets, TLC
CONSTANTS Mode,      \* "slices", "fields", "tuples" or "drop"
          Len1       \* length of tuples

Opt1(S) == {<<>>} \cup {<<NInt(k)>> : k \in S}
Slices(B, S) == {<<"slice", a, b, s>> : a \in Opt1(B), b \in Opt1(B), s \in Opt1(S)}
I(k) == <<"int", NInt(k)>>
Nm(s) == <<"name", Cp(s)>>
Rec0 == <<"rec", <<>>>>
Rec2 == <<"rec", <<<<Cp("a"), CT("int8")>>, <<Cp("b"), <<"ds", <<VarDim, Fix(NInt(2))>>, StringT>>>>>>>>
Rec4 == <<"rec", <<<<Cp("a"), CT("int8")>>, <<Cp("b"), StringT>>, <<Cp("c"), Rec2>>, <<Cp("0"), DateT>>>>>>
Dim(k) == IF k = -1 THEN VarDim ELSE IF k = -2 THEN <<"tv", Cp("N")>> ELSE IF k = -3 THEN <<"ell", <<>>>> ELSE Fix(NInt(k))
Shapes(S, n, M) == {MkDs([i \in 1..n |-> Dim(f[i])], m) : f \in [1..n -> S], m \in M}
Terms == CASE Mode = "slices" -> Shapes(-3..5, 1, {CT("int32")})
           [] Mode = "fields" -> {Rec0, Rec2, Rec4, OptOf(Rec2), CT("int32"), <<"tv", Cp("T")>>}
           [] Mode = "drop" -> UNION {Shapes({-3, -1, 0, 3}, n, {Rec2, CT("int8")}) : n \in 0..3}
           [] OTHER -> UNION {Shapes({-2, -1, 0, 3}, n, {Rec2, CT("int8")}) : n \in 0..2}
Fields == {I(k) : k \in -5..4} \cup {Nm(s) : s \in {"a", "b", "c", "0", "z", ""}}
Few == {I(0), I(-1), I(7), <<"none">>, Nm("a"), Nm("b"), Nm("z"),
        <<"slice", <<>>, <<>>, <<>>>>, <<"slice", <<NInt(1)>>, <<>>, <<>>>>, <<"slice", <<>>, <<NInt(2)>>, <<>>>>,
        <<"slice", <<>>, <<NInt(-1)>>, <<>>>>, <<"slice", <<>>, <<>>, <<NInt(-2)>>>>, <<"slice", <<>>, <<>>, <<NInt(0)>>>>,
        <<"list", <<>>>>, <<"list", <<I(0), I(2)>>>>, <<"list", <<Nm("b")>>>>, <<"list", <<I(1), Nm("a")>>>>}
Items == CASE Mode = "slices" -> Slices(-7..7, -3..3)
           [] Mode = "fields" -> Fields \cup Slices({-9, -4, -3, -1, 0, 1, 2, 4, 9}, {-3, -1, 0, 1, 2})
                \cup {<<"list", <<>>>>} \cup {<<"list", <<a>>>> : a \in Fields} \cup {<<"list", <<a, b>>>> : a, b \in Fields} \cup {<<"none">>}
           [] Mode = "drop" -> {I(k) : k \in -2..5}
           [] OTHER -> Few

VARIABLES T, ix
Init == T \in Terms /\ ix = <<"tuple", <<>>>>
Next == /\ UNCHANGED T
        /\ \/ Mode = "tuples" /\ ix[1] = "tuple" /\ Len(ix[2]) < Len1 /\ \E x \in Items : ix' = <<"tuple", Append(ix[2], x)>>
           \/ ix = <<"tuple", <<>>>> /\ \E x \in Items : ix' = x
Spec == Init /\ [][Next]_<<T, ix>>

R == Sub(T, ix)
Good == R[1] \in {"ok", "maybe"} => WellFormed(R[2])
\* what a slice of n items selects, without clipping its bounds first
Walk(n, sl) ==
  LET step == IF sl[4] = <<>> THEN 1 ELSE NToInt(sl[4][1])
      norm(x) == IF x < 0 THEN x + n ELSE x
      start == IF sl[2] = <<>> THEN (IF step > 0 THEN 0 ELSE n-1) ELSE norm(NToInt(sl[2][1]))
      first == IF step > 0 THEN (IF start < 0 THEN 0 ELSE start) ELSE (IF start > n-1 THEN n-1 ELSE start)
      before(i) == IF sl[3] = <<>> THEN TRUE ELSE IF step > 0 THEN i < norm(NToInt(sl[3][1])) ELSE i > norm(NToInt(sl[3][1]))
  IN {i \in 0..(n-1) : before(i) /\ \E j \in 0..n : i = first + j*step}
IsSlice == ix[1] = "slice" /\ ~ZeroStep(ix)
SliceWalk == (IsSlice /\ T[1] = "ds" /\ T[2][1][1] = "fix") =>
               LET n == NToInt(T[2][1][2])
               IN /\ R = IxOk(MkDs(<<Fix(NInt(Cardinality(Walk(n, ix))))>>, MkDs(Tail(T[2]), T[3])))
                  /\ RangeOf(SlicePositions(n, ix)) = {i+1 : i \in Walk(n, ix)}
\* a length given for a variable dimension is that of any long enough one
VarTrue == (IsSlice /\ T[1] = "ds" /\ T[2][1] = VarDim /\ R[1] = "ok" /\ R[2][2][1] # VarDim) =>
             NToInt(R[2][2][1][2]) = Cardinality(Walk(30, ix))
\* one index, alone or in a tuple; a full slice in front; the empty tuple
Wrap1 == ix[1] \notin {"tuple", "none"} => Sub(T, <<"tuple", <<ix>>>>) = R
FullFirst == (ix[1] = "tuple" /\ ix[2] # <<>> /\ \A i \in 1..Len(ix[2]) : ix[2][i] # <<"none">>) =>
               LET full == <<"slice", <<>>, <<>>, <<>>>>
                   more == Sub(MkDs(<<Fix(NInt(4))>>, T), <<"tuple", <<full>> \o ix[2]>>)
               IN more = Then(R, LAMBDA U : IxOk(MkDs(<<Fix(NInt(4))>>, U)))
EmptyIndex == ix = <<"tuple", <<>>>> => R = IxOk(T)
Dropped == (Mode = "drop" /\ ix[1] = "int") =>
             LET s == SubArray(T, ix[2]) IN s[1] = "ok" => Len(DimsOf(s[2])) + NToInt(ix[2]) = Len(DimsOf(T)) /\ MeasureOf(s[2]) = MeasureOf(T)
Emit == IF Mode = "drop" THEN (ix[1] = "int" => PrintT(ToJson(<<T, ix[2], SubArray(T, ix[2])>>)))
        ELSE PrintT(ToJson(<<T, ix, R>>))
=============================================================================
