------------------------------ MODULE MC_Assert ------------------------------
(***************************************************************************)
(* assert_dshape_equal over pairs of datashapes and all flags.             *)
(***************************************************************************)
EXTENDS JudgeChecks, Json, FiniteSets
CONSTANTS Rich
I == CT("int8")
Leaf == {I, <<"time", <<>>>>, <<"time", <<Cp("UTC")>>>>, DateTimeT, <<"datetime", <<Cp("UTC")>>>>, <<"td", "us">>, <<"td", "ms">>, StringT,
         <<"str", <<NInt(3)>>, "U8">>, <<"str", <<NInt(3)>>, "A">>, <<"str", <<>>, "A">>, <<"tv", Cp("A")>>}
Fld(n, t) == <<Cp(n), t>>
Wrap(t, w) == CASE w = 0 -> t [] w = 1 -> OptOf(t) [] w = 2 -> <<"rec", <<Fld("a", t)>>>> [] w = 3 -> <<"tup", <<I, t>>>>
                [] w = 4 -> <<"fun", <<t>>, I>> [] w = 5 -> <<"fun", <<>>, t>> [] w = 6 -> <<"units", Cp("m"), t>> [] w = 7 -> <<"map", t, I>>
                [] w = 8 -> MkDs(<<Fix(NInt(2))>>, t) [] w = 9 -> MkDs(<<VarDim>>, t) [] w = 10 -> MkDs(<<Fix(NInt(2)), VarDim>>, t)
                [] w = 11 -> <<"rec", <<Fld("a", t), Fld("b", I)>>>> [] w = 12 -> <<"rec", <<Fld("b", I), Fld("a", t)>>>>
                [] w = 13 -> <<"rec", <<Fld("a", MkDs(<<VarDim>>, t))>>>> [] w = 14 -> OptOf(MkDs(<<Fix(NInt(3))>>, t))
                [] w = 15 -> <<"cat", <<<<"int", NOne>>>>, t, TRUE>> [] w = 16 -> <<"tup", <<t>>>> [] w = 17 -> <<"units", Cp("s"), t>>
                [] w = 18 -> <<"rec", <<>>>> [] w = 19 -> <<"tup", <<MkDs(<<Fix(NInt(2))>>, t)>>>>
Near(w) == CASE w \in {8, 9, 10} -> {0, 8, 9, 10} [] w \in {2, 11, 12, 13, 18} -> {2, 11, 12, 13, 18} [] w \in {1, 14} -> {0, 1, 14}
             [] w \in {3, 16, 19} -> {3, 16, 19} [] w \in {6, 17} -> {6, 17} [] w \in {4, 5} -> {4, 5} [] OTHER -> {w, 0}
Flags == [dim : BOOLEAN, tz : BOOLEAN, unit : BOOLEAN, enc : BOOLEAN, len : BOOLEAN, order : BOOLEAN]
On == [dim |-> TRUE, tz |-> TRUE, unit |-> TRUE, enc |-> TRUE, len |-> TRUE, order |-> TRUE]
Some == {f \in Flags : Rich \/ Cardinality({k \in DOMAIN f : ~f[k]}) \in {0, 1, 6}}
VARIABLES a, b
Init == \E w \in 0..19, s \in Leaf : a = Wrap(s, w) /\ b = Wrap(s, w)
\* one step: another wrapper or another leaf, or both, or a second wrapper around both
Next == /\ a = b
        /\ \E w \in 0..19, s \in Leaf :
             /\ a = Wrap(s, w) /\ UNCHANGED a
             /\ \E x \in Near(w), t \in Leaf : b' = Wrap(t, x) /\ (x = w \/ t = s)
Spec == Init /\ [][Next]_<<a, b>>
Deep == {<<a, b>>} \cup {<<Wrap(a, w), Wrap(b, w)>> : w \in IF a = b THEN {} ELSE {1, 2, 4, 6, 12} \cup (IF IsDs(a) \/ IsDs(b) THEN {} ELSE {9, 15})}
OkPair(p) == WellFormed(p[1]) /\ WellFormed(p[2])
Good == \A p \in Deep : OkPair(p)
SymmetricA == \A p \in Deep, f \in Some : EqUpTo(p[1], p[2], f) = EqUpTo(p[2], p[1], f)
Strict == \A p \in Deep : EqUpTo(p[1], p[2], On) = SameAs(p[1], p[2])
Looser == \A p \in Deep, f \in Some : EqUpTo(p[1], p[2], f) => \A k \in DOMAIN f : EqUpTo(p[1], p[2], [f EXCEPT ![k] = FALSE])
FSeq == LET RECURSIVE Go(_)
            Go(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Go(S \ {x})
        IN Go(Some)
Emit == \A p \in Deep : PrintT(ToJson(<<p[1], p[2], [i \in 1..Len(FSeq) |-> <<FSeq[i], EqUpTo(p[1], p[2], FSeq[i])>>]>>))
=============================================================================
