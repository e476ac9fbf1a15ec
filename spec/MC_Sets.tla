------------------------------- MODULE MC_Sets -------------------------------
(***************************************************************************)
(* Type sets: every member once in order, and the kinds partition numbers. *)
(***************************************************************************)
EXTENDS JudgeChecks, Json, FiniteSets
CONSTANTS N
Pool == {CT("int8"), CT("int64"), CT("float32"), CT("bool"), StringT, OptOf(CT("int8"))}
All == {CT(n) : n \in CTypeNames} \cup {OptOf(CT(n)) : n \in CTypeNames}
       \cup {<<"dec", NInt(p), NInt(k)>> : p \in {3, 11}, k \in {0, 2}} \cup {OptOf(<<"dec", NInt(3), NInt(2)>>)} \cup {<<"td", u>> : u \in TimeUnits}
       \cup {OptOf(<<"td", "ms">>), StringT, DateT, NullT, OptOf(OptOf(CT("int8"))), <<"rec", <<>>>>, <<"tv", Cp("A")>>, OptOf(StringT),
             MkDs(<<Fix(NInt(3))>>, CT("int16")), MkDs(<<VarDim>>, OptOf(CT("float16"))), <<"cat", <<>>, CT("int64"), FALSE>>}
VARIABLES ts, us
Init == ts = <<>> /\ us = <<>>
Next == \/ us = <<>> /\ Len(ts) < N /\ \E T \in Pool : ts' = Append(ts, T) /\ us' = us
        \/ Len(us) < N - 1 /\ \E T \in Pool : us' = Append(us, T) /\ ts' = ts
Spec == Init /\ [][Next]_<<ts, us>>
OnceAll == /\ Distinct(Once(ts)) /\ RangeOf(Once(ts)) = RangeOf(ts) /\ Once(Once(ts)) = Once(ts)
           /\ Once(Once(ts) \o us) = Once(ts \o us) /\ Once(ts \o Once(us)) = Once(ts \o us)
Partition == \A x \in All : LET n == Cardinality({k \in BaseKinds : UnOpt(x) \in SetTypes(k)}) IN
               n = (IF UnOpt(x)[1] = "ct" /\ UnOpt(x)[2] \in KindSets["scalar"] THEN 1 ELSE 0)
FixedPoint == \A x \in All : LET r == WidestOf(x) IN r[1] = "ok" => WidestOf(r[2]) = r /\ SuperOf(r[2]) = SuperOf(MeasureOf(x))
Matches == LET s == <<"set", Once(ts)>> IN \A x \in Pool : MatchSig(<<"one", x>>, s) = "yes" <=> x \in RangeOf(ts)
Emit == PrintT(ToJson(<<ts, us, Once(ts), Once(ts \o us), IF ts = <<>> THEN <<>> ELSE
           LET RECURSIVE Go(_)
               Go(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x, SuperOf(x), WidestOf(x)>>>> \o Go(S \ {x})
           IN IF us = <<>> /\ Len(ts) = 1 THEN Go(All) ELSE <<>>>>))
=============================================================================
