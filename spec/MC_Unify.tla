------------------------------- MODULE MC_Unify ------------------------------
(***************************************************************************)
(* All lists of up to N types: the common type is the least upper bound,   *)
(* whatever the order and grouping.                                        *)
(***************************************************************************)
EXTENDS JudgeDiscover, Json
CONSTANTS N, Pool
Chain == {Int32T, Int64T, RealT, StringT, DateT, DateTimeT, DeltaT, BoolT, NullT}
Rest == {TimeT, CT("int8"), CT("complex[float64]"), <<"str", <<>>, "A">>, <<"json">>}
F(n, T) == <<Cp(n), T>>
Recs == {<<"rec", <<>>>>, <<"rec", <<F("x", Int32T)>>>>, <<"rec", <<F("x", DateT)>>>>, <<"rec", <<F("y", BoolT), F("x", Int64T)>>>>,
         <<"rec", <<F("x", Int64T), F("y", BoolT)>>>>, 
         <<"rec", <<F("b", NullT), F("a", OptOf(Int64T))>>>>, <<"rec", <<F("x", <<"rec", <<F("z", RealT)>>>>)>>>>,
         <<"rec", <<F("x", <<"rec", <<F("w", StringT)>>>>)>>>>}
Arrs == {MkDs(<<Fix(NInt(2))>>, Int64T), MkDs(<<Fix(NInt(3))>>, Int64T), MkDs(<<VarDim>>, Int64T), MkDs(<<VarDim>>, StringT),
         MkDs(<<Fix(NInt(2)), Fix(NInt(3))>>, Int64T), MkDs(<<Fix(NInt(2)), VarDim>>, Int64T), MkDs(<<<<"tv", Cp("A")>>>>, Int64T),
         MkDs(<<<<"ell", <<>>>>>>, Int64T)}
Odd == {OptOf(Int64T), <<"tup", <<Int64T>>>>, <<"cat", <<<<"int", NOne>>>>, Int64T, FALSE>>}
Types == CASE Pool = "chain" -> Chain \cup Rest
           [] Pool = "rows" -> Recs \cup {NullT, Int64T} \cup Odd
           [] Pool = "dims" -> Arrs \cup {NullT, Int64T}
VARIABLE ts
Init == ts = <<>>
Next == Len(ts) < N /\ \E T \in Types : ts' = Append(ts, T)
Spec == Init /\ [][Next]_ts
Perms == {[i \in 1..Len(ts) |-> ts[p[i]]] : p \in {q \in [1..Len(ts) -> 1..Len(ts)] : \A i, j \in 1..Len(ts) : i # j => q[i] # q[j]}}
Canon(r) == r
Unordered == \A q \in Perms : Lowest(q) = Lowest(ts) /\ BaseOf(q) = BaseOf(ts) /\ MergeOf(q) = MergeOf(ts)
Repeated == ts # <<>> => /\ Lowest(Append(ts, ts[1])) = Lowest(ts) /\ BaseOf(Append(ts, ts[1])) = BaseOf(ts)
LeastBound == LET r == Lowest(ts) IN
  ts # <<>> => IF r[1] = "ok" THEN (\A i \in 1..Len(ts) : Converts(ts[i], r[2])) /\ \A U \in Chain : (\A i \in 1..Len(ts) : Converts(ts[i], U)) => Converts(r[2], U)
               ELSE ~\E U \in Chain : \A i \in 1..Len(ts) : Converts(ts[i], U)
Grouping == \A i \in 1..(Len(ts)-1) :
  LET a == Lowest(SubSeq(ts, 1, i)) IN IF a[1] = "ok" THEN Lowest(<<a[2]>> \o SubSeq(ts, i+1, Len(ts))) = Lowest(ts) ELSE Lowest(ts) = NpExc
HasNull == \E i \in 1..Len(ts) : ts[i] = NullT
NullAware == LET r == BaseOf(ts) IN
  (r[1] = "ok" /\ r[2] # NullT) => (r[2][1] = "opt") = HasNull
NoFieldLost == LET r == BaseOf(ts)
                   T == IF r[2][1] = "opt" THEN r[2][2] ELSE r[2]
               IN (r[1] = "ok" /\ T[1] = "rec") => \A i \in 1..Len(ts) : ts[i][1] = "rec" => NameSet(ts[i][2]) \subseteq NameSet(T[2])
Emit == PrintT(ToJson(<<ts, Lowest(ts), BaseOf(ts), SameOf(ts), MergeOf(ts), MergeBase(ts)>>))
=============================================================================
