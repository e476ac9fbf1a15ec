------------------------------ MODULE MC_Session ------------------------------
(***************************************************************************)
(* Long histories of operations on shared datashapes: what every operation *)
(* gives and what the datashapes are in the end.                           *)
(***************************************************************************)
EXTENDS JudgeDiscover, Printer, SequencesExt, Randomization, Json
CONSTANTS N, Most, Some       \* Some: how many operations are considered at each point, 0 for all
VARIABLES heap, log
SI(n) == Fix(NInt(n))
A1 == Cp("a")
B1 == Cp("b")
Start == { <<CT("int32"), MkDs(<<SI(3)>>, <<"rec", <<<<A1, CT("int32")>>, <<B1, StringT>>>>>>)>>,
           <<MkDs(<<SI(2), VarDim>>, CT("int64")), MkDs(<<VarDim>>, OptOf(CT("int32")))>>,
           <<NullT, <<"rec", <<<<A1, CT("int64")>>>>>>, CT("float64")>>,
           <<<<"cat", <<<<"bool", TRUE>>, <<"int", NInt(2)>>>>, CT("int64"), FALSE>>, <<"cat", <<<<"int", NInt(1)>>, <<"int", NInt(2)>>>>, CT("int64"), FALSE>>>>,
           <<<<"str", <<NInt(3)>>, "A">>, MkDs(<<SI(3)>>, <<"datetime", <<Cp("UTC")>>>>), DateT>>,
           <<<<"map", CT("int32"), StringT>>, <<"fun", <<CT("int32")>>, <<"tup", <<CT("bool"), CT("int8")>>>>>>, <<"td", "s">>>> }
Sl(a, b, c) == <<"slice", a, b, c>>
Indexes == {<<"int", NZero>>, <<"int", NInt(-1)>>, Sl(<<NInt(1)>>, <<>>, <<>>), Sl(<<>>, <<NInt(2)>>, <<>>), <<"list", <<<<"int", NZero>>, <<"int", NZero>>>>>>,
            <<"name", A1>>, <<"tuple", <<<<"int", NZero>>, <<"name", A1>>>>>>, <<"tuple", <<<<"none">>, <<"int", NZero>>>>>>,
            <<"list", <<<<"name", B1>>, <<"name", A1>>>>>>}
I == 1..Len(heap)
Ops == {<<"index", <<i>>, x>> : i \in I, x \in Indexes} \cup {<<"subarray", <<i>>, n>> : i \in I, n \in {0, 1}}
       \cup {<<"cat", s, 0>> : s \in {<<i, j>> : i \in I, j \in I}} \cup {<<"promote", <<i, j>>, b>> : i \in I, j \in I, b \in BOOLEAN}
       \cup {<<"unite", <<i, j>>, h>> : i \in I, j \in I, h \in {"base", "same", "merge"}} \cup {<<"lowest", <<i, j>>, 0>> : i \in I, j \in I}
       \cup {<<"times", <<i>>, n>> : i \in I, n \in {2, 3}} \cup {<<"option", <<i>>, 0>> : i \in I} \cup {<<"record", <<i, j>>, 0>> : i \in I, j \in I}
       \cup {<<k, <<i>>, 0>> : k \in {"copy", "parse"}, i \in I} \cup {<<k, <<i>>, 0>> : k \in {"hash", "show", "predicates", "numpy"}, i \in I}
Give(op) ==
  LET k == op[1]
      ts == [m \in 1..Len(op[2]) |-> heap[op[2][m]]]
      T == ts[1]
  IN CASE k = "index" -> Sub(T, op[3])
       [] k = "subarray" -> SubArray(T, NInt(op[3]))
       [] k = "cat" -> CatDs(ts)
       [] k = "promote" -> IF DimsOf(T) = <<>> /\ DimsOf(ts[2]) = <<>> THEN Promote(T, ts[2], op[3]) ELSE NpAny
       [] k = "unite" -> LET r == CASE op[3] = "base" -> BaseOf(ts) [] op[3] = "same" -> SameOf(ts) [] op[3] = "merge" -> MergeOf(ts)
                         IN IF r[1] = "ok" THEN Counted(2, r) ELSE NpAny
       [] k = "lowest" -> IF IsUnitT(T) /\ IsUnitT(ts[2]) THEN Lowest(ts) ELSE NpAny
       [] k = "times" -> NpOk(MkDs(<<SI(op[3])>>, T))
       [] k = "option" -> NpOk(OptOf(T))
       [] k = "record" -> NpOk(<<"rec", <<<<A1, T>>, <<B1, ts[2]>>>>>>)
       [] k \in {"copy", "parse"} -> IF k = "parse" /\ ~Expressible(T) THEN NpAny ELSE NpOk(T)
       [] OTHER -> <<"seen">>
RECURSIVE Weight(_)
Weight(T) == IF T[1] = "ds" THEN Len(T[2]) + Weight(T[3]) ELSE IF T[1] = "rec" THEN 1 + FoldLeft(LAMBDA a, f : a + Weight(f[2]), 0, T[2])
             ELSE IF T[1] = "opt" THEN 1 + Weight(T[2]) ELSE 1
Init == heap \in Start /\ log = <<>>
Next == /\ Len(log) < N
        /\ \E op \in IF Some = 0 THEN Ops ELSE RandomSubset(Some, Ops) :
             LET r == Give(op) IN
             /\ r[1] \in {"ok", "exc", "seen"}
             /\ r[1] = "ok" => Weight(r[2]) <= 9
             /\ r[1] = "exc" => (IF log = <<>> THEN TRUE ELSE log[Len(log)][2][1] # "exc")
             /\ log' = Append(log, <<op, r>>)
             /\ heap' = IF r[1] = "ok" /\ Len(heap) < Most THEN Append(heap, r[2]) ELSE heap
Spec == Init /\ [][Next]_<<heap, log>>
\* operations on equal arguments give equal results, whatever was done in between
Keys(op) == <<op[1], [m \in 1..Len(op[2]) |-> EqForm(heap[op[2][m]])], op[3]>>
Equal == \A m \in 1..Len(log), n \in 1..Len(log) :
           (Keys(log[m][1]) = Keys(log[n][1])) => (log[m][2][1] = log[n][2][1] /\ (log[m][2][1] = "ok" => EqForm(log[m][2][2]) = EqForm(log[n][2][2])))
GoodHeap == \A i \in I : WellFormed(heap[i])
Grows == [][SubSeq(heap', 1, Len(heap)) = heap]_<<heap, log>>
Emit == (Len(log) = N) => PrintT(ToJson(<<SubSeq(heap, 1, Len(heap)), log, N>>))
=============================================================================
