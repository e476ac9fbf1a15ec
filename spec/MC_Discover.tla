----------------------------- MODULE MC_Discover -----------------------------
(***************************************************************************)
(* All values built from small parts: what is discovered describes them.   *)
(***************************************************************************)
EXTENDS JudgeDiscover, Json
CONSTANTS Depth, Pool
S(items) == <<"seq", items>>
M(entries) == <<"map", entries>>
T(s) == <<"str", Cp(s), "none">>
A == Cp("a")
B == Cp("b")
Leaves == CASE Pool = "wide" -> {<<"int">>, <<"float">>, <<"none">>, <<"bool">>, <<"date">>, <<"datetime">>, T("x"), T("7"), T(""), <<"time">>, <<"np", <<"n", "int32">>>>}
            [] OTHER -> {<<"int">>, <<"none">>, T("x")}
Parts == CASE Pool = "wide" -> Leaves \cup {S(<<>>), M(<<>>), S(<<<<"int">>>>), S(<<<<"int">>, <<"none">>>>), M(<<<<A, <<"int">>>>>>),
                                            <<"mproxy", <<<<A, <<"int">>>>>>>>, <<"omap", <<<<B, T("x")>>, <<A, <<"none">>>>>>>>}
           [] OTHER -> {<<"int">>, <<"none">>, S(<<>>), S(<<<<"int">>>>), M(<<<<B, <<"int">>>>>>)}
VARIABLES v, left
Init == v \in Leaves /\ left = Depth
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ v' = S(<<v>>) \/ v' = S(<<v, v>>) \/ v' = M(<<<<A, v>>>>)
           \/ \E x \in Parts : \/ v' = S(<<v, x>>) \/ v' = S(<<x, v>>)
                               \/ v' = S(<<S(<<v, x>>), S(<<x, v>>)>>)
                               \/ v' = M(<<<<B, v>>, <<A, x>>>>)
                               \/ v' = <<"omap", <<<<B, v>>, <<A, x>>>>>>
                               \/ v' = S(<<M(<<<<A, v>>>>), M(<<<<A, x>>, <<B, v>>>>)>>)
Spec == Init /\ [][Next]_<<v, left>>
Good == WellFormed(Disc(v))
Fits == Describes(v, Disc(v))
OptTight == OptOk({v}, Disc(v))
Emit == PrintT(ToJson(<<v, Disc(v)>>))
=============================================================================
