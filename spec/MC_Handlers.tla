------------------------------ MODULE MC_Handlers ----------------------------
(***************************************************************************)
(* Histories of registrations; after each of them every value of the pool  *)
(* is discovered and validated.                                            *)
(***************************************************************************)
EXTENDS Handlers, Randomization, Json
CONSTANTS N, Pool, Some
VARIABLES H, V, log
A1 == Cp("a")
X(c, v) == <<"x", c, v>>
S1(v) == <<"seq", <<v>>>>
M1(v) == <<"map", <<<<A1, v>>>>>>
Whole == <<"int">>
Text == <<"str", Cp("x"), "none">>
Ints == <<"seq", <<Whole, Whole>>>>
Of(c) == CASE BaseOfClass(c) \in {"list", "tuple"} -> X(c, Ints) [] BaseOfClass(c) = "dict" -> X(c, M1(Whole)) [] BaseOfClass(c) = "omap" -> X(c, <<"omap", <<<<A1, Text>>>>>>)
           [] BaseOfClass(c) = "int" -> X(c, Whole) [] BaseOfClass(c) = "float" -> X(c, <<"float">>) [] BaseOfClass(c) = "str" -> X(c, Text)
           [] BaseOfClass(c) = "date" -> X(c, <<"date">>) [] BaseOfClass(c) = "array" -> X(c, <<"arr", <<NInt(2), NInt(3)>>, <<"n", "int32">>, <<>>>>)
           [] OTHER -> X(c, Ints)
Used == CASE Pool = "objects" -> {"A", "B", "C", "E"} [] Pool = "builtin" -> {"L", "M", "I", "S", "Q"} [] OTHER -> Classes
Hs == {<<"is", Int64T>>, <<"is", MkDs(<<Fix(NInt(3))>>, StringT)>>, <<"pre", 2>>, <<"no">>} \cup (IF Pool = "all" THEN {<<"is", NullT>>, <<"is", OptOf(Int64T)>>, <<"is", <<"rec", <<<<A1, CT("bool")>>>>>>>>} ELSE {})
One == {Of(c) : c \in Used}
Values == One \cup UNION {{S1(x), M1(x), <<"seq", <<x, Whole>>>>, <<"seq", <<<<"none">>, x>>>>, <<"seq", <<x, x>>>>, <<"seq", <<<<"seq", <<Text, x>>>>, <<"seq", <<Text, x>>>>>>>>,
                           <<"seq", <<M1(x), M1(Whole)>>>>, S1(S1(x)), <<"mproxy", <<<<A1, x>>>>>>} : x \in One}
          \cup {Ints, M1(Text)} \cup {X(c, X(d, Whole)) : c \in Used \cap {"A", "B", "C", "E"}, d \in Used \cap {"A", "C", "I", "S"}}
RecA == <<"rec", <<<<A1, Int64T>>>>>>
Schemas == {<<"t", <<"rec", <<<<A1, StringT>>>>>>>>, <<"t", Int64T>>, <<"t", StringT>>, <<"t", RecA>>, <<"t", MkDs(<<VarDim>>, Int64T)>>, <<"t", MkDs(<<Fix(NInt(1))>>, RecA)>>, <<"some", <<<<"t", StringT>>, <<"t", Int64T>>>>>>}
           \cup {<<"pyx", c>> : c \in Used \cap {"A", "B", "L", "S"}}
AnswerKinds == {"rec", "ct", "str"}
Regs == {<<"hd", c, h>> : c \in Used, h \in Hs} \cup {<<"hv", k, c, a>> : k \in AnswerKinds, c \in Used \cap {"A", "B", "L", "I", "S", "M"}, a \in {"yes", "no"}}
Init == H = NoHandlers /\ V = {} /\ log = <<>>
Do(op) == /\ H' = IF op[1] = "hd" THEN SetHandler(H, op[2], op[3]) ELSE H
          /\ V' = IF op[1] = "hv" THEN SetAnswer(V, op[2], op[3], op[4]) ELSE V
          /\ log' = Append(log, op)
Next == /\ Len(log) < N
        /\ \E op \in IF Some = 0 THEN Regs ELSE RandomSubset(Some, Regs) : Do(op)
Spec == Init /\ [][Next]_<<H, V, log>>
\* a handler of the class itself decides
Closes == \A c \in DOMAIN H : H[c][1] = "is" => DiscoveredWith(H, Of(c)) = NpOk(H[c][2])
\* one handler more changes only what holds values of its class or below
Local == [][\A v \in Values :
              /\ (log'[Len(log')][1] = "hd" /\ ~Touches(v, Below(log'[Len(log')][2]))) => DiscoveredWith(H', v) = DiscoveredWith(H, v)
              /\ (log'[Len(log')][1] = "hv" /\ ~Touches(v, Below(log'[Len(log')][3]))) => \A s \in Schemas : ValidatedWith(V', s, v) = ValidatedWith(V, s, v)]_<<H, V, log>>
\* and what is below a closer handler stays
Shadowed == [][\A c \in Used : (log'[Len(log')][1] = "hd" /\ Closest(DOMAIN H, c) # "" /\ Closest(DOMAIN H', c) # log'[Len(log')][2])
                               => DiscoveredWith(H', Of(c)) = DiscoveredWith(H, Of(c))]_<<H, V, log>>
\* the order of registrations of different classes does not matter (H and V are all there is)
Alone == \A c \in Used : LET r == DiscoveredWith(H, Of(c)) IN r[1] = "ok" /\ ~OwnRows(H, S1(Of(c))) => DiscoveredWith(H, S1(Of(c))) = NpOk(MkDs(<<Fix(NInt(1))>>, r[2]))
RECURSIVE Listed(_)
Listed(xs) == IF xs = {} THEN <<>> ELSE LET x == CHOOSE y \in xs : TRUE IN <<x>> \o Listed(xs \ {x})
ValueList == Listed(Values)
SchemaList == Listed(Schemas)
VSeq == Listed({v \in Values : v \in One \/ (v[1] \in {"seq", "map"} /\ Len(v[2]) = 1)})
Outcomes(st) == <<[i \in 1..Len(ValueList) |-> DiscoveredWith(st[1], ValueList[i])],
                  [j \in 1..Len(SchemaList) |-> [i \in 1..Len(VSeq) |-> ValidatedWith(st[2], SchemaList[j], VSeq[i])]]>>
EmitAll == PrintT(ToJson(<<log, ValueList, SchemaList, VSeq, Outcomes(<<H, V>>)>>))
=============================================================================
