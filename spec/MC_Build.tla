------------------------------- MODULE MC_Build ------------------------------
(***************************************************************************)
(* Every constructor on every combination of few values: what is built is  *)
(* well formed and is what the text of its parts denotes.                  *)
(***************************************************************************)
EXTENDS Build, Json
CONSTANTS MaxArgs, Rich

Vals == {<<"int", NZero>>, <<"int", NInt(2)>>, <<"int", NInt(-1)>>, <<"text", Cp("int8")>>, <<"text", Cp("var * A")>>, <<"text", Cp("A")>>,
         <<"text", Cp("nope")>>, <<"text", Cp("3")>>, <<"text", <<>>>>, <<"term", CT("int8")>>, <<"term", <<"tv", Cp("N")>>>>,
         <<"term", MkDs(<<Fix(NInt(3))>>, CT("int8"))>>, <<"term", MkDs(<<<<"ell", <<>>>>>>, CT("int8"))>>,
         <<"dim", Fix(NInt(4))>>, <<"dim", VarDim>>, <<"dim", <<"ell", <<>>>>>>, <<"none">>, <<"other">>}
         \cup (IF Rich THEN {<<"term", OptOf(CT("int8"))>>, <<"term", <<"rec", <<>>>>>>, <<"text", Cp("?{a: int8}")>>, <<"text", Cp("us")>>,
                             <<"text", Cp("U8")>>, <<"text", Cp("days ")>>, <<"text", Cp("... * ... * int8")>>,
                             <<"term", MkDs(<<<<"tv", Cp("M")>>>>, <<"tv", Cp("N")>>)>>} ELSE {})
FewVals == {<<"int", NInt(2)>>, <<"text", Cp("int8")>>, <<"term", CT("int8")>>, <<"dim", VarDim>>, <<"none">>,
            <<"term", MkDs(<<Fix(NInt(3))>>, CT("int8"))>>}
Names == {<<"text", Cp("a")>>, <<"text", Cp("b")>>, <<"int", NInt(7)>>, <<"text", Cp("7")>>, <<"text", <<>>>>}
LitNames == Names \cup {<<"none">>}
Cats == {<<"list", "int", <<NOne, NInt(-1)>>>>, <<"list", "str", <<Cp("a b")>>>>, <<"list", "bool", <<TRUE, FALSE>>>>, <<"list", "empty", <<>>>>}
VARIABLES ctor, args
Free == {"ds", "list", "tup", "fun"}
One == {"dshape", "opt", "fixed", "tv", "time", "datetime", "timedelta"}
Init == /\ args = <<>>
        /\ ctor \in Free \cup One \cup {"mul", "map", "rec", "lit", "cat", "string", "decimal", "units"}
Room == CASE ctor \in Free -> MaxArgs [] ctor \in One -> 1 [] ctor \in {"mul", "map", "string", "decimal", "units"} -> 2
          [] ctor = "rec" -> 4 [] ctor = "lit" -> 3 [] ctor = "cat" -> 3
Pool == LET i == Len(args) + 1 IN
        CASE ctor = "rec" -> IF i % 2 = 1 THEN Names ELSE IF i = 2 THEN Vals ELSE FewVals
          [] ctor = "lit" -> IF i % 3 = 1 THEN LitNames ELSE IF i % 3 = 2 THEN Vals ELSE {<<"none">>, <<"int", NOne>>, <<"int", NZero>>, <<"text", <<>>>>}
          [] ctor = "cat" -> (IF i = 1 THEN Cats ELSE IF i = 2 THEN {<<"term", CT("int8")>>, <<"term", MkDs(<<VarDim>>, StringT)>>}
                              ELSE {<<"bool", TRUE>>, <<"bool", FALSE>>})
          [] OTHER -> Vals
Next == /\ Len(args) < Room
        /\ \E v \in Pool : args' = Append(args, v)
        /\ UNCHANGED ctor
Spec == Init /\ [][Next]_<<ctor, args>>
Complete == CASE ctor \in Free -> TRUE [] ctor \in {"string", "time", "datetime", "timedelta"} -> TRUE
              [] ctor \in {"decimal", "units"} -> args # <<>> [] ctor = "rec" -> Len(args) % 2 = 0 [] ctor = "lit" -> Len(args) % 3 = 0
              [] ctor = "mul" -> Len(args) = 2 /\ (args[1][1] \in {"term", "dim"} \/ (args[1][1] = "int" /\ args[2][1] \in {"term", "dim"}))
              [] OTHER -> Len(args) = Room
Built == Construct(ctor, args)
Good == Complete /\ Built[1] = "ok" => WellFormed(Built[2])
\* what DataShape and multiplication build is what the text of the parts says
PartText(v) == CASE v[1] = "int" -> NText(v[2]) [] v[1] = "text" -> Unparse(DShape(v[2])[2]) [] v[1] = "dim" -> DimText(v[2]) [] OTHER -> Unparse(v[2])
SameAsText == Complete /\ ctor = "list" /\ Built[1] = "ok" => DShape(JoinWith(Star, SeqMap(PartText, args))) = Built
\* and what it refuses the language cannot write either, but for wrong kinds of values
RefusedAsText == Complete /\ ctor = "list" /\ Built[1] = "exc" /\ Len(args) > 1
                 /\ (\A i \in 1..Len(args) : args[i][1] \in {"term", "dim"}) =>
                    LET r == DShape(JoinWith(Star, SeqMap(PartText, args))) IN r[1] # "ok"
Emit == Complete => PrintT(ToJson(<<ctor, args, Built>>))
=============================================================================
