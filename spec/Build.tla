-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* What the constructors, multiplication, lists and record literals build. *)
(* Values: <<"int", n>> <<"text", t>> <<"term", T>> <<"dim", d>>           *)
(*         <<"bool", b>> <<"none">> <<"other">> <<"list", values>>         *)
(* Results: <<"ok", T>> <<"okdim", d>> <<"exc">> <<"any">>                 *)
(***************************************************************************)
EXTENDS Printer

First(rs, tag) == \E i \in 1..Len(rs) : rs[i][1] = tag
\* a value as a parameter: a dimension or a type
Launder(v) ==
  CASE v[1] = "int"  -> IF NSgn(v[2]) < 0 THEN ExcR ELSE <<"ok", <<"dim", Fix(v[2])>>>>
    [] v[1] = "text" -> LET r == DShape(v[2]) IN IF r[1] = "ok" THEN <<"ok", <<"term", r[2]>>>>
                                                 ELSE IF r[1] = "any" THEN AnyR ELSE ExcR
    [] v[1] \in {"term", "dim"} -> <<"ok", v>>
    [] v[1] = "bool" -> AnyR
    [] OTHER -> ExcR
LaunderType(v) == LET r == Launder(v) IN
                  IF r[1] # "ok" THEN r ELSE IF r[2][1] = "dim" THEN ExcR ELSE OkT(r[2][2])
\* may stand before the last position; a type variable is both
AsDim(v) == IF v[1] = "dim" THEN <<v[2]>> ELSE IF v[2][1] = "tv" THEN <<v[2]>> ELSE <<>>

BuildDs(vs) ==
  LET rs == SeqMap(Launder, vs)
      n == Len(vs)
  IN IF n = 0 \/ (n = 1 /\ vs[1][1] = "text") THEN ExcR
     ELSE IF First(rs, "exc") THEN ExcR
     ELSE IF First(rs, "any") THEN AnyR
     ELSE IF rs[n][2][1] = "dim" THEN ExcR
     ELSE IF \E i \in 1..(n-1) : AsDim(rs[i][2]) = <<>> THEN ExcR
     ELSE OkT(MkDs([i \in 1..(n-1) |-> AsDim(rs[i][2])[1]], rs[n][2][2]))
Checked(r) == IF r[1] = "ok" /\ ManyWildcards(r[2]) THEN ExcR ELSE r

TypeList(rs) == IF First(rs, "exc") THEN ExcR ELSE IF First(rs, "any") THEN AnyR
                ELSE <<"ok", [i \in 1..Len(rs) |-> rs[i][2]]>>
\* names: <<"text", t>> or <<"int", n>>, read as its decimal text
FieldName(v) == IF v[1] = "text" THEN v[2] ELSE NText(v[2])
BuildRec(names, types) ==
  LET ts == TypeList(SeqMap(LaunderType, types)) IN
  IF ts[1] # "ok" THEN ts
  ELSE IF ~Distinct(names) THEN ExcR
  ELSE OkT(<<"rec", [i \in 1..Len(names) |-> <<names[i], ts[2][i]>>]>>)
TupleItem(v) == IF v[1] = "term" THEN OkT(v[2]) ELSE IF v[1] = "bool" THEN ExcR ELSE ExcR
FunItem(v) == IF v[1] = "term" THEN OkT(v[2]) ELSE ExcR

\* the arguments as the language would write them
LangArg(v) == CASE v[1] = "int" -> v [] v[1] = "text" -> <<"str", v[2]>> [] v[1] = "bool" -> v [] v[1] = "term" -> <<"ds", v[2]>>
                [] OTHER -> <<"list", "ds", <<>>>>
Leaf(ctor, args) ==
  LET as == SeqMap(LangArg, args) IN
  CASE ctor \in {"time", "datetime"} /\ args = <<<<"none">>>> -> OkT(<<ctor, <<>>>>)
    [] ctor = "timedelta" /\ args # <<>> /\ args[1][1] # "text" -> IF args[1][1] = "int" THEN ExcR ELSE AnyR
    [] ctor = "units" /\ Len(args) = 2 /\ args[2][1] = "none" -> Apply(ctor, <<as[1]>>, <<>>)
    [] ctor = "string" /\ \E i \in 1..Len(args) : args[i][1] = "none" -> AnyR
    \* a fixed dimension counts as a number
    [] ctor \in {"string", "decimal"} /\ \E i \in 1..Len(args) : args[i][1] = "dim" -> AnyR
    [] OTHER -> Apply(ctor, as, <<>>)

Construct(ctor, args) ==
  CASE ctor = "ds"   -> BuildDs(args)
    [] ctor = "list" -> Checked(BuildDs(args))
    [] ctor = "dshape" -> (CASE args[1][1] = "text" -> LET r == DShape(args[1][2]) IN IF r[1] \in {"ok", "any"} THEN r ELSE ExcR
                             \* a DataShape is handed back as it is, anything else is wrapped and checked
                             [] args[1][1] = "term" -> IF ManyWildcards(args[1][2]) THEN AnyR ELSE OkT(args[1][2])
                             [] OTHER -> ExcR)
    [] ctor = "mul"  -> IF args[1][1] = "text" THEN AnyR ELSE BuildDs(args)
    [] ctor = "opt"  -> LET r == LaunderType(args[1]) IN IF r[1] = "ok" THEN OkT(OptOf(r[2])) ELSE r
    [] ctor = "map"  -> LET r == TypeList(SeqMap(LaunderType, args)) IN IF r[1] = "ok" THEN OkT(<<"map", r[2][1], r[2][2]>>) ELSE r
    [] ctor = "tup"  -> LET r == TypeList(SeqMap(TupleItem, args)) IN IF r[1] = "ok" THEN OkT(<<"tup", r[2]>>) ELSE r
    [] ctor = "fun"  -> LET r == TypeList(SeqMap(FunItem, args))
                            n == Len(args)
                        IN IF n = 0 THEN ExcR ELSE IF r[1] = "ok" THEN OkT(<<"fun", SubSeq(r[2], 1, n-1), r[2][n]>>) ELSE r
    \* args: name, type, name, type, ...
    [] ctor = "rec"  -> LET n == Len(args) \div 2
                        IN IF \E i \in 1..n : args[2*i-1][1] \notin {"text", "int"} THEN AnyR
                           ELSE BuildRec([i \in 1..n |-> FieldName(args[2*i-1])], [i \in 1..n |-> args[2*i]])
    \* args: name, type, step, name, type, step, ...
    [] ctor = "lit"  -> LET n == Len(args) \div 3
                        IN IF \E i \in 1..n : args[3*i-2][1] # "text" \/ args[3*i-1] = <<"none">> \/ args[3*i] # <<"none">> THEN ExcR
                           ELSE BuildRec([i \in 1..n |-> args[3*i-2][2]], [i \in 1..n |-> args[3*i-1]])
    [] ctor = "fixed" -> (CASE args[1][1] = "int" -> IF NSgn(args[1][2]) < 0 THEN ExcR ELSE <<"okdim", Fix(args[1][2])>>
                            [] args[1][1] \in {"text", "none", "other", "list", "term"} -> ExcR
                            [] OTHER -> AnyR)
    [] ctor = "tv"   -> (CASE args[1][1] = "text" -> IF args[1][2] = <<>> THEN ExcR
                                                     ELSE IF args[1][2][1] > 127 THEN AnyR
                                                     ELSE IF IsUpper(args[1][2][1]) THEN OkT(<<"tv", args[1][2]>>) ELSE ExcR
                           [] args[1][1] \in {"int", "none", "other"} -> ExcR
                           [] OTHER -> AnyR)
    [] ctor = "cat"  -> \* args: list of categories, type or none, bool
                        Apply("categorical", <<args[1], LangArg(args[2]), args[3]>>, <<>>)
    [] OTHER -> Leaf(ctor, args)
=============================================================================
