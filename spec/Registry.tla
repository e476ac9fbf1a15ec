------------------------------- MODULE Registry ------------------------------
(***************************************************************************)
(* The registries of types and type sets and the symbol tables of the      *)
(* parser as one deterministic machine.  A state is a record               *)
(*   types   names -> <<"class">> or <<"type", T, step that registered it>>*)
(*   sets    names -> <<types, step>>                                      *)
(*   tables  sequence of symbol tables, the first is the one dshape uses   *)
(* and Step(R, op, n) gives the next state and the outcome of operation op *)
(* as the n-th step.                                                       *)
(***************************************************************************)
EXTENDS Grammar

BuiltinClasses == {"Bytes", "CType", "Categorical", "DataShape", "Date", "DateTime", "Decimal", "Ellipsis", "Fixed", "Function", "JSON", "Map",
                   "Mono", "Null", "Option", "Record", "String", "Time", "TimeDelta", "Tuple", "TypeSet", "TypeVar", "Unit", "Units", "Var"}
BuiltinTypes == [n \in DOMAIN DtypeNames \ {"json", "complex"} |-> DtypeNames[n]]
                @@ ("complex[float32]" :> CT("complex[float32]")) @@ ("complex[float64]" :> CT("complex[float64]"))
                @@ ("double" :> CT("float64")) @@ ("float" :> CT("float32"))
IntegralNames == <<"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64">>
CTs(ns) == [i \in 1..Len(ns) |-> CT(ns[i])]
FloatSeq == <<"float16", "float32", "float64">>
ComplexSeq == <<"complex[float32]", "complex[float64]">>
BuiltinSets ==
  ("signed" :> CTs(<<"int8", "int16", "int32", "int64">>)) @@ ("unsigned" :> CTs(<<"uint8", "uint16", "uint32", "uint64">>))
  @@ ("integral" :> CTs(IntegralNames)) @@ ("floating" :> CTs(FloatSeq)) @@ ("complexes" :> CTs(ComplexSeq)) @@ ("boolean" :> CTs(<<"bool">>))
  @@ ("real" :> CTs(IntegralNames \o FloatSeq)) @@ ("numeric" :> CTs(IntegralNames \o FloatSeq \o ComplexSeq))
  @@ ("scalar" :> CTs(<<"bool">> \o IntegralNames \o FloatSeq \o ComplexSeq))
Registry0 == [types |-> [n \in BuiltinClasses |-> <<"class">>] @@ [n \in DOMAIN BuiltinTypes |-> <<"type", BuiltinTypes[n], 0>>],
              sets |-> [n \in DOMAIN BuiltinSets |-> <<BuiltinSets[n], 0>>],
              tables |-> <<DefaultSym>>]

Names(R) == DOMAIN R.types
NewNames(R) == Names(R) \ (BuiltinClasses \cup DOMAIN BuiltinTypes)
NewSets(R) == DOMAIN R.sets \ DOMAIN BuiltinSets
Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
PartOf(tb, p) == CASE p = "dtype" -> tb.dtype [] p = "dtypec" -> tb.dtypec [] p = "dim" -> tb.dim [] p = "dimc" -> tb.dimc
WithPart(tb, p, f) == CASE p = "dtype" -> [tb EXCEPT !.dtype = f] [] p = "dtypec" -> [tb EXCEPT !.dtypec = f]
                        [] p = "dim" -> [tb EXCEPT !.dim = f] [] p = "dimc" -> [tb EXCEPT !.dimc = f]
RECURSIVE OnceSeq(_)
OnceSeq(ts) == IF ts = <<>> THEN <<>>
               ELSE LET r == OnceSeq(SubSeq(ts, 1, Len(ts)-1)) IN IF ts[Len(ts)] \in RangeOf(r) THEN r ELSE Append(r, ts[Len(ts)])
Same(R) == <<R, <<"ok">>>>
No(R) == <<R, <<"exc">>>>
Bind(R, name, T, n) == [R EXCEPT !.types = (name :> <<"type", T, n>>) @@ R.types]
Step(R, op, n) ==
  LET k == op[1]
      x == op[2]
      has == x \in Names(R)
  IN
  CASE k = "regtype" -> IF has THEN No(R) ELSE <<Bind(R, x, op[3], n), <<"ok">>>>
    [] k = "ctype" -> IF has THEN No(R) ELSE <<Bind(R, x, CT(x), n), <<"ok">>>>
    \* a datashape may be given a name again that already stands for an equal one, which stays
    [] k = "named" -> IF ~has THEN <<Bind(R, x, op[3], n), <<"ok">>>>
                      ELSE IF R.types[x][1] = "type" /\ EqForm(R.types[x][2]) = EqForm(op[3]) THEN Same(R) ELSE No(R)
    [] k = "lookup" -> IF has THEN <<R, R.types[x]>> ELSE No(R)
    [] k \in {"typeset", "regset"} -> IF x \in DOMAIN R.sets THEN No(R)
                                     ELSE <<[R EXCEPT !.sets = (x :> <<OnceSeq(op[3]), n>>) @@ R.sets], <<"ok">>>>
    [] k = "setlookup" -> IF x \in DOMAIN R.sets THEN <<R, <<"set">> \o R.sets[x]>> ELSE No(R)
    [] k = "table" -> <<[R EXCEPT !.tables = Append(@, IF x THEN BareSym ELSE DefaultSym)], <<"ok">>>>
    [] k = "put" -> <<[R EXCEPT !.tables[x] = WithPart(@, op[3], (op[4] :> op[5]) @@ PartOf(@, op[3]))], <<"ok">>>>
    [] k = "del" -> <<[R EXCEPT !.tables[x] = WithPart(@, op[3], Without(PartOf(@, op[3]), op[4]))], <<"ok">>>>
    [] k = "clear" -> <<[R EXCEPT !.tables[x] = WithPart(@, op[3], EmptyTable)], <<"ok">>>>
    [] k = "defaults" -> <<[R EXCEPT !.tables[x] = [dtype |-> DefaultSym.dtype @@ @.dtype, dtypec |-> DefaultSym.dtypec @@ @.dtypec,
                                                    dim |-> DefaultSym.dim @@ @.dim, dimc |-> DefaultSym.dimc @@ @.dimc]], <<"ok">>>>
    [] k = "parse" -> <<R, ParseSym(op[3], R.tables[x])>>
    [] k = "dshape" -> <<R, DShapeSym(x, R.tables[1])>>
    \* what there is: names registered since the start, symbols of a table
    [] k = "newnames" -> <<R, <<"names", NewNames(R), NewSets(R)>>>>
    [] k = "symbols" -> LET t == R.tables[x] IN <<R, <<"symbols", t.dtype, DOMAIN t.dtypec, t.dim, DOMAIN t.dimc>>>>
=============================================================================
