------------------------------- MODULE Discover ------------------------------
(***************************************************************************)
(* The datashape of a Python value.  Values are                            *)
(*   <<"int">> <<"bool">> <<"float">> <<"complex">> <<"bytes">> <<"none">> *)
(*   <<"date">> <<"datetime">> <<"time">> <<"timedelta">>                  *)
(*   <<"str", text, parsed>>  parsed: what the date parser makes of it     *)
(*   <<"np", dtype>>          NumPy scalar                                 *)
(*   <<"arr", shape, dtype, strings>>                                      *)
(*   <<"seq", items>>         list or tuple                                *)
(*   <<"set", items>>         set or frozenset in the order it is iterated *)
(*   <<"map", entries>> <<"omap", entries>> <<"mproxy", entries>>          *)
(*   <<"obj">>                nothing that can be discovered               *)
(*   <<"ext", outcome>>       what a handler of the user says about it     *)
(***************************************************************************)
EXTENDS Unify

Scalar == [bool |-> BoolT, int |-> Int64T, float |-> RealT, complex |-> CT("complex[float64]"), bytes |-> <<"str", <<>>, "A">>,
           none |-> NullT, date |-> DateT, datetime |-> DateTimeT, time |-> TimeT, timedelta |-> DeltaT]
ColumnItem(item, k) == IF k \in NameSet(item[2]) THEN FieldOr(item[2], k, <<"none">>) ELSE <<"none">>

RECURSIVE Contains(_,_)
Contains(v, R) ==   \* a scalar inside with such a discovery: "exc" or "any"
  CASE v[1] \in {"seq", "set"} -> \E i \in 1..Len(v[2]) : Contains(v[2][i], R)
    [] v[1] \in {"map", "omap", "mproxy"} -> \E i \in 1..Len(v[2]) : Contains(v[2][i][2], R)
    [] v[1] = "obj" -> R = NpExc
    [] v[1] = "ext" -> v[2] = R
    [] v[1] = "np" -> FromNp(<<>>, v[2]) = R
    [] v[1] = "arr" -> DiscArr(v[2], v[3], v[4]) = R
    [] v[1] = "str" -> R = NpAny /\ Kind(v[2], v[3]) = AnyT
    [] OTHER -> FALSE
\* of a value all of whose scalars can be discovered
RECURSIVE Disc(_)
DiscSeq(items, isRow) ==
  LET n == Len(items)
      rows == isRow /\ \A i \in 1..n : items[i][1] = "seq" /\ Len(items[i][2]) = Len(items[1][2])
      cols == [k \in 1..Len(items[1][2]) |-> ColumnOf([i \in 1..n |-> Disc(items[i][2][k])])]
      maps == \A i \in 1..n : items[i][1] \in {"map", "omap"}
      keys == SortNames(UNION {NameSet(items[i][2]) : i \in 1..n})
      mcols == [k \in 1..Len(keys) |-> ColumnOf([i \in 1..n |-> Disc(ColumnItem(items[i], keys[k]))])]
      each == WholeOf([i \in 1..n |-> Disc(items[i])])
  IN IF n = 0 THEN MkDs(<<VarDim>>, StringT)
     ELSE IF rows THEN (IF \E k \in 1..Len(cols) : cols[k][1] # "ok" THEN each
                        ELSE Prepend(n, WholeOf([k \in 1..Len(cols) |-> cols[k][2]])))
     ELSE IF maps THEN (IF \E k \in 1..Len(mcols) : mcols[k][1] # "ok" THEN each
                        ELSE Prepend(n, <<"rec", [k \in 1..Len(keys) |-> <<keys[k], mcols[k][2]>>]>>))
     ELSE each
Disc(v) ==
  CASE v[1] \in {"seq", "set"} -> DiscSeq(v[2], TRUE)
    [] v[1] \in {"map", "mproxy"} -> LET keys == SortNames(NameSet(v[2])) IN
         <<"rec", [k \in 1..Len(keys) |-> <<keys[k], Disc(FieldOr(v[2], keys[k], <<"none">>))>>]>>
    [] v[1] = "omap" -> <<"rec", [k \in 1..Len(v[2]) |-> <<v[2][k][1], Disc(v[2][k][2])>>]>>
    [] v[1] = "np" -> FromNp(<<>>, v[2])[2]
    [] v[1] = "arr" -> DiscArr(v[2], v[3], v[4])[2]
    [] v[1] = "str" -> Kind(v[2], v[3])
    [] v[1] = "ext" -> v[2][2]
    [] OTHER -> Scalar[v[1]]
Discovered(v) == IF Contains(v, NpExc) THEN NpExc ELSE IF Contains(v, NpAny) THEN NpAny ELSE NpOk(Disc(v))

\* ---------------------------------------------------------------- what a user relies on
\* T describes v: lengths and fields are there, every scalar converts to its type
\* D with some lengths made variable
Loosened(D, T) == /\ Len(DimsOf(D)) = Len(DimsOf(T)) /\ SameAs(MeasureOf(D), MeasureOf(T))
                  /\ \A i \in 1..Len(DimsOf(D)) : DimsOf(T)[i] \in {DimsOf(D)[i], VarDim}
RECURSIVE Describes(_,_)
IsLeaf(v) == v[1] \notin {"seq", "set", "map", "omap", "mproxy"}
Describes(v, T) ==
  \/ T[1] = "opt" /\ (v = <<"none">> \/ Disc(v) = NullT \/ Describes(v, T[2]))
  \/ IsLeaf(v) /\ (Loosened(Disc(v), T) \/ (Converts(Disc(v), T) /\ Disc(v) # NullT))
  \/ /\ v[1] \in {"seq", "set"} /\ T[1] = "ds" /\ v[2] # <<>>
     /\ T[2][1] \in {Fix(NInt(Len(v[2]))), VarDim}
     /\ \A i \in 1..Len(v[2]) : Describes(v[2][i], RestOf(T))
  \/ v[1] \in {"seq", "set"} /\ v[2] = <<>> /\ T[1] = "ds" /\ T = MkDs(<<T[2][1]>>, StringT) /\ T[2][1] \in {VarDim, Fix(NZero)}
  \/ /\ v[1] \in {"seq", "set"} /\ T[1] = "tup" /\ Len(T[2]) = Len(v[2])
     /\ \A i \in 1..Len(v[2]) : Describes(v[2][i], T[2][i])
  \/ /\ v[1] \in {"map", "omap", "mproxy"} /\ T[1] = "rec"
     /\ NameSet(v[2]) \subseteq NameSet(T[2])
     /\ \A k \in 1..Len(T[2]) : Describes(ColumnItem(v, T[2][k][1]), T[2][k][2])
\* T is optional only where something is missing; V: all values which T describes
RECURSIVE OptOk(_,_)
OptOk(V, T) ==
  CASE T[1] = "opt" -> (\E v \in V : IsLeaf(v) /\ Disc(v) = NullT) /\ OptOk({v \in V : ~(IsLeaf(v) /\ Disc(v) = NullT)}, T[2])
    [] T[1] = "rec" -> \A k \in 1..Len(T[2]) : OptOk({ColumnItem(v, T[2][k][1]) : v \in {x \in V : ~IsLeaf(x)}}, T[2][k][2])
    [] T[1] = "tup" -> \A k \in 1..Len(T[2]) : OptOk({v[2][k] : v \in {x \in V : ~IsLeaf(x)}}, T[2][k])
    [] T[1] = "ds" -> OptOk(UNION {RangeOf(v[2]) : v \in {x \in V : ~IsLeaf(x)}}, RestOf(T))
    [] OTHER -> TRUE
=============================================================================
