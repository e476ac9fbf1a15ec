-------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* Reading a datashape: its length, items, shape, measure and parts.       *)
(* A value is one of                                                       *)
(*   <<"w", T>>  a datashape (object with dimensions and a measure)        *)
(*   <<"b", T>>  a measure on its own      <<"t", T>>  either of these     *)
(*   <<"d", d>>  a dimension other than a type variable                    *)
(*   <<"int", n>> <<"text", t>> <<"bool", b>> <<"none">>  <<"list", vs>>   *)
(* An accessor is a name with arguments; reading gives <<"ok", value>> or  *)
(* <<"exc">>.  A type variable is <<"b", ..>> in both of its roles.        *)
(***************************************************************************)
EXTENDS Index

RdOk(v) == <<"ok", v>>
RdExc == <<"exc">>
AnyOf(T) == <<"t", T>>
\* an element keeps its dimensions in a wrapper, and has none otherwise
ElementOf(T) == IF IsDs(T) THEN <<"w", T>> ELSE <<"b", T>>
DimValue(d) == IF d[1] = "tv" THEN <<"b", d>> ELSE <<"d", d>>
ListV(vs) == <<"list", vs>>
TextV(t) == <<"text", t>>
IntV(n) == <<"int", n>>
NoneV == <<"none">>
OrNone(F(_), x) == IF x = <<>> THEN NoneV ELSE F(x[1])
CatV(c) == CASE c[1] = "int" -> IntV(c[2]) [] c[1] = "str" -> TextV(c[2]) [] c[1] = "bool" -> <<"bool", c[2]>>
AllV(F(_), s) == ListV([i \in 1..Len(s) |-> F(s[i])])
PairsOf(fs) == ListV([i \in 1..Len(fs) |-> ListV(<<TextV(fs[i][1]), ElementOf(fs[i][2])>>)])

\* what a sequence of values gives for an index or a slice
ItemOf(vs, n) == LET i == PyIndex(Len(vs), n) IN IF i = 0 THEN RdExc ELSE RdOk(vs[i])
SliceOf(vs, sl) == IF ZeroStep(sl) THEN RdExc ELSE LET p == SlicePositions(Len(vs), sl) IN RdOk(ListV([k \in 1..Len(p) |-> vs[p[k]]]))
\* the items of a value
ItemsOf(v) == IF v[1] = "w" THEN LET T == v[2] IN [i \in 1..Len(DimsOf(T)) |-> DimValue(DimsOf(T)[i])] \o <<<<"b", MeasureOf(T)>>>>
              ELSE <<v>>
DimsV(T) == AllV(DimValue, DimsOf(T))

\* the parameters an object is made of
ParametersOf(v) ==
  LET T == v[2]
      k == T[1]
  IN IF v[1] = "w" THEN ItemsOf(v)
     ELSE CASE k = "ct" -> <<TextV(Cp(T[2])), IntV(NInt(CSize(T[2]))), IntV(NInt(CAlign(T[2])))>>
            [] k \in {"null", "date", "bytes", "json", "var"} -> <<>>
            [] k \in {"time", "datetime"} -> <<OrNone(TextV, T[2])>>
            [] k = "td" -> <<TextV(Cp(T[2]))>>
            [] k = "units" -> <<TextV(T[2]), <<"w", T[3]>>>>
            [] k = "str" -> <<OrNone(IntV, T[2]), TextV(Cp(T[3]))>>
            [] k = "dec" -> <<IntV(T[2]), IntV(T[3])>>
            [] k = "tv" -> <<TextV(T[2])>>
            [] k = "opt" -> <<ElementOf(T[2])>>
            [] k = "map" -> <<ElementOf(T[2]), ElementOf(T[3])>>
            [] k = "rec" -> <<PairsOf(T[2])>>
            [] k = "tup" -> <<ListV([i \in 1..Len(T[2]) |-> <<"w", T[2][i]>>])>>
            [] k = "fun" -> [i \in 1..Len(T[2])+1 |-> AnyOf(IF i <= Len(T[2]) THEN T[2][i] ELSE T[3])]
            [] k = "cat" -> <<AllV(CatV, T[2]), <<"b", T[3]>>, <<"bool", T[4]>>>>
            [] k = "fix" -> <<IntV(T[2])>>
            [] k = "ell" -> <<OrNone(TextV, T[2])>>
\* the size of one element in memory, where it has one
RECURSIVE SizeOf(_)
SizeOf(T) == IF T[1] = "ct" THEN RdOk(IntV(NInt(CSize(T[2])))) ELSE IF T[1] = "opt" THEN SizeOf(T[2]) ELSE RdExc
\* an option has the shape of what is inside
RECURSIVE OptShape(_)
OptShape(T) == IF T[1] # "opt" THEN ListV(<<>>) ELSE IF IsDs(T[2]) THEN DimsV(T[2]) ELSE OptShape(T[2])
FieldRead(fs, t) == LET i == IndexIn(FieldNames(fs), t) IN IF i = 0 THEN RdExc ELSE RdOk(ElementOf(fs[i][2]))

\* the accessors of every object, and those of one kind
Common == {"len", "iter", "shape", "measure", "parameters"}
NamedParts == [k \in {"rec", "opt", "map", "tup", "fun", "cat", "time", "datetime", "td", "units", "str", "dec", "tv", "fix", "ell", "ct"} |->
   CASE k = "rec" -> {"names", "types", "fields", "dict"} [] k = "opt" -> {"ty", "itemsize"} [] k = "map" -> {"key", "value"} [] k = "tup" -> {"dshapes"}
     [] k = "fun" -> {"argtypes", "restype"} [] k = "cat" -> {"categories", "type", "ordered"} [] k \in {"time", "datetime"} -> {"tz"} [] k = "td" -> {"unit"}
     [] k = "units" -> {"unit", "tp"} [] k = "str" -> {"fixlen", "encoding"} [] k = "dec" -> {"precision", "scale"} [] k = "tv" -> {"symbol"}
     [] k = "fix" -> {"val", "int", "index"} [] k = "ell" -> {"typevar"} [] k = "ct" -> {"name", "itemsize", "alignment"}]
PartNames(v) == IF v[1] \in {"b", "d"} /\ v[2][1] \in DOMAIN NamedParts THEN NamedParts[v[2][1]] ELSE {}
PartOf(T, a) ==
  LET k == T[1]
      ps == ParametersOf(<<"b", T>>)
  IN CASE a = "names" -> ListV([i \in 1..Len(T[2]) |-> TextV(T[2][i][1])])
       [] a = "types" -> ListV([i \in 1..Len(T[2]) |-> ElementOf(T[2][i][2])])
       [] a \in {"fields", "dict"} -> PairsOf(T[2])
       [] a \in {"ty", "key", "dshapes", "categories", "tz", "fixlen", "precision", "symbol", "val", "int", "index", "typevar", "name"} -> ps[1]
       [] a = "unit" -> ps[1]
       [] a \in {"value", "tp", "encoding", "scale", "type"} -> ps[2]
       [] a \in {"ordered", "alignment"} -> ps[3]
       [] a = "argtypes" -> ListV(SubSeq(ps, 1, Len(ps)-1))
       [] a = "restype" -> ps[Len(ps)]
Rd(v, acc) ==
  LET T == v[2]
      a == acc[1]
  IN CASE a = "len" -> RdOk(IntV(NInt(Len(ItemsOf(v)))))
       [] a = "iter" -> RdOk(ListV(ItemsOf(v)))
       [] a = "shape" -> RdOk(IF v[1] = "w" THEN DimsV(T) ELSE OptShape(T))
       [] a = "measure" -> RdOk(IF v[1] = "w" THEN <<"b", MeasureOf(T)>> ELSE v)
       [] a = "parameters" -> RdOk(ListV(ParametersOf(v)))
       \* the fields of a record are there by name only
       [] a \in {"item", "slice"} /\ v[1] = "b" /\ T[1] = "rec" -> RdExc
       [] a = "item" -> ItemOf(ItemsOf(v), acc[2])
       [] a = "slice" -> SliceOf(ItemsOf(v), acc)
       [] a = "field" -> FieldRead(T[2], acc[2])
       [] a = "itemsize" -> SizeOf(T)
       [] OTHER -> RdOk(PartOf(T, a))
\* what is judged: a record alone is read by the names of its fields
Readable(v, acc) == CASE acc[1] = "iter" -> v[1] = "w" \/ v[2][1] # "rec"
                      [] acc[1] = "field" -> v[1] = "b" /\ v[2][1] = "rec"
                      [] acc[1] \in Common \cup {"item", "slice"} -> TRUE
                      [] OTHER -> acc[1] \in PartNames(v)
\* values agree when they are the same but for what is left open
RECURSIVE SameV(_,_)
SameV(a, b) == IF a[1] = "t" THEN b[1] \in {"w", "b"} /\ a[2] = b[2]
               ELSE IF a[1] = "list" THEN b[1] = "list" /\ Len(a[2]) = Len(b[2]) /\ \A i \in 1..Len(a[2]) : SameV(a[2][i], b[2][i])
               ELSE a = b
JRead(e) ==
  LET r == Rd(e.v, e.acc)
      out == e.out
  IN CASE out[1] = "hang" -> {"read.hang"}
       [] ~Readable(e.v, e.acc) -> {"read.undefined"}
       [] r[1] = "exc" -> IF out[1] \in {"exc", "crash"} THEN {} ELSE {"read.accepted"}
       [] out[1] \in {"exc", "crash"} -> {"read.refused"}
       [] OTHER -> IF out[1] = "ok" /\ SameV(r[2], out[2]) THEN {} ELSE {"read.value"}
=============================================================================
