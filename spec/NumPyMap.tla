------------------------------ MODULE NumPyMap ------------------------------
(***************************************************************************)
(* The correspondence with NumPy.  A NumPy dtype is                        *)
(*   <<"n", name>>  <<"S", width>> <<"U", width>>  <<"M", unit, count>>    *)
(*   <<"m", unit, count>>  <<"V", size>>                                   *)
(*   <<"rec", fields>>     fields: <<name, shape, dtype>>                  *)
(* with widths, sizes, counts and shapes as numbers (Nums).                *)
(***************************************************************************)
EXTENDS Types

NpOk(x) == <<"ok", x>>
NpExc == <<"exc">>
NpAny == <<"any">>
MaxSize == NSub(NFromDigits(1, Cp("2147483648")), NOne)

NMul(a, b) == \* magnitudes by schoolbook
  LET RECURSIVE Go(_,_)
      Go(i, acc) == IF i = 1 THEN acc
                    ELSE Go(i-1, MAdd(MStrip(<<0>> \o acc), MMulSmall(NMag(a), b[i])))
  IN IF NSgn(a) = 0 \/ NSgn(b) = 0 THEN NZero
     ELSE NMk(NSgn(a) * NSgn(b), MStrip(Go(Len(b), <<>>)))

\* names of the machine types on the NumPy side
NpNames == {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
            "float16", "float32", "float64", "complex64", "complex128", "object"}
CtOfNp(n) == CASE n = "complex64" -> "complex[float32]" [] n = "complex128" -> "complex[float64]" [] OTHER -> n
NpOfCt(n) == CASE n = "complex[float32]" -> "complex64" [] n = "complex[float64]" -> "complex128" [] OTHER -> n

\* ---------------------------------------------------------------- from NumPy
RECURSIVE FromDt(_), FromNp(_,_)
FromDt(d) ==
  CASE d[1] = "n" -> IF d[2] \in NpNames THEN NpOk(CT(CtOfNp(d[2]))) ELSE NpExc
    [] d[1] = "S" -> NpOk(<<"str", <<d[2]>>, "A">>)
    [] d[1] = "U" -> NpOk(<<"str", <<d[2]>>, "U32">>)
    [] d[1] = "M" -> NpOk(IF d[2] \in {"D", "Y", "M", "W"} THEN DateT ELSE DateTimeT)
    [] d[1] = "m" -> IF d[2] \notin TimeUnits THEN NpExc ELSE IF d[3] # NOne THEN NpAny ELSE NpOk(<<"td", d[2]>>)
    [] d[1] = "V" -> IF d[2] = NZero THEN NpOk(CT("void")) ELSE NpExc
    [] d[1] = "rec" ->
         LET ts == [i \in 1..Len(d[2]) |-> FromNp(d[2][i][2], d[2][i][3])]
         IN IF \E i \in 1..Len(ts) : ts[i] = NpAny THEN NpAny
            ELSE IF \E i \in 1..Len(ts) : ts[i] = NpExc THEN NpExc
            ELSE NpOk(<<"rec", [i \in 1..Len(ts) |-> <<d[2][i][1], ts[i][2]>>]>>)
FromNp(shape, d) ==
  LET m == FromDt(d) IN IF m[1] = "ok" THEN NpOk(MkDs(SeqMap(Fix, shape), m[2])) ELSE m

\* ------------------------------------------------------------------ to NumPy
RECURSIVE DtSize(_)
DtSize(d) == CASE d[1] = "n" -> NInt(CSize(CtOfNp(d[2])))
               [] d[1] = "S" -> d[2]
               [] d[1] = "U" -> NMul(NInt(4), d[2])
               [] d[1] \in {"M", "m"} -> NInt(8)
               [] d[1] = "V" -> d[2]
               [] d[1] = "rec" ->
                    LET RECURSIVE Sz(_)
                        Sz(i) == IF i = 0 THEN NZero
                                 ELSE LET RECURSIVE Prod(_)
                                          Prod(k) == IF k = 0 THEN DtSize(d[2][i][3]) ELSE NMul(d[2][i][2][k], Prod(k-1))
                                      IN NAdd(Sz(i-1), Prod(Len(d[2][i][2])))
                    IN Sz(Len(d[2]))
RECURSIVE Product(_)
Product(ns) == IF ns = <<>> THEN NOne ELSE NMul(IF NSgn(ns[1]) = 0 THEN NOne ELSE ns[1], Product(Tail(ns)))
\* a field: its shape and dtype.  Sizes beyond what NumPy can count are not specified.
Sizeless(d) == d[1] \in {"S", "U", "V"} /\ d[2] = NZero
RECURSIVE ToDt(_)
FieldDt(name, T) ==
  LET d == ToDt(T)
      dims == DimsOf(T)
      fixed == \A i \in 1..Len(dims) : dims[i][1] = "fix"
      shape == IF fixed THEN [i \in 1..Len(dims) |-> dims[i][2]] ELSE <<>>
  IN IF d[1] # "ok" THEN d
     \* NumPy has no subarrays of texts without characters
     ELSE IF shape # <<>> /\ Sizeless(d[2]) THEN NpExc
     ELSE IF NLe(MaxSize, NMul(Product(shape), NAdd(DtSize(d[2]), NOne))) \/ Len(shape) > 30 THEN NpAny
     ELSE NpOk(<<name, shape, d[2]>>)
Fields(names, ts) ==
  LET fs == [i \in 1..Len(ts) |-> FieldDt(names[i], ts[i])]
  IN IF \E i \in 1..Len(fs) : fs[i] = NpExc THEN NpExc
     ELSE IF \E i \in 1..Len(fs) : fs[i] = NpAny \/ names[i] = <<>> THEN NpAny
     ELSE LET r == <<"rec", [i \in 1..Len(fs) |-> fs[i][2]]>>
          IN IF NLe(MaxSize, DtSize(r)) THEN NpAny ELSE NpOk(r)
\* the dtype of the measure of T
ToDt(T0) ==
  LET T == MeasureOf(T0) IN
  CASE T[1] = "ct"   -> IF T[2] = "char" THEN NpExc
                        ELSE IF T[2] = "void" THEN NpOk(<<"V", NZero>>) ELSE NpOk(<<"n", NpOfCt(T[2])>>)
    [] T[1] = "date" -> NpOk(<<"M", "D", NOne>>)
    [] T[1] = "datetime" -> NpOk(<<"M", "us", NOne>>)
    [] T[1] = "td"   -> NpOk(<<"m", T[2], NOne>>)
    [] T[1] = "str"  -> IF T[2] = <<>> THEN NpOk(<<"n", "object">>)
                        ELSE LET n == T[2][1]
                                 size == IF T[3] = "A" THEN n ELSE NMul(NInt(4), n)
                             IN IF NLt(MaxSize, size) THEN NpExc
                                ELSE NpOk(<<IF T[3] = "A" THEN "S" ELSE "U", n>>)
    [] T[1] = "dec"  -> LET p == T[2] IN
                        IF NSgn(T[3]) # 0 THEN NpOk(<<"n", "float64">>)
                        ELSE IF NLe(p, NInt(2)) THEN NpOk(<<"n", "int8">>)
                        ELSE IF NLe(p, NInt(4)) THEN NpOk(<<"n", "int16">>)
                        ELSE IF NLe(p, NInt(9)) THEN NpOk(<<"n", "int32">>)
                        ELSE IF NLe(p, NInt(18)) THEN NpOk(<<"n", "int64">>)
                        ELSE NpExc
    [] T[1] = "opt"  -> IF T[2][1] \in {"date", "datetime", "td"} THEN ToDt(T[2]) ELSE NpExc
    [] T[1] = "map"  -> ToDt(T[2])
    [] T[1] = "rec"  -> Fields([i \in 1..Len(T[2]) |-> T[2][i][1]], [i \in 1..Len(T[2]) |-> T[2][i][2]])
    [] T[1] = "tup"  -> Fields([i \in 1..Len(T[2]) |-> Cp("f") \o NText(NInt(i-1))], T[2])
    [] OTHER -> NpExc
\* shape and dtype of the whole
ToNp(T) ==
  LET dims == DimsOf(T)
      d == ToDt(T)
  IN IF \E i \in 1..Len(dims) : dims[i][1] \notin {"fix", "tv"} THEN NpExc
     ELSE IF d[1] # "ok" THEN d
     ELSE NpOk(<<[i \in 1..Len(dims) |-> IF dims[i][1] = "fix" THEN dims[i][2] ELSE NInt(-1)], d[2]>>)
\* the scalar NumPy dtype of a type used in promotion, <<>> if none
NpScalar(T) == LET d == ToDt(T) IN d
=============================================================================
