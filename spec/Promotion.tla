------------------------------ MODULE Promotion ------------------------------
(***************************************************************************)
(* Promotion of two scalar types, as NumPy 1.26 defines it for dtypes,     *)
(* strings staying strings, and options.                                   *)
(***************************************************************************)
EXTENDS NumPyMap

KindOf(n) == CASE n = "bool" -> "b"
               [] n \in IntNames -> "i" [] n \in UIntNames -> "u" [] n \in FloatNames -> "f"
               [] n \in {"complex64", "complex128"} -> "c"
               [] OTHER -> "O"
\* bits of one component
BitsOf(n) == CASE n \in {"int8", "uint8", "bool"} -> 8
               [] n \in {"int16", "uint16", "float16"} -> 16
               [] n \in {"int32", "uint32", "float32", "complex64"} -> 32
               [] OTHER -> 64
IntN(b) == CASE b = 8 -> "int8" [] b = 16 -> "int16" [] b = 32 -> "int32" [] b = 64 -> "int64"
UIntN(b) == CASE b = 8 -> "uint8" [] b = 16 -> "uint16" [] b = 32 -> "uint32" [] b = 64 -> "uint64"
FloatN(b) == CASE b = 16 -> "float16" [] b = 32 -> "float32" [] b = 64 -> "float64"
ComplexN(b) == IF b = 64 THEN "complex128" ELSE "complex64"
Max2(a, b) == IF a < b THEN b ELSE a
\* the float that holds integers of so many bits
FloatForInt(b) == CASE b = 8 -> 16 [] b = 16 -> 32 [] OTHER -> 64
KindRank(k) == CASE k = "b" -> 0 [] k = "u" -> 1 [] k = "i" -> 2 [] k = "f" -> 3 [] k = "c" -> 4 [] k = "O" -> 5
FloatBits(n) == IF KindOf(n) = "b" THEN 16 ELSE IF KindOf(n) \in {"i", "u"} THEN FloatForInt(BitsOf(n)) ELSE BitsOf(n)

\* least type of numbers that both fit in
NumJoin(a, b) ==
  LET ka == KindOf(a)
      kb == KindOf(b)
      top == IF KindRank(ka) < KindRank(kb) THEN kb ELSE ka
  IN IF top = "O" THEN "object"
     ELSE IF a = b THEN a
     ELSE IF ka = "b" THEN b ELSE IF kb = "b" THEN a
     ELSE IF top \in {"f", "c"} THEN
          LET bits == Max2(FloatBits(a), FloatBits(b)) IN IF top = "f" THEN FloatN(bits) ELSE ComplexN(bits)
     ELSE IF ka = kb THEN (IF ka = "i" THEN IntN(Max2(BitsOf(a), BitsOf(b))) ELSE UIntN(Max2(BitsOf(a), BitsOf(b))))
     ELSE LET ib == IF ka = "i" THEN BitsOf(a) ELSE BitsOf(b)
              ub == IF ka = "u" THEN BitsOf(a) ELSE BitsOf(b)
          IN IF ib > ub THEN IntN(ib) ELSE IF ub = 64 THEN "float64" ELSE IntN(2*ub)

UnitOrder == <<"Y", "M", "W", "D", "h", "m", "s", "ms", "us", "ns">>
URank(u) == CHOOSE i \in 1..10 : UnitOrder[i] = u
FinerUnit(a, b) == IF URank(a) < URank(b) THEN b ELSE a
IsCal(u) == u \in {"Y", "M"}

\* join of two dtypes: <<"ok", dtype>>, exc or any
DtJoin(a, b) ==
  CASE a[1] = "n" /\ b[1] = "n" -> NpOk(<<"n", NumJoin(a[2], b[2])>>)
    [] a = <<"n", "object">> \/ b = <<"n", "object">> ->
         LET o == IF a = <<"n", "object">> THEN b ELSE a IN IF o[1] \in {"rec", "V"} THEN NpAny ELSE NpOk(<<"n", "object">>)
    [] a[1] = "m" /\ b[1] = "m" -> IF IsCal(a[2]) # IsCal(b[2]) THEN NpExc ELSE NpOk(<<"m", FinerUnit(a[2], b[2]), NOne>>)
    [] a[1] = "M" /\ b[1] \in {"M", "m"} -> NpOk(<<"M", FinerUnit(a[2], b[2]), NOne>>)
    [] a[1] = "m" /\ b[1] = "M" -> NpOk(<<"M", FinerUnit(a[2], b[2]), NOne>>)
    [] a[1] = "m" /\ b[1] = "n" -> IF KindOf(b[2]) \in {"b", "i", "u"} /\ b[2] # "uint64" THEN NpOk(a) ELSE NpExc
    [] a[1] = "n" /\ b[1] = "m" -> IF KindOf(a[2]) \in {"b", "i", "u"} /\ a[2] # "uint64" THEN NpOk(b) ELSE NpExc
    [] a[1] = "M" /\ b[1] = "n" -> NpExc
    [] a[1] = "n" /\ b[1] = "M" -> NpExc
    [] a[1] \in {"S", "U"} /\ b[1] \in {"S", "U"} ->
         NpOk(<<IF a[1] = "S" /\ b[1] = "S" THEN "S" ELSE "U", NMax(a[2], b[2])>>)
    [] OTHER -> NpAny      \* fixed width strings, records and raw memory

StripOpt(T) == LET m == MeasureOf(T) IN IF m[1] = "opt" THEN m[2] ELSE m
IsOption(T) == MeasureOf(T)[1] = "opt"

\* the scalar types the promotion is specified for
PromoKind(T) == T[1] \in {"ct", "date", "datetime", "td", "str", "dec", "time", "json", "null", "bytes", "cat", "units", "tv"}
Promote(a, b, opt) ==
  LET l == StripOpt(a)
      r == StripOpt(b)
      WithOpt(T) == IF opt /\ (IsOption(a) \/ IsOption(b)) /\ T[1] # "opt" THEN OptOf(T) ELSE T
      dl == ToDt(l)
      dr == ToDt(r)
  IN IF EqForm(a) = EqForm(b) THEN NpOk(a)
     ELSE IF EqForm(l) = EqForm(r) THEN NpOk(WithOpt(l))
     ELSE IF ~PromoKind(l) \/ ~PromoKind(r) THEN NpAny
     ELSE IF dl = NpExc \/ dr = NpExc THEN NpExc
     ELSE IF dl[1] # "ok" \/ dr[1] # "ok" THEN NpAny
     ELSE LET j == DtJoin(dl[2], dr[2])
              T == FromDt(j[2])
          IN IF j[1] # "ok" THEN j ELSE IF T[1] # "ok" THEN T ELSE NpOk(WithOpt(T[2]))
=============================================================================
