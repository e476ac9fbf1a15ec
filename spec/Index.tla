-------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* Indexing and concatenating datashapes.  An index is one of              *)
(*   <<"int", n>> <<"name", text>> <<"slice", start, stop, step>> (each    *)
(*   <<>> or <<n>>) <<"list", items>> <<"none">> <<"tuple", items>>        *)
(* Results: <<"ok", T>>, <<"exc">> (refused), <<"maybe", T>> (T or refused),*)
(* <<"any">> (not specified)                                               *)
(***************************************************************************)
EXTENDS Types

IxOk(T) == <<"ok", T>>
IxExc == <<"exc">>
IxAny == <<"any">>

\* the number of items of range(start, stop, step), step # 0
RangeCount(start, stop, step) ==
  LET d == IF NSgn(step) > 0 THEN NSub(stop, start) ELSE NSub(start, stop)
      a == NAbs(step)
  IN IF NSgn(d) <= 0 THEN NZero ELSE NAdd(NFloorDiv(NSub(d, NOne), a), NOne)

\* how many of n items a slice selects
SliceCount(n, sl) ==
  LET step == IF sl[4] = <<>> THEN NOne ELSE sl[4][1]
      up == NSgn(step) > 0
      lo == IF up THEN NZero ELSE NInt(-1)
      hi == IF up THEN n ELSE NSub(n, NOne)
      Clip(x) == LET y == IF NSgn(x) < 0 THEN NAdd(x, n) ELSE x IN NMax(lo, NMin(hi, y))
      start == IF sl[2] = <<>> THEN (IF up THEN lo ELSE hi) ELSE Clip(sl[2][1])
      stop  == IF sl[3] = <<>> THEN (IF up THEN hi ELSE lo) ELSE Clip(sl[3][1])
  IN RangeCount(start, stop, step)

\* Python's sequence index on 1..Len; 0 when out of range
PyIndex(len, n) == IF ~NSmall(n) THEN 0
                   ELSE LET i == NToInt(n) IN IF i >= 0 THEN (IF i < len THEN i+1 ELSE 0)
                                              ELSE IF i >= -len THEN len + i + 1 ELSE 0
FieldNames(fs) == [i \in 1..Len(fs) |-> fs[i][1]]
FieldAt(fs, x) == IF x[1] = "name" THEN IndexIn(FieldNames(fs), x[2])
                  ELSE IF x[1] = "int" THEN PyIndex(Len(fs), x[2]) ELSE 0

\* positions selected by a slice of a sequence of length len (small numbers)
SmallOr(x, d, len) == IF x = <<>> THEN d
                      ELSE IF ~NSmall(x[1]) THEN (IF NSgn(x[1]) > 0 THEN 100000 ELSE -100000)
                      ELSE NToInt(x[1])
SlicePositions(len, sl) ==
  LET step == SmallOr(sl[4], 1, len)
      cnt == NToInt(SliceCount(NInt(len), sl))
      Clip(x) == LET y == IF x < 0 THEN x + len ELSE x
                 IN IF step > 0 THEN (IF y < 0 THEN 0 ELSE IF y > len THEN len ELSE y)
                    ELSE (IF y < -1 THEN -1 ELSE IF y > len-1 THEN len-1 ELSE y)
      start == IF sl[2] = <<>> THEN (IF step > 0 THEN 0 ELSE len-1) ELSE Clip(SmallOr(sl[2], 0, len))
  IN [k \in 1..cnt |-> start + (k-1)*step + 1]
ZeroStep(sl) == sl[4] # <<>> /\ NSgn(sl[4][1]) = 0

\* a variable dimension: the length is known when counted from the front
VarSlice(sl) ==
  LET nonneg(x) == x = <<>> \/ NSgn(x[1]) >= 0
      start == IF sl[2] = <<>> THEN NZero ELSE sl[2][1]
      step == IF sl[4] = <<>> THEN NOne ELSE sl[4][1]
  IN IF sl[3] # <<>> /\ nonneg(sl[2]) /\ nonneg(sl[3]) /\ NSgn(step) > 0
     THEN Fix(RangeCount(start, sl[3][1], step)) ELSE VarDim

RECURSIVE Sub(_,_)
\* the result of a further step on the result of a former one
Then(r, F(_)) == IF r[1] = "ok" THEN F(r[2])
                 ELSE IF r[1] = "maybe" THEN (LET s == F(r[2]) IN IF s[1] = "ok" THEN <<"maybe", s[2]>> ELSE s)
                 ELSE r
SubTuple(T, xs) ==
  IF xs = <<>> THEN IxOk(T)
  ELSE IF xs[1] = <<"none">> THEN Then(Sub(T, <<"tuple", Tail(xs)>>), LAMBDA U : IxOk(MkDs(<<Fix(NOne)>>, U)))
  ELSE IF Len(xs) = 1 THEN Sub(T, xs[1])
  ELSE IF DimsOf(T) = <<>> THEN IxExc
  ELSE Then(Sub(MkDs(Tail(DimsOf(T)), MeasureOf(T)), <<"tuple", Tail(xs)>>),
            LAMBDA U : Sub(MkDs(<<DimsOf(T)[1]>>, U), xs[1]))

SubDim(T, x) ==           \* T has dimensions
  LET d == DimsOf(T)[1]
      rest == MkDs(Tail(DimsOf(T)), MeasureOf(T))
      \* a position outside a fixed dimension may be refused
      inside(y) == d[1] = "var" \/ (y[1] = "int" /\ NLt(y[2], d[2]) /\ NLe(NNeg(d[2]), y[2]))
      sized(items, T2) == IF \A k \in 1..Len(items) : inside(items[k]) THEN IxOk(T2) ELSE <<"maybe", T2>>
  IN CASE x[1] = "int"   -> IF d[1] = "ell" THEN IxAny ELSE IF d[1] = "tv" THEN IxExc ELSE sized(<<x>>, rest)
       [] x[1] = "list"  -> IF d[1] = "ell" THEN IxAny ELSE IF d[1] = "tv" THEN IxExc
                            ELSE sized(x[2], MkDs(<<Fix(NInt(Len(x[2])))>>, rest))
       [] x[1] = "slice" -> IF d[1] = "ell" THEN IxAny
                            ELSE IF d[1] = "fix" THEN (IF ZeroStep(x) THEN IxExc ELSE IxOk(MkDs(<<Fix(SliceCount(d[2], x))>>, rest)))
                            ELSE IF ZeroStep(x) THEN (IF VarSlice([x EXCEPT ![4] = <<>>]) = VarDim THEN IxAny ELSE IxExc)
                            ELSE IxOk(MkDs(<<VarSlice(x)>>, rest))
       [] OTHER -> IxExc
SubMeasure(T, x) ==
  IF T[1] # "rec" THEN IxExc
  ELSE LET fs == T[2] IN
       CASE x[1] \in {"int", "name"} -> LET i == FieldAt(fs, x) IN IF i = 0 THEN IxExc ELSE IxOk(fs[i][2])
         [] x[1] = "list" ->
              LET p == [k \in 1..Len(x[2]) |-> FieldAt(fs, x[2][k])]
              IN IF 0 \in RangeOf(p) \/ ~Distinct(p) THEN IxExc ELSE IxOk(<<"rec", [k \in 1..Len(p) |-> fs[p[k]]]>>)
         [] x[1] = "slice" ->
              IF ZeroStep(x) THEN IxExc
              ELSE LET p == SlicePositions(Len(fs), x) IN IxOk(<<"rec", [k \in 1..Len(p) |-> fs[p[k]]]>>)
         [] OTHER -> IxExc
Sub(T, x) == IF x[1] = "tuple" THEN SubTuple(T, x[2])
             ELSE IF DimsOf(T) # <<>> THEN SubDim(T, x) ELSE SubMeasure(T, x)

\* dropping leading dimensions
SubArray(T, n) == IF NSgn(n) < 0 THEN IxAny
                  ELSE IF ~NSmall(n) \/ NToInt(n) > Len(DimsOf(T)) THEN IxExc
                  ELSE IxOk(MkDs(SubSeq(DimsOf(T), NToInt(n)+1, Len(DimsOf(T))), MeasureOf(T)))

\* ------------------------------------------------------------- concatenation
RECURSIVE SumLead(_)
SumLead(ts) == IF ts = <<>> THEN NZero ELSE NAdd(DimsOf(ts[1])[1][2], SumLead(Tail(ts)))
CatDs(ts) ==
  IF ts = <<>> THEN IxExc
  ELSE IF Len(ts) = 1 THEN IxOk(ts[1])
  ELSE IF \E i \in 1..Len(ts) : DimsOf(ts[i]) = <<>> \/ (DimsOf(ts[i]) # <<>> /\ DimsOf(ts[i])[1][1] # "fix") THEN IxExc
  ELSE LET rest(T) == MkDs(Tail(DimsOf(T)), MeasureOf(T))
       IN IF \E i \in 2..Len(ts) : EqForm(rest(ts[i])) # EqForm(rest(ts[1])) THEN IxExc
          ELSE IxOk(MkDs(<<Fix(SumLead(ts))>>, rest(ts[1])))
=============================================================================
