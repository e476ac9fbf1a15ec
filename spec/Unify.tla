-------------------------------- MODULE Unify --------------------------------
(***************************************************************************)
(* Uniting datashapes.  Results are <<"ok", T>>, <<"none">> (not united)   *)
(* or exc.                                                                 *)
(***************************************************************************)
EXTENDS Classify, JudgeNumPy, TLC

Int32T == CT("int32")
Int64T == CT("int64")
RealT == CT("float64")
BoolT == CT("bool")
DeltaT == <<"td", "us">>
UNone == <<"none">>

\* The conversion order: the types that T can become.
Above == (Int32T :> {Int64T}) @@ (Int64T :> {RealT, StringT}) @@ (RealT :> {StringT}) @@ (DateT :> {DateTimeT, StringT})
         @@ (DateTimeT :> {StringT}) @@ (DeltaT :> {StringT}) @@ (BoolT :> {StringT}) @@ (NullT :> {StringT})
RECURSIVE UpSet(_)
UpSet(T) == {T} \cup (IF T \in DOMAIN Above THEN UNION {UpSet(U) : U \in Above[T]} ELSE {})
Converts(T, U) == U \in UpSet(T)

\* the least type that all convert to
Lowest(ts) ==
  LET common == {U \in UpSet(ts[1]) : \A i \in 1..Len(ts) : Converts(ts[i], U)}
      least == {U \in common : \A V \in common : Converts(U, V)}
  IN IF ts = <<>> THEN NpExc
     ELSE IF least = {} THEN NpExc ELSE NpOk(CHOOSE U \in least : TRUE)

IsUnitT(T) == T[1] \in {"ct", "null", "date", "bytes", "json", "time", "datetime", "td", "units", "str", "dec", "tv"}
NameSet(fields) == {fields[i][1] : i \in 1..Len(fields)}
RECURSIVE SortNames(_)
SortNames(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : TxtLt(x, y) IN <<m>> \o SortNames(S \ {m})
RowNames(fields) == [i \in 1..Len(fields) |-> fields[i][1]]
FieldOr(fields, n, default) == IF n \in NameSet(fields) THEN fields[CHOOSE i \in 1..Len(fields) : fields[i][1] = n][2] ELSE default
Prepend(n, T) == MkDs(<<Fix(NInt(n))>>, T)

\* the element type that a list of types has in common, missing ones making it optional
RECURSIVE BaseOf(_)
BaseOf(ts) ==
  LET good == FilterSeq(LAMBDA T : T # NullT, ts)
      opt(T) == IF Len(good) < Len(ts) THEN OptOf(T) ELSE T
      low == Lowest(good)
      names == IF \A i \in 1..Len(good) : RowNames(good[i][2]) = RowNames(good[1][2]) THEN RowNames(good[1][2])
               ELSE SortNames(UNION {NameSet(good[i][2]) : i \in 1..Len(good)})
      cols == TLCEval([k \in 1..Len(names) |-> BaseOf(TLCEval([i \in 1..Len(good) |-> FieldOr(good[i][2], names[k], NullT)]))])
  IN IF good = <<>> THEN NpOk(NullT)
     ELSE IF \A i \in 1..Len(good) : IsUnitT(good[i]) THEN (IF low[1] = "ok" THEN NpOk(opt(low[2])) ELSE UNone)
     ELSE IF \A i \in 1..Len(good) : good[i][1] = "rec"
          THEN IF \E k \in 1..Len(cols) : cols[k][1] # "ok" THEN UNone
               ELSE NpOk(opt(<<"rec", [k \in 1..Len(names) |-> <<names[k], cols[k][2]>>]>>))
     ELSE UNone

SameOf(ts) == IF ts # <<>> /\ \A i \in 1..Len(ts) : SameAs(ts[i], ts[1]) THEN NpOk(ts[1]) ELSE UNone
HasHead(T) == T[1] = "ds" /\ IsDim(T[2][1])
RestOf(T) == MkDs(Tail(T[2]), T[3])
MergeOf(ts) ==
  IF ts = <<>> \/ \E i \in 1..Len(ts) : ~HasHead(ts[i]) THEN UNone
  ELSE LET rest == SameOf([i \in 1..Len(ts) |-> RestOf(ts[i])])
           d == ts[1][2][1]
       IN IF rest = UNone THEN UNone
          ELSE NpOk(MkDs(<<IF \A i \in 1..Len(ts) : ts[i][2][1] = d THEN d ELSE VarDim>>, rest[2]))

OneOf(r, s) == IF r[1] = "ok" THEN r ELSE s
\* the type of a column, and of a whole row or list
ColumnOf(ts) == OneOf(SameOf(ts), OneOf(BaseOf(ts), MergeOf(ts)))
\* with the length in front, except for a tuple of different items
Counted(n, r) == IF r[1] = "ok" THEN NpOk(Prepend(n, r[2])) ELSE r
WholeOf(ts) == LET r == OneOf(SameOf(ts), MergeOf(ts)) IN IF r[1] = "ok" THEN Prepend(Len(ts), r[2]) ELSE <<"tup", ts>>
=============================================================================
