------------------------------ MODULE Predicates -----------------------------
(***************************************************************************)
(* What the predicates say about a datashape.                              *)
(***************************************************************************)
EXTENDS Unify

Tri(b) == IF b THEN "yes" ELSE "no"          \* "any" where nothing is specified
UnOpt(T) == IF T[1] = "opt" THEN T[2] ELSE T
PScalar(T) == LET x == UnOpt(T) IN IsUnitT(x) \/ x[1] = "cat"
PRecord(T) == UnOpt(T)[1] = "rec"
PCollection(T) == HasHead(T)
PTabular(T) == Len(DimsOf(T)) = 1 /\ PRecord(MeasureOf(T))

RECURSIVE TypeBag(_)
TypeBag(T) ==                   \* the scalar types, options apart from plain ones
  LET m == MeasureOf(T)
      k == Kids(m)
  IN IF PScalar(m) THEN {EqForm(m)} ELSE UNION {TypeBag(k[i]) : i \in 1..Len(k)}
PHomogeneous(T) == \E x \in TypeBag(T) : TypeBag(T) = {x}

RECURSIVE PFixed(_)
AllTri(f(_), s) == LET r == [i \in 1..Len(s) |-> f(s[i])]
                   IN IF \E i \in 1..Len(r) : r[i] = "no" THEN "no" ELSE IF \E i \in 1..Len(r) : r[i] = "any" THEN "any" ELSE "yes"
PFixed(T) ==
  LET m == MeasureOf(T)
      x == UnOpt(m)
      k == Kids(m)
  IN IF \E i \in 1..Len(DimsOf(T)) : T[2][i][1] \in {"var", "ell", "tv"} THEN "no"
     ELSE IF m[1] = "tv" THEN "no"
     ELSE IF x[1] \in {"rec", "tup"} THEN AllTri(PFixed, Kids(x))
     ELSE IF m[1] = "opt" /\ x[1] = "ds" THEN PFixed(x)
     \* whether functions, maps and options of options are looked into is not specified
     ELSE IF AllTri(PFixed, k) = "yes" THEN "yes"
     ELSE "any"

RECURSIVE HasDim(_,_)
HasDim(T, K) ==
  \/ \E i \in 1..Len(DimsOf(T)) : T[2][i][1] \in K
  \/ LET k == Kids(MeasureOf(T)) IN \E i \in 1..Len(k) : HasDim(k[i], K)

InnerOf(T) == UnOpt(MeasureOf(T))
PNumeric(T) == LET x == InnerOf(T) IN
  CASE x[1] = "ct" -> Tri(x[2] \in IntNames \cup UIntNames \cup FloatNames \cup ComplexNames)
    [] x[1] = "td" -> "yes"
    [] x[1] = "dec" -> IF NSgn(x[3]) = 0 /\ NLt(NInt(18), x[2]) THEN "any" ELSE "yes"
    [] OTHER -> "no"
PReal(T) == LET x == InnerOf(T) IN x[1] = "ct" /\ x[2] \in FloatNames
PBoolean(T) == InnerOf(T) = BoolT
PDateLike(T) == InnerOf(T)[1] \in {"date", "datetime"}

Says(p, T) ==
  CASE p = "isscalar" -> Tri(PScalar(T)) [] p = "isrecord" -> Tri(PRecord(T)) [] p = "iscollection" -> Tri(PCollection(T))
    [] p = "istabular" -> Tri(PTabular(T)) [] p = "isfixed" -> PFixed(T) [] p = "ishomogeneous" -> Tri(PHomogeneous(T))
    [] p = "isnumeric" -> PNumeric(T) [] p = "isreal" -> Tri(PReal(T)) [] p = "isboolean" -> Tri(PBoolean(T))
    [] p = "isdatelike" -> Tri(PDateLike(T)) [] p = "has_var_dim" -> Tri(HasDim(T, {"var", "ell"}))
    [] p = "has_ellipsis" -> Tri(HasDim(T, {"ell"}))
PredNames == {"isscalar", "isrecord", "iscollection", "istabular", "isfixed", "ishomogeneous", "isnumeric", "isreal", "isboolean",
              "isdatelike", "has_var_dim", "has_ellipsis"}

\* the parts of T of the given kinds, outermost first; parts of a part that counts are not looked at
RECURSIVE CollectT(_,_)
CollectDim(d, K) == IF d[1] \in K THEN <<d>>
                    ELSE IF d[1] = "ell" /\ d[2] # <<>> /\ "tv" \in K THEN <<<<"tv", d[2][1]>>>> ELSE <<>>
CollectT(T, K) ==
  LET m == MeasureOf(T)
      k == Kids(m)
  IN ConcatAll([i \in 1..Len(DimsOf(T)) |-> CollectDim(T[2][i], K)])
     \o (IF m[1] \in K THEN <<m>> ELSE ConcatAll([i \in 1..Len(k) |-> CollectT(k[i], K)]))

\* ------------------------------------------------------------------- type sets
KindSets == ("signed" :> IntNames) @@ ("unsigned" :> UIntNames) @@ ("integral" :> IntNames \cup UIntNames) @@ ("floating" :> FloatNames)
            @@ ("complexes" :> ComplexNames) @@ ("boolean" :> {"bool"}) @@ ("real" :> IntNames \cup UIntNames \cup FloatNames)
            @@ ("numeric" :> IntNames \cup UIntNames \cup FloatNames \cup ComplexNames)
            @@ ("scalar" :> IntNames \cup UIntNames \cup FloatNames \cup ComplexNames \cup {"bool"})
BaseKinds == {"signed", "unsigned", "floating", "complexes", "boolean"}
SetTypes(n) == {CT(x) : x \in KindSets[n]}
SuperKind(x) == IF x[1] = "ct" /\ \E k \in BaseKinds : x[2] \in KindSets[k] THEN <<"ok", CHOOSE k \in BaseKinds : x[2] \in KindSets[k]>> ELSE NpExc
SuperOf(T) == SuperKind(UnOpt(T))
WidestOf(T) == LET m == MeasureOf(T)
                   x == UnOpt(m)
                   Again(y) == IF m[1] = "opt" THEN OptOf(y) ELSE y
               IN IF x[1] \in {"dec", "td"} THEN NpOk(Again(x))
                  ELSE IF SuperKind(x)[1] # "ok" THEN NpExc
                  ELSE LET ks == KindSets[SuperKind(x)[2]] IN NpOk(Again(CT(CHOOSE n \in ks : \A o \in ks : CSize(o) <= CSize(n))))
\* a list with every member once, in order
RECURSIVE Once(_)
Once(ts) == IF ts = <<>> THEN <<>>
            ELSE LET r == Once(SubSeq(ts, 1, Len(ts)-1))
                     x == ts[Len(ts)]
                 IN IF \E i \in 1..Len(r) : SameAs(r[i], x) THEN r ELSE Append(r, x)
MemberOf(T, ts) == \E i \in 1..Len(ts) : SameAs(ts[i], T)

\* claims and signatures: <<"one", T>> <<"set", types>> <<"tuple", elements>>
MatchOne(a, b) == CASE b[1] = "set" -> IF a[1] = "one" THEN Tri(MemberOf(a[2], b[2])) ELSE "any"
                    [] OTHER -> IF a[1] = "one" THEN Tri(SameAs(a[2], b[2])) ELSE "any"
MatchSig(a, b) ==
  IF b[1] = "set"
  THEN CASE a[1] = "one" -> Tri(MemberOf(a[2], b[2]))
         [] a[1] = "set" -> Tri(\A i \in 1..Len(a[2]) : MemberOf(a[2][i], b[2]))
         [] a[1] = "tuple" -> AllTri(LAMBDA x : MatchOne(x, b), a[2])
  ELSE CASE a[1] = "one" -> IF \E i \in 1..Len(b[2]) : b[2][i][1] = "one" /\ SameAs(a[2], b[2][i][2]) THEN "yes" ELSE "any"
         [] a[1] = "tuple" /\ Len(a[2]) = Len(b[2]) ->
              LET r == [i \in 1..Len(b[2]) |-> MatchOne(a[2][i], b[2][i])]
              IN IF \E i \in 1..Len(r) : r[i] = "any" THEN "any" ELSE Tri(\A i \in 1..Len(r) : r[i] = "yes")
         [] OTHER -> "any"

\* ------------------------------------------- equality up to what the flags switch off
\* flags: record with the fields dim, tz, unit, enc, len, order
SortFields(fs) == LET ns == SortNames(NameSet(fs)) IN [i \in 1..Len(ns) |-> <<ns[i], FieldOr(fs, ns[i], NullT)>>]
RECURSIVE EqUpTo(_,_,_)
EqUpTo(a, b, f) ==
  LET x == MeasureOf(a)
      y == MeasureOf(b)
      All(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : EqUpTo(s[i], t[i], f)
      xs == IF f.order THEN x[2] ELSE SortFields(x[2])
      ys == IF f.order THEN y[2] ELSE SortFields(y[2])
  IN /\ f.dim => DimsOf(a) = DimsOf(b)
     /\ x[1] = y[1]
     /\ CASE x[1] \in {"time", "datetime"} -> f.tz => x = y
          [] x[1] = "td" -> f.unit => x = y
          [] x[1] = "str" -> (f.len => x[2] = y[2]) /\ (f.enc => x[3] = y[3])
          [] x[1] = "units" -> x[2] = y[2] /\ EqUpTo(x[3], y[3], f)
          [] x[1] = "opt" -> EqUpTo(x[2], y[2], f)
          [] x[1] = "rec" -> /\ Len(x[2]) = Len(y[2])
                             /\ \A i \in 1..Len(xs) : xs[i][1] = ys[i][1] /\ EqUpTo(xs[i][2], ys[i][2], f)
          [] x[1] = "tup" -> All(x[2], y[2])
          [] x[1] = "fun" -> All(x[2], y[2]) /\ EqUpTo(x[3], y[3], f)
          [] OTHER -> SameAs(x, y)
=============================================================================
