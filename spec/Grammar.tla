------------------------------- MODULE Grammar ------------------------------
(***************************************************************************)
(* The datashape language: the backtracking descent over the tokens, with  *)
(* the position of the first error, and what each type constructor takes.  *)
(* Results:  <<"ok", value, next token index>>   <<"none">> (backtrack)    *)
(*           <<"syn", position>>  syntax error at the 0-based position     *)
(*           <<"exc">>            refused by a constructor                 *)
(*           <<"any">>            arguments whose meaning is not specified *)
(* A context c is [toks |-> tokens, sym |-> symbol table].                 *)
(***************************************************************************)
EXTENDS Types, Lexer, Classify

Ok(v, i) == <<"ok", v, i>>
NoneR == <<"none">>
Syn(p) == <<"syn", p>>
ExcR == <<"exc">>
AnyR == <<"any">>
Id(c, i) == c.toks[i][1]
Pos(c, i) == c.toks[i][2]
Val(c, i) == c.toks[i][4]
\* reading token i fails where the lexer fails
At(c, i, r) == IF Id(c, i) = "ERR" THEN Syn(Pos(c, i)) ELSE r

\* ----------------------------------------------------------------------------
\* Type constructors.  Arguments: <<"ds",T>> <<"int",n>> <<"str",t>> <<"bool",b>>
\* <<"list", kind, items>> with kind "ds", "int", "str", "bool" or "empty".
Params(ctor) ==
  CASE ctor = "complex" -> <<"tp">>
    [] ctor = "struct" -> <<"names", "dshapes">>
    [] ctor = "tuple" -> <<"dshapes">>
    [] ctor = "funcproto" -> <<"args", "ret">>
    [] ctor = "option" -> <<"ds">>
    [] ctor = "map" -> <<"key", "value">>
    [] ctor \in {"time", "datetime"} -> <<"tz">>
    [] ctor = "timedelta" -> <<"unit">>
    [] ctor = "units" -> <<"unit", "tp">>
    [] ctor = "decimal" -> <<"precision", "scale">>
    [] ctor = "categorical" -> <<"categories", "type", "ordered">>
    [] OTHER -> <<>>
Required(ctor) == CASE ctor = "units" -> 1 [] ctor = "decimal" -> 1 [] ctor = "categorical" -> 1
                    [] ctor \in {"time", "datetime", "timedelta"} -> 0
                    [] OTHER -> Len(Params(ctor))
KwKnown == [p \in {Cp(n) : n \in {"tp", "names", "dshapes", "args", "ret", "ds", "key", "value", "tz", "unit",
                                  "precision", "scale", "categories", "type", "ordered"}} |-> Str(p)]
Missing == <<"missing">>
\* the argument for parameter k of ctor, kwargs is a sequence of <<name, arg>> (last wins)
ArgFor(ctor, args, kwargs, k) ==
  IF k <= Len(args) THEN args[k]
  ELSE LET hits == {j \in 1..Len(kwargs) : kwargs[j][1] \in DOMAIN KwKnown /\ KwKnown[kwargs[j][1]] = Params(ctor)[k]}
       IN IF hits = {} THEN Missing ELSE kwargs[CHOOSE j \in hits : \A m \in hits : m <= j][2]
BadCall(ctor, args, kwargs) ==
  \/ Len(args) > Len(Params(ctor))
  \/ \E j \in 1..Len(kwargs) :
        ~ (kwargs[j][1] \in DOMAIN KwKnown
           /\ \E k \in (Len(args)+1)..Len(Params(ctor)) : Params(ctor)[k] = KwKnown[kwargs[j][1]])
  \/ \E k \in 1..Required(ctor) : ArgFor(ctor, args, kwargs, k) = Missing

OkT(T) == <<"ok", T>>
\* discovery of a flat tuple of categories: the common kind, or a tuple type
CatItem(x) == CASE x[1] = "int" -> CT("int64") [] x[1] = "bool" -> CT("bool") [] x[1] = "str" -> Classify(x[2])
CatType(cats) ==
  LET ts == SeqMap(CatItem, cats)
  IN IF cats = <<>> THEN StringT
     ELSE IF \E i \in 1..Len(ts) : ts[i] = AnyT THEN AnyT
     ELSE IF \A i \in 1..Len(ts) : ts[i] = ts[1] THEN ts[1]
     ELSE <<"tup", ts>>
CatsOf(a) == IF a[2] = "empty" THEN <<>> ELSE [i \in 1..Len(a[3]) |-> <<a[2], a[3][i]>>]

Apply(ctor, args, kwargs) ==
  LET A(k) == ArgFor(ctor, args, kwargs, k) IN
  IF ctor = "string" THEN
       IF kwargs # <<>> THEN ExcR
       ELSE IF Len(args) = 0 THEN OkT(StringT)
       ELSE IF Len(args) = 1 THEN
            (CASE args[1][1] = "int" -> IF NSgn(args[1][2]) < 0 THEN ExcR ELSE OkT(<<"str", <<args[1][2]>>, "U8">>)
               [] args[1][1] = "str" -> IF args[1][2] = <<>> THEN AnyR
                                        ELSE IF args[1][2] \in DOMAIN EncOfText THEN OkT(<<"str", <<>>, EncOfText[args[1][2]]>>)
                                        ELSE ExcR
               [] args[1][1] = "bool" -> AnyR
               [] OTHER -> ExcR)
       ELSE IF Len(args) = 2 THEN
            (IF args[1][1] \in {"str", "ds", "list"} THEN ExcR
             ELSE IF args[1][1] = "bool" \/ args[2][1] \in {"bool", "list"} \/ args[2] = <<"str", <<>>>> \/ args[2] = <<"int", NZero>> THEN AnyR
             ELSE IF args[2][1] = "str" /\ args[2][2] \in DOMAIN EncOfText /\ NSgn(args[1][2]) >= 0
                  THEN OkT(<<"str", <<args[1][2]>>, EncOfText[args[2][2]]>>)
             ELSE ExcR)
       ELSE ExcR
  ELSE IF ctor \notin DtypeConstrNames \/ ctor = "typevar" THEN AnyR
  ELSE IF BadCall(ctor, args, kwargs) THEN ExcR
  ELSE
  CASE ctor = "complex" ->
         IF A(1) = <<"ds", CT("float32")>> THEN OkT(CT("complex[float32]"))
         ELSE IF A(1) = <<"ds", CT("float64")>> THEN OkT(CT("complex[float64]")) ELSE ExcR
    [] ctor = "struct" ->
         IF ~(A(1)[1] = "list" /\ A(2)[1] = "list" /\ A(1)[2] \in {"str", "empty"} /\ A(2)[2] \in {"ds", "empty"}) THEN AnyR
         ELSE IF Len(A(1)[3]) # Len(A(2)[3]) THEN ExcR
         ELSE IF ~Distinct(A(1)[3]) THEN ExcR
         ELSE OkT(<<"rec", [i \in 1..Len(A(1)[3]) |-> <<A(1)[3][i], A(2)[3][i]>>]>>)
    [] ctor = "tuple" ->
         IF A(1)[1] = "list" /\ A(1)[2] \in {"ds", "empty"} THEN OkT(<<"tup", A(1)[3]>>) ELSE AnyR
    [] ctor = "funcproto" ->
         IF A(1)[1] = "list" /\ A(1)[2] \in {"ds", "empty"} /\ A(2)[1] = "ds" THEN OkT(<<"fun", A(1)[3], A(2)[2]>>) ELSE AnyR
    [] ctor = "option" ->
         CASE A(1)[1] = "ds" -> OkT(OptOf(A(1)[2])) [] A(1)[1] = "str" -> AnyR [] OTHER -> ExcR
    [] ctor = "map" ->
         IF A(1)[1] = "ds" /\ A(2)[1] = "ds" THEN OkT(<<"map", A(1)[2], A(2)[2]>>)
         ELSE IF A(1)[1] = "str" \/ A(2)[1] = "str" THEN AnyR ELSE ExcR
    [] ctor \in {"time", "datetime"} ->
         IF A(1) = Missing THEN OkT(<<ctor, <<>>>>) ELSE IF A(1)[1] = "str" THEN OkT(<<ctor, <<A(1)[2]>>>>) ELSE ExcR
    [] ctor = "timedelta" ->
         IF A(1) = Missing THEN OkT(<<"td", "us">>)
         ELSE IF A(1)[1] = "str" THEN (IF NormUnit(A(1)[2]) = <<>> THEN ExcR ELSE OkT(<<"td", NormUnit(A(1)[2])[1]>>))
         ELSE IF A(1)[1] = "ds" THEN AnyR ELSE ExcR
    [] ctor = "units" ->
         IF A(1)[1] # "str" \/ (A(2) # Missing /\ A(2)[1] # "ds") THEN ExcR
         ELSE OkT(<<"units", A(1)[2], IF A(2) = Missing THEN CT("float64") ELSE A(2)[2]>>)
    [] ctor = "decimal" ->
         IF A(1)[1] \in {"str", "ds", "list"} \/ A(2)[1] \in {"str", "ds", "list"} THEN ExcR
         ELSE IF A(1)[1] = "bool" \/ A(2)[1] = "bool" THEN AnyR
         ELSE OkT(<<"dec", A(1)[2], IF A(2) = Missing THEN NZero ELSE A(2)[2]>>)
    [] ctor = "categorical" ->
         IF A(1)[1] # "list" THEN AnyR
         ELSE IF A(1)[2] = "ds" \/ (A(2) # Missing /\ A(2)[1] # "ds") \/ (A(3) # Missing /\ A(3)[1] # "bool") THEN AnyR
         ELSE LET cats == CatsOf(A(1))
                  ty == IF A(2) # Missing THEN MeasureOf(A(2)[2]) ELSE CatType(cats)
              IN IF ty = AnyT \/ (ty[1] = "tup" /\ AnyT \in RangeOf(ty[2])) THEN AnyR
                 ELSE OkT(<<"cat", cats, ty, IF A(3) = Missing THEN FALSE ELSE A(3)[2]>>)
    [] OTHER -> AnyR

\* ----------------------------------------------------------------------------
\* The parser, one operator per production
RECURSIVE PDatashape(_,_), PDsNoOpt(_,_), PDim(_,_), PDtype(_,_), PArgs(_,_,_), PKw(_,_), PArg(_,_),
          PStruct(_,_), PField(_,_), PFunc(_,_), PList(_,_,_,_,_), PSome(_,_,_,_,_,_)

\* <item> SEP <item> ...: what is one of "ds", "int", "str", "bool", "kw", "field"
PItem(c, i, what) ==
  CASE what = "ds" -> PDatashape(c, i)
    [] what = "kw" -> PKw(c, i)
    [] what = "field" -> PField(c, i)
    [] what = "int" -> IF Id(c, i) = "INT" THEN At(c, i+1, Ok(Val(c, i), i+1)) ELSE NoneR
    [] what = "str" -> IF Id(c, i) = "STR" THEN At(c, i+1, Ok(Val(c, i), i+1)) ELSE NoneR
    [] what = "bool" -> IF Id(c, i) = "BOOL" THEN At(c, i+1, Ok(Val(c, i), i+1)) ELSE NoneR
PList(c, i, what, trailing, acc) ==     \* in blocks, like LexFrom
  LET r == PSome(c, i, what, trailing, acc, 40) IN IF r[1] = "more" THEN PList(c, r[3], what, trailing, r[2]) ELSE r
PSome(c, i, what, trailing, acc, n) ==
  LET r == PItem(c, i, what) IN
  IF n = 0 THEN <<"more", acc, i>>
  ELSE IF r[1] = "ok" THEN
       LET items == Append(acc, r[2]) IN
       IF Id(c, r[3]) = "," THEN At(c, r[3]+1, PSome(c, r[3]+1, what, trailing, items, n-1)) ELSE Ok(items, r[3])
  ELSE IF r[1] = "none" THEN
       IF acc = <<>> THEN NoneR ELSE IF trailing THEN Ok(acc, i) ELSE Syn(Pos(c, i))
  ELSE r

PDatashape(c, i) ==
  IF Id(c, i) = "ERR" THEN Syn(Pos(c, i))
  ELSE IF Id(c, i) = "?" THEN
       LET r == At(c, i+1, PDsNoOpt(c, i+1)) IN
       IF r[1] # "ok" THEN r
       ELSE IF Cp("option") \notin DOMAIN c.sym.dtypec THEN Syn(Pos(c, i))
       ELSE LET a == Apply(c.sym.dtypec[Cp("option")], <<<<"ds", r[2]>>>>, <<>>)
            IN IF a[1] = "ok" THEN Ok(a[2], r[3]) ELSE a
  ELSE PDsNoOpt(c, i)

PDsNoOpt(c, i) ==
  LET d == PDim(c, i) IN
  IF d[1] = "ok" /\ Id(c, d[3]) = "*" THEN
       LET r == At(c, d[3]+1, PDatashape(c, d[3]+1)) IN
       IF r[1] = "ok" THEN Ok(MkDs(<<d[2]>>, r[2]), r[3])
       ELSE IF r[1] = "none" THEN Syn(Pos(c, d[3]+1)) ELSE r
  ELSE IF d[1] \in {"ok", "none"} THEN PDtype(c, i)
  ELSE d

PDim(c, i) ==
  CASE Id(c, i) = "UP" ->
         At(c, i+1,
            IF Id(c, i+1) = "..." THEN
                 At(c, i+2, IF Cp("ellipsis") \in DOMAIN c.sym.dimc THEN Ok(<<"ell", <<Val(c, i)>>>>, i+2) ELSE Syn(Pos(c, i)))
            ELSE IF Id(c, i+1) = "*" THEN
                 IF Cp("typevar") \in DOMAIN c.sym.dimc THEN Ok(<<"tv", Val(c, i)>>, i+1) ELSE Syn(Pos(c, i))
            ELSE NoneR)
    [] Id(c, i) = "LOW" ->
         At(c, i+1,
            IF Id(c, i+1) = "[" THEN
                 IF Val(c, i) \notin DOMAIN c.sym.dimc THEN NoneR
                 ELSE LET r == At(c, i+2, PArgs(c, i+2, <<>>)) IN
                      IF r[1] # "ok" THEN r
                      ELSE IF Id(c, r[3]) = "]" THEN At(c, r[3]+1, ExcR) ELSE Syn(Pos(c, r[3]))
            ELSE IF Val(c, i) \in DOMAIN c.sym.dim THEN Ok(c.sym.dim[Val(c, i)], i+1) ELSE NoneR)
    [] Id(c, i) = "INT" ->
         At(c, i+1,
            IF Id(c, i+1) # "*" THEN NoneR
            ELSE IF Cp("fixed") \notin DOMAIN c.sym.dimc THEN Syn(Pos(c, i+1))
            ELSE IF NSgn(Val(c, i)) < 0 THEN ExcR ELSE Ok(Fix(Val(c, i)), i+1))
    [] Id(c, i) = "..." ->
         At(c, i+1, IF Cp("ellipsis") \in DOMAIN c.sym.dim THEN Ok(c.sym.dim[Cp("ellipsis")], i+1) ELSE Syn(Pos(c, i)))
    [] OTHER -> NoneR

PDtype(c, i) ==
  CASE Id(c, i) = "UP" ->
         At(c, i+1, IF Cp("typevar") \in DOMAIN c.sym.dtypec THEN Ok(<<"tv", Val(c, i)>>, i+1) ELSE Syn(Pos(c, i)))
    [] Id(c, i) = "LOW" ->
         At(c, i+1,
            IF Id(c, i+1) = "[" THEN
                 IF Val(c, i) \notin DOMAIN c.sym.dtypec THEN NoneR
                 ELSE LET r == At(c, i+2, PArgs(c, i+2, <<>>)) IN
                      IF r[1] # "ok" THEN r
                      ELSE IF Id(c, r[3]) # "]" THEN Syn(Pos(c, r[3]))
                      ELSE IF r[2][1] = <<>> /\ r[2][2] = <<>> THEN Syn(Pos(c, r[3]))
                      ELSE At(c, r[3]+1, LET a == Apply(c.sym.dtypec[Val(c, i)], r[2][1], r[2][2])
                                         IN IF a[1] = "ok" THEN Ok(a[2], r[3]+1) ELSE a)
            ELSE IF Val(c, i) \in DOMAIN c.sym.dtype THEN Ok(c.sym.dtype[Val(c, i)], i+1) ELSE NoneR)
    [] Id(c, i) = "{" -> PStruct(c, i)
    [] Id(c, i) = "(" -> PFunc(c, i)
    [] OTHER -> NoneR

\* value: <<args, kwargs>>
PArgs(c, i, acc) ==
  LET r == PArg(c, i) IN
  IF r[1] = "ok" THEN
       IF Id(c, r[3]) = "," THEN At(c, r[3]+1, PArgs(c, r[3]+1, Append(acc, r[2])))
       ELSE Ok(<<Append(acc, r[2]), <<>>>>, r[3])
  ELSE IF r[1] = "none" THEN
       LET k == PList(c, i, "kw", FALSE, <<>>) IN
       IF k[1] = "ok" THEN Ok(<<acc, k[2]>>, k[3])
       ELSE IF k[1] = "none" THEN Ok(<<acc, <<>>>>, i) ELSE k
  ELSE r

PArg(c, i) ==
  LET r == PDatashape(c, i) IN
  IF r[1] = "ok" THEN Ok(<<"ds", r[2]>>, r[3])
  ELSE IF r[1] # "none" THEN r
  ELSE CASE Id(c, i) = "INT" -> At(c, i+1, Ok(<<"int", Val(c, i)>>, i+1))
         [] Id(c, i) = "STR" -> At(c, i+1, Ok(<<"str", Val(c, i)>>, i+1))
         [] Id(c, i) = "BOOL" -> At(c, i+1, Ok(<<"bool", Val(c, i)>>, i+1))
         [] Id(c, i) = "[" ->
              At(c, i+1,
                 LET l1 == PList(c, i+1, "ds", FALSE, <<>>)
                     l2 == IF l1[1] = "none" THEN PList(c, i+1, "int", FALSE, <<>>) ELSE l1
                     l3 == IF l2[1] = "none" THEN PList(c, i+1, "str", FALSE, <<>>) ELSE l2
                     l4 == IF l3[1] = "none" THEN PList(c, i+1, "bool", FALSE, <<>>) ELSE l3
                     kind == IF l1[1] # "none" THEN "ds" ELSE IF l2[1] # "none" THEN "int"
                             ELSE IF l3[1] # "none" THEN "str" ELSE IF l4[1] # "none" THEN "bool" ELSE "empty"
                     items == IF l4[1] = "ok" THEN l4[2] ELSE <<>>
                     k == IF l4[1] = "ok" THEN l4[3] ELSE i+1
                 IN IF l4[1] \notin {"ok", "none"} THEN l4
                    ELSE IF Id(c, k) = "]" THEN At(c, k+1, Ok(<<"list", kind, items>>, k+1))
                    ELSE Syn(Pos(c, k)))
         [] OTHER -> NoneR

PKw(c, i) ==
  IF Id(c, i) # "LOW" THEN NoneR
  ELSE At(c, i+1, IF Id(c, i+1) # "=" THEN NoneR
                  ELSE LET r == At(c, i+2, PArg(c, i+2)) IN
                       IF r[1] = "ok" THEN Ok(<<Val(c, i), r[2]>>, r[3])
                       ELSE IF r[1] = "none" THEN Syn(Pos(c, i+2)) ELSE r)

PStruct(c, i) ==
  LET r == At(c, i+1, PList(c, i+1, "field", TRUE, <<>>))
      k == IF r[1] = "ok" THEN r[3] ELSE i+1
      fields == IF r[1] = "ok" THEN r[2] ELSE <<>>
  IN IF r[1] \notin {"ok", "none"} THEN r
     ELSE IF Id(c, k) # "}" THEN Syn(Pos(c, k))
     ELSE At(c, k+1,
             IF Cp("struct") \notin DOMAIN c.sym.dtypec THEN Syn(Pos(c, i))
             ELSE IF ~NoDup(fields) THEN ExcR
             ELSE Ok(<<"rec", fields>>, k+1))

PField(c, i) ==
  IF Id(c, i) \notin {"LOW", "UP", "OTHER", "STR"} THEN NoneR
  ELSE At(c, i+1, IF Id(c, i+1) # ":" THEN Syn(Pos(c, i+1))
                  ELSE LET r == At(c, i+2, PDatashape(c, i+2)) IN
                       IF r[1] = "ok" THEN Ok(<<Val(c, i), r[2]>>, r[3])
                       ELSE IF r[1] = "none" THEN Syn(Pos(c, i+2)) ELSE r)

PFunc(c, i) ==
  LET r == At(c, i+1, PList(c, i+1, "ds", TRUE, <<>>))
      k == IF r[1] = "ok" THEN r[3] ELSE i+1
      items == IF r[1] = "ok" THEN r[2] ELSE <<>>
  IN IF r[1] \notin {"ok", "none"} THEN r
     ELSE IF Id(c, k) # ")" THEN Syn(Pos(c, k))
     ELSE At(c, k+1,
             IF Id(c, k+1) # "->" THEN
                  IF Cp("tuple") \notin DOMAIN c.sym.dtypec THEN Syn(Pos(c, i)) ELSE Ok(<<"tup", items>>, k+1)
             ELSE LET q == At(c, k+2, PDatashape(c, k+2)) IN
                  IF q[1] = "none" THEN Syn(Pos(c, k+2))
                  ELSE IF q[1] # "ok" THEN q
                  ELSE IF Cp("funcproto") \notin DOMAIN c.sym.dtypec THEN Syn(Pos(c, i))
                  ELSE Ok(<<"fun", items, q[2]>>, q[3]))

\* a whole text: <<"ok", T>>, <<"syn", pos>>, <<"exc">> or <<"any">>
ParseToks(toks, sym) ==
  LET c == [toks |-> toks, sym |-> sym]
      r == PDatashape(c, 1)
  IN IF r[1] = "none" THEN Syn(Pos(c, 1))
     ELSE IF r[1] # "ok" THEN r
     ELSE IF Id(c, r[3]) = "ERR" \/ Id(c, r[3]) # "EOF" THEN Syn(Pos(c, r[3]))
     ELSE OkT(r[2])
ParseSym(text, sym) == ParseToks(Lex(text), sym)
\* dshape() also refuses several wildcards
DShapeSym(text, sym) == LET r == ParseSym(text, sym)
                        IN IF r[1] = "ok" /\ ManyWildcards(r[2]) THEN ExcR ELSE r
DShape(text) == DShapeSym(text, DefaultSym)
=============================================================================
