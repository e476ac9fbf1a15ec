-------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* Datashapes as terms.  A term is a tuple whose first element is its kind:*)
(*   <<"ct", name>>            machine type (name: TLA+ string)            *)
(*   <<"null">> <<"date">> <<"bytes">> <<"json">>                          *)
(*   <<"time", tz>> <<"datetime", tz>>      tz: <<>> or <<text>>           *)
(*   <<"td", unit>>            time delta, canonical unit (string)         *)
(*   <<"units", text, T>>                                                  *)
(*   <<"str", fix, enc>>       fix: <<>> or <<number>>                     *)
(*   <<"dec", precision, scale>>                                           *)
(*   <<"tv", text>>            type variable                               *)
(*   <<"opt", T>>  <<"map", K, V>>                                         *)
(*   <<"rec", fields>>         fields: <<<<text, T>>, ..>>                 *)
(*   <<"tup", Ts>>  <<"fun", Ts, T>>                                       *)
(*   <<"cat", cats, T, ordered>>  cats: <<"int",n>> <<"str",t>> <<"bool",b>>*)
(*   <<"ds", dims, T>>         dims not empty, T not a "ds"                *)
(* and dimensions are                                                      *)
(*   <<"fix", number>>  <<"var">>  <<"tv", text>>  <<"ell", <<>> or <<text>>>> *)
(* A datashape without dimensions is its measure, so equal datashapes are  *)
(* identical terms.                                                        *)
(***************************************************************************)
EXTENDS Nums, Text

CT(n) == <<"ct", n>>
OptOf(T) == <<"opt", T>>
Fix(n) == <<"fix", n>>
VarDim == <<"var">>
StringT == <<"str", <<>>, "U8">>
NullT == <<"null">>
DateT == <<"date">>
DateTimeT == <<"datetime", <<>>>>
TimeT == <<"time", <<>>>>
IsDs(T) == T[1] = "ds"
DimsOf(T) == IF T[1] = "ds" THEN T[2] ELSE <<>>
MeasureOf(T) == IF T[1] = "ds" THEN T[3] ELSE T
MkDs(dims, T) == IF dims = <<>> THEN T
                 ELSE IF T[1] = "ds" THEN <<"ds", dims \o T[2], T[3]>>
                 ELSE <<"ds", dims, T>>
IsDim(x) == x[1] \in {"fix", "var", "ell"}           \* surely a dimension
DimLike(x) == x[1] \in {"fix", "var", "ell", "tv"}   \* may stand for one

\* ------------------------------------------------------------- machine types
IntNames  == {"int8", "int16", "int32", "int64"}
UIntNames == {"uint8", "uint16", "uint32", "uint64"}
FloatNames == {"float16", "float32", "float64"}
ComplexNames == {"complex[float32]", "complex[float64]"}
CTypeNames == IntNames \cup UIntNames \cup FloatNames \cup ComplexNames \cup {"bool", "void", "object", "char"}
\* bytes in memory (64 bit platform); alignment is the size except for complex
CSize(n) == CASE n \in {"int8", "uint8", "bool", "char"} -> 1
              [] n \in {"int16", "uint16", "float16"} -> 2
              [] n \in {"int32", "uint32", "float32"} -> 4
              [] n \in {"int64", "uint64", "float64", "complex[float32]", "object"} -> 8
              [] n = "complex[float64]" -> 16
              [] n = "void" -> 0
CAlign(n) == CASE n = "complex[float32]" -> 4 [] n = "complex[float64]" -> 8
               [] n = "void" -> 1 [] OTHER -> CSize(n)

\* ------------------------------------------------------- canonical spellings
StrEncodings == ("A" :> "A") @@ ("ascii" :> "A")
   @@ ("U8" :> "U8") @@ ("utf-8" :> "U8") @@ ("utf_8" :> "U8") @@ ("utf8" :> "U8")
   @@ ("U16" :> "U16") @@ ("utf-16" :> "U16") @@ ("utf_16" :> "U16") @@ ("utf16" :> "U16")
   @@ ("U32" :> "U32") @@ ("utf-32" :> "U32") @@ ("utf_32" :> "U32") @@ ("utf32" :> "U32")
EncOfText == [t \in {Cp(e) : e \in DOMAIN StrEncodings} |->
                StrEncodings[CHOOSE e \in DOMAIN StrEncodings : Cp(e) = t]]

TimeUnits == {"ns", "us", "ms", "s", "m", "h", "D", "W", "M", "Y"}
UnitAliases == ("year" :> "Y") @@ ("month" :> "M") @@ ("week" :> "W") @@ ("day" :> "D") @@ ("date" :> "D")
   @@ ("hour" :> "h") @@ ("minute" :> "m") @@ ("second" :> "s") @@ ("millisecond" :> "ms")
   @@ ("microsecond" :> "us") @@ ("nanosecond" :> "ns")
UnitWords == [t \in {Cp(u) : u \in TimeUnits} \cup {Cp(u) : u \in DOMAIN UnitAliases} |->
                IF \E u \in TimeUnits : Cp(u) = t THEN CHOOSE u \in TimeUnits : Cp(u) = t
                ELSE UnitAliases[CHOOSE u \in DOMAIN UnitAliases : Cp(u) = t]]
\* trailing letters s are dropped to find the singular
RECURSIVE DropS(_)
DropS(t) == IF t # <<>> /\ t[Len(t)] = 115 THEN DropS(SubSeq(t, 1, Len(t)-1)) ELSE t
RECURSIVE NormUnit(_)
NormUnit(t0) ==                 \* <<>> or <<unit>>
  LET t == Strip(t0)
  IN IF t \in DOMAIN UnitWords THEN <<UnitWords[t]>>
     ELSE IF Len(t) > 2 /\ t[Len(t)] = 115 THEN NormUnit(DropS(t))
     ELSE <<>>

\* -------------------------------------------------------------- symbol tables
\* A table has four parts, each a function from names (texts) to entries.
\* Entries of dtype and dim are terms, those of the constructors are names.
DtypeNames ==
   ("bool" :> CT("bool")) @@ ("bytes" :> <<"bytes">>) @@ ("char" :> CT("char"))
   @@ ("int8" :> CT("int8")) @@ ("int16" :> CT("int16")) @@ ("int32" :> CT("int32")) @@ ("int64" :> CT("int64"))
   @@ ("intptr" :> CT("int64")) @@ ("int" :> CT("int32"))
   @@ ("uint8" :> CT("uint8")) @@ ("uint16" :> CT("uint16")) @@ ("uint32" :> CT("uint32"))
   @@ ("uint64" :> CT("uint64")) @@ ("uintptr" :> CT("uint64"))
   @@ ("float16" :> CT("float16")) @@ ("float32" :> CT("float32")) @@ ("float64" :> CT("float64"))
   @@ ("complex64" :> CT("complex[float32]")) @@ ("complex128" :> CT("complex[float64]"))
   @@ ("real" :> CT("float64")) @@ ("complex" :> CT("complex[float64]"))
   @@ ("string" :> StringT) @@ ("json" :> <<"json">>)
   @@ ("date" :> DateT) @@ ("time" :> TimeT) @@ ("datetime" :> DateTimeT) @@ ("timedelta" :> <<"td", "us">>)
   @@ ("null" :> NullT) @@ ("void" :> CT("void")) @@ ("object" :> CT("object"))
DtypeConstrNames == {"complex", "string", "struct", "tuple", "funcproto", "typevar", "option", "map", "time",
                     "datetime", "timedelta", "units", "decimal", "categorical"}
DimConstrNames == {"fixed", "typevar", "ellipsis"}
ByText(f) == [t \in {Cp(n) : n \in DOMAIN f} |-> f[CHOOSE n \in DOMAIN f : Cp(n) = t]]
EmptyTable == [t \in {} |-> 0]
DefaultSym ==
  [ dtype  |-> ByText(DtypeNames),
    dtypec |-> ByText([n \in DtypeConstrNames |-> n]),
    dim    |-> (Cp("var") :> VarDim) @@ (Cp("ellipsis") :> <<"ell", <<>>>>),
    dimc   |-> ByText([n \in DimConstrNames |-> n]) ]
BareSym == [dtype |-> EmptyTable, dtypec |-> EmptyTable, dim |-> EmptyTable, dimc |-> EmptyTable]

\* ------------------------------------------------------------ well-formedness
NoDup(fields) == Distinct([i \in 1..Len(fields) |-> fields[i][1]])
RECURSIVE WellFormed(_)
WellFormed(T) ==
  CASE T[1] = "ds"  -> /\ T[2] # <<>> /\ T[3][1] # "ds" /\ ~IsDim(T[3]) /\ WellFormed(T[3])
                       /\ \A i \in 1..Len(T[2]) : DimLike(T[2][i]) /\ (T[2][i][1] = "fix" => NSgn(T[2][i][2]) >= 0)
    [] T[1] = "rec" -> NoDup(T[2]) /\ \A i \in 1..Len(T[2]) : WellFormed(T[2][i][2])
    [] T[1] = "tup" -> \A i \in 1..Len(T[2]) : WellFormed(T[2][i])
    [] T[1] = "fun" -> WellFormed(T[3]) /\ \A i \in 1..Len(T[2]) : WellFormed(T[2][i])
    [] T[1] = "opt" -> WellFormed(T[2])
    [] T[1] = "map" -> WellFormed(T[2]) /\ WellFormed(T[3])
    [] T[1] = "units" -> WellFormed(T[3])
    [] T[1] = "cat" -> WellFormed(T[3])
    [] T[1] = "ct"  -> T[2] \in CTypeNames
    [] T[1] = "td"  -> T[2] \in TimeUnits
    [] T[1] = "str" -> T[3] \in {"A", "U8", "U16", "U32"}
    [] T[1] \in {"null", "date", "bytes", "json", "time", "datetime", "dec", "tv"} -> TRUE
    [] OTHER -> FALSE

\* the immediate component datashapes of a term
Kids(T) == CASE T[1] = "ds"  -> <<T[3]>>
             [] T[1] = "rec" -> [i \in 1..Len(T[2]) |-> T[2][i][2]]
             [] T[1] = "tup" -> T[2]
             [] T[1] = "fun" -> Append(T[2], T[3])
             [] T[1] = "opt" -> <<T[2]>>
             [] T[1] = "map" -> <<T[2], T[3]>>
             [] T[1] = "units" -> <<T[3]>>
             [] T[1] = "cat" -> <<T[3]>>
             [] OTHER -> <<>>
\* several wildcards in one datashape, at any depth
RECURSIVE ManyWildcards(_)
ManyWildcards(T) ==
  \/ T[1] = "ds" /\ \E i, j \in 1..Len(T[2]) : i < j /\ T[2][i][1] = "ell" /\ T[2][j][1] = "ell"
  \/ LET k == Kids(T) IN \E i \in 1..Len(k) : ManyWildcards(k[i])
\* term equality as Python sees it: True and 1 are the same category
CatKey(c) == IF c[1] = "bool" THEN <<"int", IF c[2] THEN NOne ELSE NZero>> ELSE c
RECURSIVE EqForm(_)
EqForm(T) ==
  CASE T[1] = "ds"  -> <<"ds", T[2], EqForm(T[3])>>
    [] T[1] = "rec" -> <<"rec", [i \in 1..Len(T[2]) |-> <<T[2][i][1], EqForm(T[2][i][2])>>]>>
    [] T[1] = "tup" -> <<"tup", SeqMap(EqForm, T[2])>>
    [] T[1] = "fun" -> <<"fun", SeqMap(EqForm, T[2]), EqForm(T[3])>>
    [] T[1] = "opt" -> <<"opt", EqForm(T[2])>>
    [] T[1] = "map" -> <<"map", EqForm(T[2]), EqForm(T[3])>>
    [] T[1] = "units" -> <<"units", T[2], EqForm(T[3])>>
    [] T[1] = "cat" -> <<"cat", SeqMap(CatKey, T[2]), EqForm(T[3]), T[4]>>
    [] OTHER -> T
=============================================================================
