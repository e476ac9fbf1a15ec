------------------------------- MODULE Printer -------------------------------
(***************************************************************************)
(* The canonical text of a datashape, and which datashapes have one.       *)
(* Canon(Unparse(T)) = T is the round trip lemma checked by MC_Roundtrip.  *)
(***************************************************************************)
EXTENDS Grammar

\* --------------------------------------------------------------- quoted texts
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
Hex4(c) == <<92, 117, HexDigit(c \div 4096), HexDigit((c \div 256) % 16), HexDigit((c \div 16) % 16), HexDigit(c % 16)>>
QuoteChar(c) == IF c \in {39, 92} \/ c < 32 \/ c \in 127..160 \/ c \in {8232, 8233} \/ c \in 55296..57343
                THEN Hex4(c) ELSE <<c>>
Quote(t) == <<39>> \o ConcatAll(SeqMap(QuoteChar, t)) \o <<39>>
IsIdent(t) == /\ t # <<>> /\ t \notin {TxtTrue, TxtFalse}
              /\ IsAsciiAlpha(t[1]) \/ t[1] = 95
              /\ \A i \in 1..Len(t) : IsNameChar(t[i])
NameText(t) == IF IsIdent(t) THEN t ELSE Quote(t)

RECURSIVE JoinWith(_,_)
JoinWith(sep, ts) == IF ts = <<>> THEN <<>>
                     ELSE IF Len(ts) = 1 THEN ts[1]
                     ELSE ts[1] \o sep \o JoinWith(sep, Tail(ts))
Comma == Cp(", ")
Star == Cp(" * ")

DimText(d) == CASE d[1] = "fix" -> NText(d[2])
                [] d[1] = "var" -> Cp("var")
                [] d[1] = "tv"  -> d[2]
                [] d[1] = "ell" -> (IF d[2] = <<>> THEN <<>> ELSE d[2][1]) \o Cp("...")
CatText(c) == CASE c[1] = "int" -> NText(c[2])
                [] c[1] = "str" -> Quote(c[2])
                [] c[1] = "bool" -> IF c[2] THEN TxtTrue ELSE TxtFalse
TzText(name, tz) == IF tz = <<>> THEN Cp(name) ELSE Cp(name) \o Cp("[tz=") \o Quote(tz[1]) \o Cp("]")

RECURSIVE Unparse(_)
Unparse(T) ==
  CASE T[1] = "ds"  -> JoinWith(Star, SeqMap(DimText, T[2])) \o Star \o Unparse(T[3])
    [] T[1] = "ct"  -> Cp(T[2])
    [] T[1] \in {"null", "date", "bytes", "json"} -> Cp(T[1])
    [] T[1] \in {"time", "datetime"} -> TzText(T[1], T[2])
    [] T[1] = "td"  -> Cp("timedelta[unit=") \o Quote(Cp(T[2])) \o Cp("]")
    [] T[1] = "units" -> Cp("units[") \o Quote(T[2]) \o (IF T[3] = CT("float64") THEN <<>> ELSE Comma \o Unparse(T[3])) \o Cp("]")
    [] T[1] = "str" -> IF T[2] = <<>> /\ T[3] = "U8" THEN Cp("string")
                       ELSE Cp("string[") \o (IF T[2] = <<>> THEN <<>> ELSE NText(T[2][1]))
                            \o (IF T[2] = <<>> \/ T[3] = "U8" THEN <<>> ELSE Comma)
                            \o (IF T[3] = "U8" THEN <<>> ELSE Quote(Cp(T[3]))) \o Cp("]")
    [] T[1] = "dec" -> Cp("decimal[precision=") \o NText(T[2]) \o Cp(", scale=") \o NText(T[3]) \o Cp("]")
    [] T[1] = "tv"  -> T[2]
    [] T[1] = "opt" -> IF T[2][1] = "opt" THEN Cp("option[") \o Unparse(T[2]) \o Cp("]") ELSE Cp("?") \o Unparse(T[2])
    [] T[1] = "map" -> Cp("map[") \o Unparse(T[2]) \o Comma \o Unparse(T[3]) \o Cp("]")
    [] T[1] = "rec" -> Cp("{") \o JoinWith(Comma, [i \in 1..Len(T[2]) |-> NameText(T[2][i][1]) \o Cp(": ") \o Unparse(T[2][i][2])]) \o Cp("}")
    [] T[1] = "tup" -> Cp("(") \o JoinWith(Comma, SeqMap(Unparse, T[2])) \o Cp(")")
    [] T[1] = "fun" -> Cp("(") \o JoinWith(Comma, SeqMap(Unparse, T[2])) \o Cp(") -> ") \o Unparse(T[3])
    [] T[1] = "cat" -> Cp("categorical[[") \o JoinWith(Comma, SeqMap(CatText, T[2])) \o Cp("], type=") \o Unparse(T[3])
                       \o Cp(", ordered=") \o (IF T[4] THEN TxtTrue ELSE TxtFalse) \o Cp("]")

\* ---------------------------------------- what the language can express at all
IsUpName(t) == IsIdent(t) /\ IsUpper(t[1])
CatsExpressible(cs) == /\ Len(cs) <= 10
                       /\ \A i \in 1..Len(cs) : cs[i][1] = cs[1][1]
\* the grammar writes numbers in decimal, all of them
RECURSIVE Expressible(_)
Expressible(T) ==
  /\ ~ManyWildcards(T)
  /\ CASE T[1] = "ds"  -> /\ \A i \in 1..Len(T[2]) : /\ T[2][i][1] = "tv" => IsUpName(T[2][i][2])
                                                     /\ T[2][i][1] = "ell" => T[2][i][2] = <<>> \/ IsUpName(T[2][i][2][1])
                          /\ Expressible(T[3])
       [] T[1] = "tv"  -> IsUpName(T[2])
       [] T[1] = "cat" -> CatsExpressible(T[2]) /\ Expressible(T[3])
       [] OTHER -> LET k == Kids(T) IN \A i \in 1..Len(k) : Expressible(k[i])
\* texts with the same tokens are the same text in another layout
SameTokens(a, b) == LET x == Lex(a)
                        y == Lex(b)
                    IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i][1] = y[i][1] /\ x[i][4] = y[i][4]
=============================================================================
