-------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Tokens of the datashape language.  A token is <<id, start, end, val>>   *)
(* with 0-based positions in the text; the last one is EOF, at the end of  *)
(* the last real token, or ERR where no token matches.                     *)
(***************************************************************************)
EXTENDS Nums, Text

RECURSIVE SkipComment(_,_)
SkipComment(s, i) == IF i > Len(s) \/ s[i] = 10 THEN i ELSE SkipComment(s, i+1)
RECURSIVE SkipWs(_,_)
SkipWs(s, i) == IF i > Len(s) THEN i
                ELSE IF IsSpace(s[i]) THEN SkipWs(s, i+1)
                ELSE IF s[i] = 35 THEN SkipWs(s, SkipComment(s, i+1))
                ELSE i
RECURSIVE NameEnd(_,_)
NameEnd(s, i) == IF i <= Len(s) /\ IsNameChar(s[i]) THEN NameEnd(s, i+1) ELSE i
RECURSIVE DigitsEnd(_,_)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i+1) ELSE i

EscVal == (98 :> 8) @@ (102 :> 12) @@ (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (34 :> 34) @@ (39 :> 39)
\* body of a string from i, quote q: <<closed, index after the quote, value>>
RECURSIVE StrBody(_,_,_,_)
StrBody(s, i, q, acc) ==
  IF i > Len(s) THEN <<FALSE, i, acc>>
  ELSE IF s[i] = q THEN <<TRUE, i+1, acc>>
  ELSE IF s[i] \in {10, 13} THEN <<FALSE, i, acc>>
  ELSE IF s[i] # 92 THEN StrBody(s, i+1, q, Append(acc, s[i]))
  ELSE IF i+1 <= Len(s) /\ s[i+1] \in {98, 102, 110, 114, 116, q}
       THEN StrBody(s, i+2, q, Append(acc, EscVal[s[i+1]]))
  ELSE IF i+5 <= Len(s) /\ s[i+1] = 117 /\ \A k \in 2..5 : IsHex(s[i+k])
       THEN StrBody(s, i+6, q, Append(acc, HexVal(s[i+2])*4096 + HexVal(s[i+3])*256
                                           + HexVal(s[i+4])*16 + HexVal(s[i+5])))
  ELSE <<FALSE, i, acc>>

Punct == (42 :> "*") @@ (44 :> ",") @@ (61 :> "=") @@ (58 :> ":") @@ (91 :> "[") @@ (93 :> "]")
         @@ (123 :> "{") @@ (125 :> "}") @@ (40 :> "(") @@ (41 :> ")") @@ (63 :> "?")
TxtTrue == Cp("True")
TxtFalse == Cp("False")

Mk(id, i, j, v) == <<id, i-1, j-1, v>>
\* the token starting at index i (1-based) of s
TokenAt(s, i) ==
  LET c == s[i]
      nxt(k) == IF i+k <= Len(s) THEN s[i+k] ELSE 0
      e == NameEnd(s, i)
      name == SubSeq(s, i, e-1)
  IN IF IsLower(c) THEN Mk("LOW", i, e, name)
     ELSE IF IsUpper(c) THEN IF name = TxtTrue THEN Mk("BOOL", i, e, TRUE)
                             ELSE IF name = TxtFalse THEN Mk("BOOL", i, e, FALSE)
                             ELSE Mk("UP", i, e, name)
     ELSE IF c = 95 THEN Mk("OTHER", i, e, name)
     ELSE IF c \in DOMAIN Punct THEN Mk(Punct[c], i, i+1, 0)
     ELSE IF c = 46 /\ nxt(1) = 46 /\ nxt(2) = 46 THEN Mk("...", i, i+3, 0)
     ELSE IF c = 45 /\ nxt(1) = 62 THEN Mk("->", i, i+2, 0)
     ELSE IF c = 48 /\ ~IsDigit(nxt(1)) THEN Mk("INT", i, i+1, NZero)
     ELSE IF c \in 49..57 THEN LET d == DigitsEnd(s, i)
                               IN Mk("INT", i, d, NFromDigits(1, SubSeq(s, i, d-1)))
     ELSE IF c = 45 /\ nxt(1) \in 49..57
          THEN LET d == DigitsEnd(s, i+1) IN Mk("INT", i, d, NFromDigits(-1, SubSeq(s, i+1, d-1)))
     ELSE IF c \in {34, 39} THEN LET b == StrBody(s, i+1, c, <<>>)
                                 IN IF b[1] THEN Mk("STR", i, b[2], b[3]) ELSE Mk("ERR", i, i, 0)
     ELSE Mk("ERR", i, i, 0)

\* (in blocks of tokens, as what TLC takes for a step of a recursion grows with its depth)
RECURSIVE LexSome(_,_,_,_), LexFrom(_,_,_)
LexSome(s, i, acc, n) ==
  LET j == SkipWs(s, i) IN
  IF n = 0 THEN <<"more", i, acc>>
  ELSE IF j > Len(s) THEN LET e == IF acc = <<>> THEN 0 ELSE acc[Len(acc)][3] IN <<"done", i, Append(acc, <<"EOF", e, e, 0>>)>>
  ELSE LET t == TokenAt(s, j)
       IN IF t[1] = "ERR" THEN <<"done", i, Append(acc, t)>> ELSE LexSome(s, t[3]+1, Append(acc, t), n-1)
LexFrom(s, i, acc) == LET r == LexSome(s, i, acc, 40) IN IF r[1] = "done" THEN r[3] ELSE LexFrom(s, r[2], r[3])
Lex(s) == LexFrom(s, 1, <<>>)
=============================================================================
