------------------------------ MODULE Classify ------------------------------
(***************************************************************************)
(* What kind of value a text is, as discovery decides it: the first of     *)
(* integer, real, boolean word, number with a time unit, time of day, date *)
(* or date and time, plain string.  <<"any">> marks the texts which this   *)
(* specification leaves to the free-form date parser.                      *)
(***************************************************************************)
EXTENDS Types

AnyT == <<"any">>

\* digits with single underscores between them, from i; index after, or 0
RECURSIVE DigitPart(_,_)
DigitPart(s, i) ==
  IF i > Len(s) \/ ~IsDigit(s[i]) THEN 0
  ELSE IF i+1 <= Len(s) /\ IsDigit(s[i+1]) THEN DigitPart(s, i+1)
  ELSE IF i+2 <= Len(s) /\ s[i+1] = 95 /\ IsDigit(s[i+2]) THEN DigitPart(s, i+2)
  ELSE i+1
SignEnd(s, i) == IF i <= Len(s) /\ s[i] \in {43, 45} THEN i+1 ELSE i
\* stripped text
IsIntText(t) == t # <<>> /\ DigitPart(t, SignEnd(t, 1)) = Len(t) + 1

LowerC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Lower(t) == SeqMap(LowerC, t)
FloatWords == {Cp("inf"), Cp("infinity"), Cp("nan")}
\* index after the mantissa starting at i, or 0
Mantissa(s, i) ==
  LET a == DigitPart(s, i)
  IN IF a = 0 THEN (IF i <= Len(s) /\ s[i] = 46 THEN DigitPart(s, i+1) ELSE 0)
     ELSE IF a <= Len(s) /\ s[a] = 46
          THEN LET b == DigitPart(s, a+1) IN IF b # 0 THEN b ELSE a+1
          ELSE a
ExpEnd(s, i) == IF i <= Len(s) /\ s[i] \in {69, 101} THEN DigitPart(s, SignEnd(s, i+1)) ELSE i
FloatEnd(s) == LET m == Mantissa(s, SignEnd(s, 1)) IN IF m = 0 THEN 0 ELSE ExpEnd(s, m)
IsFloatWord(t) == t # <<>> /\ Lower(SubSeq(t, SignEnd(t, 1), Len(t))) \in FloatWords
IsFloatText(t) == t # <<>> /\ (FloatEnd(t) = Len(t) + 1 \/ IsFloatWord(t))

BoolWords == {Cp("True"), Cp("true"), Cp("False"), Cp("false")}

\* split at runs of whitespace
RECURSIVE SplitWs(_,_,_)
SplitWs(s, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF IsSpace(s[i])
       THEN <<cur>> \o SplitWs(s, i + Len(SubSeq(s, i, Len(s))) - Len(LStrip(SubSeq(s, i, Len(s)))), <<>>)
       ELSE SplitWs(s, i+1, Append(cur, s[i]))

\* value of a float text without sign as <<digits, exponent>>: digits * 10^exponent
Clean(t) == FilterSeq(LAMBDA c : c # 95, t)
IsNone0(d) == \A i \in 1..Len(d) : d[i] = 48
RECURSIVE StripLead0(_)
StripLead0(d) == IF d # <<>> /\ d[1] = 48 THEN StripLead0(Tail(d)) ELSE d
RECURSIVE Trail0(_)
Trail0(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN 1 + Trail0(SubSeq(d, 1, Len(d)-1)) ELSE 0
\* is the float text a whole number, and how many digits has it: <<"whole", n>> <<"frac">> <<"unknown">>
WholeDigits(t0) ==
  LET t == Clean(SubSeq(t0, SignEnd(t0, 1), Len(t0)))
      epos == IF \E i \in 1..Len(t) : t[i] \in {69, 101} THEN CHOOSE i \in 1..Len(t) : t[i] \in {69, 101} ELSE Len(t)+1
      mant == SubSeq(t, 1, epos-1)
      expT == SubSeq(t, epos+1, Len(t))
      expA == SubSeq(expT, SignEnd(expT, 1), Len(expT))
      expD == StripLead0(expA)
      expN == IF Len(expD) > 3 THEN 5000 ELSE IF expD = <<>> THEN 0 ELSE NToInt(NFromDigits(1, expD))
      exp  == IF expT # <<>> /\ expT[1] = 45 THEN -expN ELSE expN
      dot == IF \E i \in 1..Len(mant) : mant[i] = 46 THEN CHOOSE i \in 1..Len(mant) : mant[i] = 46 ELSE Len(mant)+1
      frac == SubSeq(mant, dot+1, Len(mant))
      digs == StripLead0(SubSeq(mant, 1, dot-1) \o frac)
      z == Trail0(digs)
      e == exp - Len(frac)          \* value = digs * 10^e
  IN IF digs = <<>> THEN <<"whole", 0>>
     ELSE IF Len(digs) + e > 16 THEN <<"whole", Len(digs) + e>>     \* doubles this large are whole
     ELSE IF Len(digs) - z > 15 THEN <<"unknown">>    \* beyond exact doubles
     ELSE IF e + z >= 0 THEN <<"whole", Len(digs) + e>>
     ELSE IF Len(digs) + e > 15 \/ e < -300 THEN <<"unknown">>
     ELSE <<"frac">>

Digits2(s, i) == IF i+1 <= Len(s) /\ IsDigit(s[i]) /\ IsDigit(s[i+1]) THEN (s[i]-48)*10 + s[i+1]-48 ELSE -1
\* [H]H:[M]M:[S]S[.f{1,6}] with values in range
TwoDig(s, i) == \* <<value, next>> of one or two digits, longest
  IF i > Len(s) \/ ~IsDigit(s[i]) THEN <<-1, i>>
  ELSE IF i+1 <= Len(s) /\ IsDigit(s[i+1]) THEN <<(s[i]-48)*10 + s[i+1]-48, i+2>>
  ELSE <<s[i]-48, i+1>>
IsTimeText(s) ==
  LET h == TwoDig(s, 1)
      m == IF h[2] <= Len(s) /\ s[h[2]] = 58 THEN TwoDig(s, h[2]+1) ELSE <<-1, 1>>
      x == IF m[1] >= 0 /\ m[2] <= Len(s) /\ s[m[2]] = 58 THEN TwoDig(s, m[2]+1) ELSE <<-1, 1>>
      e == x[2]
  IN /\ h[1] \in 0..23 /\ m[1] \in 0..59 /\ x[1] \in 0..59
     /\ \/ e = Len(s) + 1
        \/ /\ s[e] = 46 /\ Len(s) - e \in 1..6
           /\ \A i \in (e+1)..Len(s) : IsDigit(s[i])

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsIsoDate(s) ==
  /\ Len(s) >= 10 /\ s[5] = 45 /\ s[8] = 45
  /\ Digits2(s, 1) >= 10 /\ Digits2(s, 3) >= 0
  /\ LET y == Digits2(s, 1)*100 + Digits2(s, 3)
         m == Digits2(s, 6)
         d == Digits2(s, 9)
     IN m \in 1..12 /\ d \in 1..DaysIn(y, m)
\* HH:MM:SS[.f] from index i to the end
IsIsoTime(s, i) ==
  /\ Len(s) >= i+7 /\ s[i+2] = 58 /\ s[i+5] = 58
  /\ Digits2(s, i) \in 0..23 /\ Digits2(s, i+3) \in 0..59 /\ Digits2(s, i+6) \in 0..59
  /\ \/ Len(s) = i+7
     \/ s[i+8] = 46 /\ Len(s) - (i+8) \in 1..6 /\ \A k \in (i+9)..Len(s) : IsDigit(s[k])

AllAscii(s) == \A i \in 1..Len(s) : s[i] < 128
\* characters which no date contains
NoDateChars == {33, 34, 35, 36, 37, 38, 42, 60, 61, 62, 63, 64, 91, 92, 93, 94, 96, 123, 124, 125, 126}
DateWords == {Cp(w) : w \in {"january", "february", "august", "september", "october", "november", "december",
                             "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday",
                             "minute", "minutes", "second", "seconds"}}
\* letter words separated by spaces, one of them long and not part of dates
IsPhrase(s) ==
  LET ws == SplitWs(s, 1, <<>>)
  IN /\ \A i \in 1..Len(s) : IsAsciiAlpha(s[i]) \/ s[i] = 32
     /\ \E k \in 1..Len(ws) : Len(ws[k]) >= 6 /\ Lower(ws[k]) \notin DateWords

\* characters beyond ASCII that are letters or decimal digits
IsAlpha2(c) == \/ (c \in 192..255 /\ c \notin {215, 247})
               \/ c \in {170, 181, 186} \/ c \in 945..969 \/ c \in 1072..1103 \/ c \in 12354..12430 \/ c \in 19968..40959
DigitOf2(c) == IF c \in 1632..1641 THEN c - 1632 ELSE IF c \in 2406..2415 THEN c - 2406 ELSE IF c \in 65296..65305 THEN c - 65296 ELSE -1
\* the ASCII digit or space such a character stands for in numbers
Ascii(c) == IF c < 128 THEN c ELSE IF DigitOf2(c) >= 0 THEN 48 + DigitOf2(c) ELSE IF IsSpace(c) THEN 32 ELSE c
Known(c) == c < 128 \/ IsSpace(c) \/ IsAlpha2(c) \/ DigitOf2(c) >= 0

\* Parsed is what the date parser makes of the text: "none", "date" (midnight) or "datetime"
ByDate(parsed) == CASE parsed = "date" -> DateT [] parsed = "datetime" -> DateTimeT [] parsed = "none" -> StringT [] OTHER -> AnyT
\* numbers may be surrounded by these blanks only
IsBlankC(c) == c \in 9..13 \/ c = 32
RECURSIVE LStripC(_)
LStripC(s) == IF s # <<>> /\ IsBlankC(s[1]) THEN LStripC(Tail(s)) ELSE s
RECURSIVE RStripC(_)
RStripC(s) == IF s # <<>> /\ IsBlankC(s[Len(s)]) THEN RStripC(SubSeq(s, 1, Len(s)-1)) ELSE s
StripC(s) == RStripC(LStripC(s))
Kind(s0, parsed) ==
  LET s == SeqMap(Ascii, s0)
      t == Strip(s)
      tn == StripC(s)
      ws == SplitWs(t, 1, <<>>)
      delta == Len(ws) = 2 /\ IsFloatText(ws[1]) /\ ~IsFloatWord(ws[1]) /\ NormUnit(ws[2]) # <<>>
      whole == WholeDigits(ws[1])
  IN IF s = <<>> THEN NullT
     ELSE IF \E i \in 1..Len(s) : ~Known(s[i]) THEN AnyT
     ELSE IF IsIntText(tn) THEN (IF Len(tn) > 4000 THEN AnyT ELSE CT("int64"))   \* Python refuses to read very long integers
     ELSE IF IsFloatText(tn) THEN CT("float64")
     ELSE IF s \in BoolWords THEN CT("bool")
     ELSE IF delta /\ whole[1] = "whole" /\ whole[2] <= 18 THEN <<"td", NormUnit(ws[2])[1]>>
     ELSE IF delta /\ (whole[1] = "unknown" \/ (whole[1] = "whole" /\ whole[2] <= 19)) THEN AnyT
     ELSE IF IsTimeText(s) THEN (IF s = s0 THEN TimeT ELSE AnyT)
     ELSE IF \A i \in 1..Len(s0) : IsAsciiAlpha(s[i]) \/ IsAlpha2(s[i]) THEN StringT
     ELSE IF \A i \in 1..Len(s) : IsSpace(s[i]) THEN StringT
     ELSE IF s = s0 /\ Len(s) = 10 /\ IsIsoDate(s) THEN DateT
     ELSE IF s = s0 /\ Len(s) >= 19 /\ IsIsoDate(s) /\ s[11] \in {32, 84} /\ IsIsoTime(s, 12)
          THEN IF \A i \in 12..Len(s) : s[i] \in {48, 58, 46} THEN DateT ELSE DateTimeT
     ELSE IF \E i \in 1..Len(s) : s[i] \in NoDateChars \/ IsAlpha2(s[i]) THEN StringT
     ELSE IF IsPhrase(s) THEN StringT
     ELSE ByDate(parsed)
Classify(s) == Kind(s, "unknown")
\* what any text may be
TextKinds == {CT("int64"), CT("float64"), CT("bool"), TimeT, DateT, DateTimeT, StringT} \cup {<<"td", u>> : u \in TimeUnits}
=============================================================================
