-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode code points.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* Code points of a TLA+ string literal (printable ASCII).
ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c)]
Cp(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
ChrOf == [n \in 32..126 |-> SubSeq(ASCII, n-31, n-31)]
RECURSIVE Str(_)
Str(cp) == IF cp = <<>> THEN "" ELSE ChrOf[cp[1]] \o Str(Tail(cp))

\* Python's str.isspace / regular expression \s
IsSpace(c) == \/ c \in 9..13 \/ c \in 28..32
              \/ (c > 127 /\ (c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \/ c \in 8192..8202))
IsDigit(c) == c \in 48..57
IsLower(c) == c \in 97..122
IsUpper(c) == c \in 65..90
IsNameChar(c) == IsLower(c) \/ IsUpper(c) \/ IsDigit(c) \/ c = 95
IsAsciiAlpha(c) == IsLower(c) \/ IsUpper(c)
IsHex(c) == IsDigit(c) \/ c \in 97..102 \/ c \in 65..70
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* code point order of texts, as Python sorts strings
RECURSIVE TxtLt(_,_)
TxtLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] = b[1] THEN TxtLt(Tail(a), Tail(b)) ELSE a[1] < b[1]
RECURSIVE TxtInsert(_,_)
TxtInsert(s, x) == IF s = <<>> THEN <<x>>
                   ELSE IF TxtLt(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o TxtInsert(Tail(s), x)
RECURSIVE TxtSort(_)
TxtSort(s) == IF s = <<>> THEN <<>> ELSE TxtInsert(TxtSort(Tail(s)), s[1])

RECURSIVE LStrip(_)
LStrip(s) == IF s # <<>> /\ IsSpace(s[1]) THEN LStrip(Tail(s)) ELSE s
RECURSIVE RStrip(_)
RStrip(s) == IF s # <<>> /\ IsSpace(s[Len(s)]) THEN RStrip(SubSeq(s, 1, Len(s)-1)) ELSE s
Strip(s) == RStrip(LStrip(s))

\* sequence helpers shared by all modules
SeqMap(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == \A i \in 1..Len(s) : \A j \in 1..Len(s) : i < j => s[i] # s[j]
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o ConcatAll(Tail(ss))
RECURSIVE FilterSeq(_,_)
FilterSeq(Test(_), s) == IF s = <<>> THEN <<>>
                      ELSE (IF Test(s[1]) THEN <<s[1]>> ELSE <<>>) \o FilterSeq(Test, Tail(s))
IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x ELSE 0
=============================================================================
