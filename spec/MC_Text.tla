------------------------------- MODULE MC_Text -------------------------------
(***************************************************************************)
(* All texts up to a length over a small alphabet, as discovery reads them.*)
(***************************************************************************)
EXTENDS JudgeDiscover, Json
CONSTANTS MaxLen, Alphabet, Front, Back
Pieces == CASE Alphabet = "number" -> {Cp("0"), Cp("7"), Cp("_"), Cp("."), Cp("e"), Cp("E"), Cp("-"), Cp("+"), Cp(" ")}
            [] Alphabet = "words" -> {Cp("in"), Cp("nan"), Cp("f"), Cp("inity"), Cp("-"), Cp(" "), Cp("True"), Cp("false"), Cp("1")}
            [] Alphabet = "delta" -> {Cp("1"), Cp("0"), Cp(".5"), Cp(" "), <<9>>, Cp("day"), Cp("s"), Cp("m"), Cp("M"), Cp("e2"), Cp("-"), Cp("hour"), Cp("D")}
            [] Alphabet = "clock" -> {Cp("0"), Cp("2"), Cp("5"), Cp(":"), Cp("."), Cp(" ")}
            [] Alphabet = "calendar" -> {Cp("2000"), Cp("1900"), Cp("-02-"), Cp("-13-"), Cp("29"), Cp("30"), Cp("T"), Cp(" "), Cp("00:00:00"), Cp("23:59:59"), Cp(".000"), Cp(".5")}
            [] Alphabet = "long" -> {Cp("1234567890123456789012345678901"), Cp(":"), Cp("h"), Cp(" "), Cp("."), Cp("e"), Cp("5"), Cp("jan"), Cp("-")}
            [] Alphabet = "world" -> {<<1634>>, Cp("4"), <<8195>>, <<233>>, <<26085>>, Cp("."), Cp(" "), Cp("day"), Cp(":")}
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Pieces : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Txt == Cp(Front) \o ConcatAll(s) \o Cp(Back)
Some == LET k == Kind(Txt, "none") IN k \in TextKinds \cup {NullT, AnyT}
\* surrounding spaces matter for words and times only
Blank == LET k == Kind(Txt, "none") IN k \in {CT("int64"), CT("float64")} => Kind(<<32>> \o Txt \o <<9>>, "none") = k
\* the sign of a number changes nothing
Signed == LET k == Kind(Txt, "none") IN
  (Txt # <<>> /\ (IsDigit(Txt[1]) \/ Txt[1] = 46) /\ k \in {CT("int64"), CT("float64")}) => Kind(<<45>> \o Txt, "none") = k
Emit == PrintT(ToJson(<<Txt, Kind(Txt, "none"), Kind(Txt, "date"), Kind(Txt, "datetime")>>))
=============================================================================
