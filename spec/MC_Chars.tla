------------------------------- MODULE MC_Chars ------------------------------
(***************************************************************************)
(* All short texts over a small set of characters, alone and inside a      *)
(* datashape, to fix what the lexer makes of quotes, escapes, numbers,     *)
(* comments, blanks and words that begin like other words.                 *)
(***************************************************************************)
EXTENDS Printer, Json
CONSTANTS N, Alphabet, Before, After
Chars ==
  CASE Alphabet = "quote" -> {39, 34, 92, 117, 110, 48, 97, 10, 13, 32}
    [] Alphabet = "number" -> {45, 48, 49, 46, 62, 42, 95, 97, 32, 35}
    [] Alphabet = "blank" -> {35, 10, 13, 32, 39, 63, 42, 97, 12, 160}
    [] Alphabet = "beyond" -> {95, 97, 65, 49, 178, 233, 383, 1635, 8490}       \* letters and digits beyond ASCII, some with ASCII counterparts
    [] Alphabet = "word" -> {84, 114, 117, 101, 95, 48, 46, 42, 32}
VARIABLES s, res
TextOf(x) == Cp(Before) \o x \o Cp(After)
Init == s = <<>> /\ res = DShape(TextOf(<<>>))
Next == /\ Len(s) < N /\ \E ch \in Chars : s' = Append(s, ch) /\ res' = DShape(TextOf(s'))
Spec == Init /\ [][Next]_<<s, res>>
ErrorInside == res[1] = "syn" => res[2] \in 0..Len(TextOf(s))
Reads == res[1] = "ok" => /\ WellFormed(res[2]) /\ (Expressible(res[2]) => DShape(Unparse(res[2])) = res)
\* tokens cover the text: what lies between them is blanks and comments only
Gap(t, i, j) == i <= j /\ SkipWs(SubSeq(t, 1, j), i+1) = j+1
TokensCover == LET t == TextOf(s)
                   l == Lex(t)
               IN \A i \in 1..Len(l) : l[i][1] # "EOF" => Gap(t, IF i = 1 THEN 0 ELSE l[i-1][3], l[i][2])
Emit == PrintT(ToJson(<<TextOf(s), res>>))
=============================================================================
