------------------------------- MODULE MC_Lang -------------------------------
(***************************************************************************)
(* All token sequences up to N tokens over an alphabet, extended as long   *)
(* as they can still become a datashape.  Each sequence is emitted with    *)
(* the meaning the specification gives to it and replayed into the parser. *)
(***************************************************************************)
EXTENDS Printer, Json
CONSTANTS N, Alphabet, Glue

Words ==
  CASE Alphabet = "core" -> {"3", "var", "A", "int32", "*", "...", "?", "{", "}", "(", ")", "[", "]", ",", ":", "->", "a", "'s'"}
    [] Alphabet = "types" -> {"[", "]", ",", "=", "3", "'us'", "'A'", "True", "int32", "float32", "string", "complex", "option",
                              "map", "struct", "tuple", "funcproto", "time", "timedelta", "units", "decimal", "categorical",
                              "tz", "unit", "tp", "scale", "precision"}
    [] Alphabet = "wild" -> {"...", "A", "*", "int32", "{", "}", "(", ")", "->", ",", "a", ":", "?", "option", "[", "]"}
    [] Alphabet = "nest" -> {"{", "}", "(", ")", ",", "a", "b", ":", "int32", "?", "->", "*", "2"}
    [] Alphabet = "args" -> {"categorical", "[", "]", ",", "'a'", "1", "True", "=", "int32", "type", "ordered", "option", "string", "map"}
VARIABLES toks, res

Join(ws, g) == JoinWith(g, SeqMap(Cp, ws))
TextOf(ws) == Join(ws, Cp(Glue))
Meaning(ws) == DShape(TextOf(ws))
\* the text may continue: the only error is that it ends
Viable(t, r) == r[1] \in {"ok", "any"} \/ (r[1] = "syn" /\ r[2] = Len(TextOf(t)))

Init == toks = <<>> /\ res = Meaning(<<>>)
Next == /\ Len(toks) < N
        /\ Viable(toks, res)
        /\ \E w \in Words : toks' = Append(toks, w) /\ res' = Meaning(toks')
Spec == Init /\ [][Next]_<<toks, res>>

\* ---------------------------------------------------------------- properties
\* errors are inside the text and at a token or the end of the last one
ErrorInside == res[1] = "syn" =>
  /\ res[2] \in 0..Len(TextOf(toks))
  /\ LET l == Lex(TextOf(toks)) IN \E i \in 1..Len(l) : l[i][2] = res[2]
\* what is read is a datashape, and printing it reads back as the same
Reads == res[1] = "ok" => /\ WellFormed(res[2]) /\ ~ManyWildcards(res[2])
                          /\ Expressible(res[2]) => DShape(Unparse(res[2])) = res
\* the meaning does not depend on the layout
LayoutFree ==
  LET r == DShape(Join(toks, <<10, 9>>) \o <<32, 35, 63, 40>>)
  IN res[1] \in {"ok", "exc", "any"} => r = res
\* an error position is the first one: no completion of the text before it is lost
ErrorLeast == res[1] = "syn" /\ toks # <<>> /\ ~Viable(toks, res) =>
                LET l == Lex(TextOf(toks)) IN
                \E i \in 1..Len(l) : l[i][2] = res[2] /\ (i = 1 \/ res[2] >= l[i-1][3])
Emit == PrintT(ToJson(<<TextOf(toks), res>>))
=============================================================================
