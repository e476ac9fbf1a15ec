------------------------------ MODULE JudgeLang ------------------------------
(***************************************************************************)
(* Judgement of the recorded calls that read and print datashapes: each    *)
(* operator gives the set of clauses which the event e breaks.             *)
(***************************************************************************)
EXTENDS Printer

Cl(name, cond) == IF cond THEN {} ELSE {name}
Refused(out) == out[1] \in {"exc", "syn"}

\* ------------------------------------------------ positions of syntax errors
CountNl(s, p) == Len(SelectSeq(SubSeq(s, 1, p), LAMBDA c : c = 10))
RECURSIVE LineStart(_,_)
LineStart(s, p) == IF p = 0 \/ s[p] = 10 THEN p ELSE LineStart(s, p-1)
RECURSIVE LineEnd(_,_)
LineEnd(s, p) == IF p >= Len(s) \/ s[p+1] = 10 THEN p ELSE LineEnd(s, p+1)
LineOf(s, p) == SubSeq(s, LineStart(s, p)+1, LineEnd(s, p))
Blanks(n) == [i \in 1..n |-> 32]
IsAt(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
HasText(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : IsAt(s, i, t)
\* the rendered message shows the line and under it a caret at its column
Caret(s, p) == <<10>> \o Blanks(4) \o LineOf(s, p) \o <<10>> \o Blanks(4 + p - LineStart(s, p)) \o <<94, 10>>
\* out: <<"syn", position, line number, column, line, rendered message>>
SynPlace(s, out) ==
  LET p == out[2] IN
  IF p < 0 \/ p > Len(s) THEN {"error.outside"}
  ELSE Cl("error.lineno", out[3] = CountNl(s, p) + 1)
       \cup Cl("error.column", out[4] = p - LineStart(s, p))
       \cup Cl("error.line", out[5] = LineOf(s, p))
       \cup Cl("error.rendered", HasText(out[6], Caret(s, p))
                                 /\ HasText(out[6], Cp("line ") \o NText(NInt(CountNl(s, p) + 1)) \o <<10>>))

\* ------------------------------------------------------------------ parsing
\* a text read with the default symbols
JParse(e) ==
  LET r == DShape(e.text)
      out == e.out
  IN CASE out[1] \in {"hang", "crash"} -> {"parse.crash"}
       [] r[1] = "any" -> {}
       [] r[1] = "ok" -> IF Refused(out) THEN {"parse.refused"} ELSE Cl("parse.value", out = r)
       [] OTHER -> Cl("parse.accepted", Refused(out))
JSyn(e) ==
  LET r == DShape(e.text)
      out == e.out
  IN IF r[1] = "any" THEN {}
     ELSE IF out[1] = "syn" THEN
          (IF r[1] = "syn" THEN Cl("error.position", out[2] = r[2]) ELSE {})
          \cup SynPlace(e.text, out)
     ELSE Cl("error.class", r[1] # "syn" \/ out[1] # "exc")
\* the error object alone, built from a position and a text
JErrObj(e) == IF e.out[1] # "syn" THEN {"error.object"} ELSE Cl("error.object", e.out[2] = e.pos) \cup SynPlace(e.text, e.out)

\* ----------------------------------------------------------------- printing
\* e.t printed as e.text, read back as e.back (route "repr": evaluated)
JPrint(e) ==
  IF ~Expressible(e.t) THEN {}
  ELSE IF e.route = "repr" THEN Cl("print.repr", e.back = OkT(e.t))
  ELSE Cl("print.denotes", DShape(e.text) = OkT(e.t)) \cup Cl("print.reads", e.back = OkT(e.t))

\* ----------------------------------------------------------------- spellings
\* a text: what it reads as, how that prints, its size and alignment ("ct" only)
JAlias(e) ==
  LET r == DShape(e.text) IN
  CASE e.out[1] \in {"hang", "crash"} -> {"alias.crash"}
    [] r[1] = "any" -> {}
    [] r[1] # "ok" -> Cl("alias.accepted", Refused(e.out))
    [] OTHER -> IF Refused(e.out) THEN {"alias.refused"}
                ELSE Cl("alias.value", e.out = r)
                     \cup (IF e.out # r \/ ~Expressible(r[2]) THEN {} ELSE Cl("alias.printed", SameTokens(e.printed, Unparse(r[2]))))
                     \cup (IF e.out # r \/ r[2][1] # "ct" \/ r[2] = CT("void") THEN {}
                           ELSE Cl("alias.itemsize", e.size = CSize(r[2][2])) \cup Cl("alias.alignment", e.align = CAlign(r[2][2])))
\* an object exported under a name
JConst(e) == LET r == DShape(e.name) IN
             IF r[1] # "ok" THEN {} ELSE Cl("alias.constant", e.out = r)
=============================================================================
