----------------------------- MODULE JudgeValues -----------------------------
(***************************************************************************)
(* Judgement of recorded constructions, comparisons and copies.            *)
(***************************************************************************)
EXTENDS Build
VCl(name, cond) == IF cond THEN {} ELSE {name}
VRefused(out) == out[1] \in {"exc", "syn", "crash"}

JBuild(e) ==
  LET r == Construct(e.ctor, e.args)
      out == e.out
  IN CASE out[1] = "hang" -> {"build.hang"}
       [] r[1] = "any" -> VCl("build.illformed", out[1] = "ok" => WellFormed(out[2]))
       [] r[1] = "exc" -> VCl("build.accepted", VRefused(out))
       [] OTHER -> IF VRefused(out) THEN {"build.refused"} ELSE VCl("build.value", out = r)

\* e.a, e.b: terms, or <<"dim", d>>, <<"int", n>>, <<"other">>
\* e.out: a = b, b = a, a # b, b # a, same hashes, hashes as before
AsEq(v) == CASE v[1] = "term" -> LET T == v[2] IN IF T[1] = "tv" THEN <<"dim", T>> ELSE <<"term", EqForm(T)>>
             [] v[1] = "int" -> <<"dim", Fix(v[2])>>
             [] OTHER -> v
JEq(e) ==
  LET a == AsEq(e.a)
      b == AsEq(e.b)
      same == a = b /\ a[1] # "other"
      out == e.out
  IN IF out[1] # "ok" THEN {"eq.failed"}
     ELSE VCl("eq.value", out[2][1] = same) \cup VCl("eq.symmetric", out[2][2] = same)
          \cup VCl("eq.negation", out[2][3] = ~same /\ out[2][4] = ~same)
          \cup VCl("eq.hash", same => out[2][5]) \cup VCl("eq.hashstable", out[2][6])

\* a copy: its term and what else was compared
JCopy(e) ==
  IF e.out[1] # "ok" THEN {"copy.failed"}
  ELSE VCl("copy.value", e.out[2] = e.t) \cup {"copy." \o c[1] : c \in {x \in RangeOf(e.flags) : x[2] = FALSE}}
=============================================================================
