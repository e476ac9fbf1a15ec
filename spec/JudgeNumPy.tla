------------------------------ MODULE JudgeNumPy -----------------------------
(***************************************************************************)
(* Judgement of recorded conversions to and from NumPy and promotions.     *)
(***************************************************************************)
EXTENDS Promotion, JudgeIndex

\* the dtype as a datashape can tell it: dates in days, times in microseconds
RECURSIVE Told(_)
Told(d) == CASE d[1] = "M" -> IF d[2] \in {"D", "Y", "M", "W"} THEN <<"M", "D", NOne>> ELSE <<"M", "us", NOne>>
             [] d[1] = "rec" -> <<"rec", [i \in 1..Len(d[2]) |-> <<d[2][i][1], d[2][i][2], Told(d[2][i][3])>>]>>
             [] OTHER -> d
TypeErr(kind, out, r) == XCl(kind \o ".error", (r = NpExc /\ out[1] \in {"exc", "syn", "crash"}) => out[2] = "TypeError")
Plain(kind, out, r) ==    \* as Against, for results which are not datashapes
  CASE out[1] \in {"hang", "weird"} -> XCl(kind \o ".value", out[1] = "weird" /\ r[1] = "any")
    [] r[1] = "any" -> {}
    [] out[1] \in {"exc", "syn", "crash"} -> XCl(kind \o ".refused", r[1] = "exc")
    [] r[1] = "exc" -> {kind \o ".accepted"}
    [] OTHER -> XCl(kind \o ".value", out[2] = r[2])

JFromNp(e) ==
  LET r == FromNp(e.shape, e.dt)
  IN Against("fromnp", e.out, r)
     \cup (IF e.out[1] = "ok" /\ r[1] = "ok" THEN Plain("roundtrip", e.back, NpOk(<<e.shape, Told(e.dt)>>)) ELSE {})
JToNp(e) == LET r == ToNp(e.t) IN Plain("tonp", e.out, r) \cup TypeErr("tonp", e.out, r)
JToDt(e) == LET r == ToDt(e.t) IN Plain("todt", e.out, r) \cup TypeErr("todt", e.out, r)

\* an object array whose items are strings or not
AsStrings(bs) == IF bs = <<>> THEN "any"
                 ELSE IF \A i \in 1..Len(bs) : bs[i] THEN "string"
                 ELSE IF \E i \in 1..(IF Len(bs) < 5 THEN Len(bs) ELSE 5) : ~bs[i] THEN "object"
                 ELSE "any"
ObjDt(d) == d = <<"n", "object">>
DiscArr(shape, d, strs) ==
  LET r == FromNp(shape, d)
      named(i) == <<d[2][i][1], IF ObjDt(d[2][i][3]) /\ d[2][i][2] = <<>> /\ AsStrings(strs[i]) = "string" THEN StringT ELSE MeasureOf(r[2])[2][i][2]>>
  IN IF r[1] # "ok" THEN r
     ELSE IF ObjDt(d) THEN (CASE AsStrings(strs[1]) = "any" -> NpAny
                              [] AsStrings(strs[1]) = "string" -> NpOk(MkDs(DimsOf(r[2]), StringT))
                              [] OTHER -> r)
     ELSE IF d[1] # "rec" THEN r
     ELSE IF \E i \in 1..Len(d[2]) : ObjDt(d[2][i][3]) /\ (d[2][i][2] # <<>> \/ AsStrings(strs[i]) = "any") THEN NpAny
     ELSE NpOk(MkDs(DimsOf(r[2]), <<"rec", [i \in 1..Len(d[2]) |-> named(i)]>>))
JDiscArr(e) == Against("discarr", e.out, DiscArr(e.shape, e.dt, e.strs))

SameAs(T, U) == EqForm(T) = EqForm(U)
JPromote(e) ==
  LET r == Promote(e.a, e.b, e.opt)
  IN IF r[1] = "ok" /\ e.out[1] = "ok" THEN XCl("promote.value", SameAs(e.out[2], r[2])) ELSE Against("promote", e.out, r)
JOptionify(e) ==
  LET T == IF MeasureOf(e.t)[1] = "opt" \/ ~(IsOption(e.a) \/ IsOption(e.b)) THEN e.t ELSE OptOf(e.t)
  IN Against("optionify", e.out, NpOk(T))
=============================================================================
