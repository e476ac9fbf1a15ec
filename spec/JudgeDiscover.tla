---------------------------- MODULE JudgeDiscover ----------------------------
(***************************************************************************)
(* Judgement of recorded discoveries and unifications.                     *)
(***************************************************************************)
EXTENDS Discover

JText(e) ==
  LET k == Kind(e.s, e.parsed)
  IN IF e.out[1] # "ok" THEN {"text.fails"}
     ELSE IF k = AnyT THEN XCl("text.kind", e.out[2] \in TextKinds)
     ELSE XCl("text.kind", e.out[2] = k)
JDiscover(e) ==
  LET r == Discovered(e.v)
  IN (IF r = NpExc THEN XCl("discover.accepted", e.out[1] # "ok") \cup XCl("discover.hangs", e.out[1] # "hang")
      ELSE Against("discover", e.out, r))
     \cup XCl("discover.describes", (r[1] = "ok" /\ e.out[1] = "ok") => Describes(e.v, e.out[2]))
     \cup XCl("discover.optional", (r[1] = "ok" /\ e.out[1] = "ok") => OptOk({e.v}, e.out[2]))
\* uniting items behind their dimensions with another way of uniting
MergeBase(ts) ==
  IF ts = <<>> \/ \E i \in 1..Len(ts) : ~HasHead(ts[i]) THEN UNone
  ELSE LET rest == BaseOf([i \in 1..Len(ts) |-> RestOf(ts[i])])
           d == ts[1][2][1]
       IN IF rest = UNone THEN UNone
          ELSE NpOk(MkDs(<<IF \A i \in 1..Len(ts) : ts[i][2][1] = d THEN d ELSE VarDim>>, rest[2]))
JLowest(e) ==
  LET r == Lowest(e.ts)
  IN Against("lowest", e.out, r) \cup XCl("lowest.error", (r = NpExc /\ e.ts # <<>> /\ e.out[1] \in {"exc", "crash"}) => e.out[2] = "ValueError")
JUnite(e) ==
  LET r == CASE e.how = "base" -> BaseOf(e.ts) [] e.how = "same" -> SameOf(e.ts) [] e.how = "merge" -> MergeOf(e.ts)
             [] e.how = "mergebase" -> MergeBase(e.ts)
      c == Counted(Len(e.ts), r)
  IN IF c = UNone THEN XCl("unite.none", e.out = UNone)
     ELSE IF e.out = UNone THEN {"unite.lost"} ELSE Against("unite", e.out, c)
=============================================================================
