------------------------------ MODULE JudgeIndex -----------------------------
(***************************************************************************)
(* Judgement of recorded indexing and concatenation.                       *)
(***************************************************************************)
EXTENDS Index

XCl(name, cond) == IF cond THEN {} ELSE {name}
\* an outcome against what the specification gives
Against(kind, out, r) ==
  CASE out[1] = "hang" -> {kind \o ".hang"}
    [] r[1] = "any" -> XCl(kind \o ".illformed", out[1] # "ok" \/ WellFormed(out[2]))
    [] out[1] \in {"exc", "syn", "crash"} -> XCl(kind \o ".refused", r[1] \in {"exc", "maybe"})
    [] r[1] = "exc" -> {kind \o ".accepted"}
    [] OTHER -> XCl(kind \o ".value", out[1] = "ok" /\ out[2] = r[2])
JIndex(e) == Against("index", e.out, Sub(e.t, e.ix))
JSubArray(e) == Against("subarray", e.out, SubArray(e.t, e.n))
JCat(e) == Against("cat", e.out, CatDs(e.ts))
=============================================================================
