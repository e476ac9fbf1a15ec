----------------------------- MODULE JudgeChecks -----------------------------
(***************************************************************************)
(* Judgement of recorded validations, predicates, type sets and assertions.*)
(* Answers are "yes", "no" or how the call failed.                         *)
(***************************************************************************)
EXTENDS Validate

Answer(kind, got, want) == IF want = "any" THEN {} ELSE IF got = want THEN {} ELSE {kind \o "." \o want}
\* what is asked of an open number of dimensions, or of char, which NumPy does not have, is not specified
RECURSIVE OpenSchema(_)
OpenSchema(S) == CASE S[1] = "t" -> HasDim(S[2], {"ell"}) \/ CT("char") \in RangeOf(CollectT(S[2], {"ct"})) [] S[1] = "some" -> \E i \in 1..Len(S[2]) : OpenSchema(S[2][i]) [] OTHER -> FALSE
\* and of arrays of types that datashape does not have
RECURSIVE Undescribed(_)
Undescribed(v) == CASE v[1] \in {"seq", "set"} -> \E i \in 1..Len(v[2]) : Undescribed(v[2][i])
                    [] v[1] \in {"map", "omap", "mproxy"} -> \E i \in 1..Len(v[2]) : Undescribed(v[2][i][2])
                    [] v[1] = "arr" -> FromNp(v[2], v[3])[1] # "ok"
                    [] v[1] = "x" -> Undescribed(v[3])
                    [] OTHER -> FALSE
JValidate(e) == IF OpenSchema(e.s) \/ Undescribed(e.v) THEN {} ELSE Answer("validate", e.out, Validates(e.s, e.v))
JSubSchema(e) == Answer("subschema", e.out, Tri(SameAs(e.a, e.b)))
JPred(e) == UNION {Answer(p, e.said[p], Says(p, e.t)) : p \in DOMAIN e.said}
JCollect(e) == XCl("collect", e.out[1] = "ok" /\ e.out[2] = ConcatAll([i \in 1..Len(e.ts) |-> CollectT(e.ts[i], RangeOf(e.kinds))]))
JIsDim(e) == Answer("isdimension", e.out, Tri(e.kind \in {"fix", "var", "ell", "int"}))

JSetOf(e) ==    \* named set: members in the order they are iterated
  LET s == e.types IN XCl("set.members", RangeOf(s) = SetTypes(e.name)) \cup XCl("set.once", Distinct(s)) \cup XCl("set.len", e.len = Len(s))
JSet(e) ==      \* TypeSet(*a), and its union with TypeSet(*b)
  XCl("set.types", e.out = <<"ok", Once(e.a)>>) \cup XCl("set.len", e.len = Len(Once(e.a)))
  \cup XCl("set.union", e.union = <<"ok", Once(e.a \o e.b)>>)
  \* sets of the same types in the same order are the same; equal sets have the same types
  \cup (IF ~e.plain THEN {} ELSE XCl("set.equal", IF Once(e.a) = Once(e.b) THEN e.same = <<TRUE, TRUE, TRUE>> /\ e.hashes
                                                  ELSE RangeOf(e.a) = RangeOf(e.b) \/ e.same = <<FALSE, FALSE, FALSE>>))
  \cup XCl("set.kept", e.kept = e.out) \cup XCl("set.copy", \A i \in 1..Len(e.copies) : e.copies[i] = <<e.out, TRUE>>)
  \cup XCl("set.contains", \A i \in 1..Len(e.asked) : e.asked[i][2] = Tri(MemberOf(e.asked[i][1], e.a)))
JMember(e) == UNION {Answer("member." \o n, e.said[n], Tri(MemberOf(e.t, [i \in 1..1 |-> e.t]) /\ e.t \in SetTypes(n))) : n \in DOMAIN e.said}
JSuper(e) ==
  LET r == SuperOf(e.t)
  IN CASE r[1] = "ok" -> XCl("supertype", e.out = r) [] OTHER -> XCl("supertype.accepted", e.out[1] = "exc" /\ e.out[2] = "AssertionError")
JMax(e) ==
  LET r == WidestOf(e.t)
  IN CASE r[1] = "ok" -> XCl("maxtype", e.out = r) [] OTHER -> XCl("maxtype.accepted", e.out[1] = "exc" /\ e.out[2] = "TypeError")
JMatch(e) == Answer("match", e.out, MatchSig(e.a, e.b))
\* The way that the message of a failed assertion shows: both datashapes have what it leads to, and differ there.
Slot(x, s) == CASE x[1] \in {"time", "datetime"} /\ s = "tz" -> x[2]
                [] x[1] = "td" /\ s = "unit" -> x[2]
                [] x[1] = "units" /\ s = "unit" -> x[2]
                [] x[1] = "str" /\ s = "fixlen" -> x[2]
                [] x[1] = "str" /\ s = "encoding" -> x[3]
                [] x[1] = "dec" /\ s = "precision" -> x[2]
                [] x[1] = "dec" /\ s = "scale" -> x[3]
                [] x[1] = "map" /\ s = "key" -> x[2]
                [] x[1] = "map" /\ s = "value" -> x[3]
                [] x[1] = "cat" /\ s = "categories" -> x[2]
                [] x[1] = "cat" /\ s = "type" -> x[3]
                [] x[1] = "cat" /\ s = "ordered" -> x[4]
                [] OTHER -> x
RECURSIVE Leads(_,_,_,_)
Leads(a, b, path, f) ==
  LET p == path[1]
      x == MeasureOf(a)
      y == MeasureOf(b)
      both(s, t, rest) == Leads(s, t, rest, f)
      item(s, t, k) == LET i == path[k][2] + 1 IN i <= Len(s) /\ i <= Len(t) /\ both(s[i], t[i], SubSeq(path, k+1, Len(path)))
      dims(s, t) == IF Len(path) = 1 THEN Len(s) # Len(t)
                    ELSE LET i == path[2][2] + 1 IN Len(path) = 2 /\ path[2][1] = "no" /\ i <= Len(s) /\ i <= Len(t) /\ s[i] # t[i]
      field(T) == {i \in 1..Len(T[2]) : T[2][i][1] = p[2]}
  IN IF path = <<>> THEN ~EqUpTo(a, b, f)
     ELSE IF p[1] = "name" THEN /\ x[1] = "rec" /\ y[1] = "rec" /\ field(x) # {} /\ field(y) # {}
                                /\ both(x[2][CHOOSE i \in field(x) : TRUE][2], y[2][CHOOSE i \in field(y) : TRUE][2], Tail(path))
     ELSE IF p[1] # "at" THEN FALSE
     ELSE CASE p[2] = "measure" -> both(x, y, Tail(path))
            [] p[2] = "shape" -> f.dim /\ dims(DimsOf(a), DimsOf(b))
            [] x[1] # y[1] -> FALSE
            [] p[2] = "ty" -> x[1] = "opt" /\ both(x[2], y[2], Tail(path))
            [] p[2] = "tp" -> x[1] = "units" /\ both(x[3], y[3], Tail(path))
            [] p[2] \in {"dshapes", "argtypes"} -> x[1] = (IF p[2] = "dshapes" THEN "tup" ELSE "fun") /\ Len(path) > 1 /\ path[2][1] = "no" /\ item(x[2], y[2], 2)
            [] p[2] = "restype" -> x[1] = "fun" /\ both(x[3], y[3], Tail(path))
            [] OTHER -> Len(path) = 1 /\ Slot(x, p[2]) # Slot(y, p[2])
JAssert(e) == Answer("assert", e.out, Tri(EqUpTo(e.a, e.b, e.flags)))
              \cup (IF e.out # "no" \/ EqUpTo(e.a, e.b, e.flags) THEN {} ELSE XCl("assert.path", Leads(e.a, e.b, e.path, e.flags)))
=============================================================================
