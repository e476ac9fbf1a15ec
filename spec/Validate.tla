------------------------------- MODULE Validate ------------------------------
(***************************************************************************)
(* Validation of values (see Discover for them) against schemas.           *)
(* Schemas are <<"t", T>>, <<"some", schemas>>, <<"py", class>> and        *)
(* <<"np", dtype>>.                                                        *)
(***************************************************************************)
EXTENDS Predicates, Discover

\* the machine type of a Python scalar, "" for none
MachineOf(v) == CASE v[1] = "int" -> "int64" [] v[1] = "bool" -> "bool" [] v[1] = "float" -> "float64" [] v[1] = "complex" -> "complex128"
                  [] v[1] = "np" /\ v[2][1] = "n" -> v[2][2]
                  [] OTHER -> ""
RECURSIVE Conforms(_,_)
Conforms(T, v) ==
  LET m == MeasureOf(T)
      entry(n) == IF n \in NameSet(v[2]) THEN FieldOr(v[2], n, <<"none">>) ELSE <<"none">>
  IN IF v[1] = "xv"        \* of a class of the user: <<"xv", answers of handlers, as a built-in value, class>>
     THEN (IF T[1] # "ds" /\ \E a \in v[2] : a[1] = m[1] THEN (CHOOSE a \in v[2] : a[1] = m[1])[2]
           ELSE IF T[1] = "ct" /\ v[3][1] \in {"int", "float"} THEN "any"
           ELSE Conforms(T, v[3]))
     ELSE IF v[1] = "arr"
     THEN LET r == FromNp(v[2], v[3])
          IN IF v[2] = <<>> \/ r[1] # "ok" THEN "any" ELSE IF T[1] # "ds" THEN "no" ELSE Tri(SameAs(r[2], T))
     ELSE IF T[1] = "ds"
     THEN IF v[1] # "seq" THEN "no"
          ELSE IF T[2][1][1] = "ell" THEN "any"
          ELSE IF T[2][1][1] = "tv" THEN "no"
          ELSE IF T[2][1] \notin {VarDim, Fix(NInt(Len(v[2])))} THEN "no"
          ELSE AllTri(LAMBDA x : Conforms(RestOf(T), x), v[2])
     ELSE CASE m[1] = "ct" -> IF v[1] \in {"seq", "set", "map", "omap", "mproxy", "none", "bytes", "timedelta"} THEN "no"
                              ELSE IF m[2] \in {"object", "void", "char"} \/ v[1] = "obj" THEN "any"
                              ELSE Tri(MachineOf(v) = NpOfCt(m[2]))
            [] m[1] = "str" -> Tri(v[1] = "str")
            [] m[1] = "time" -> Tri(v[1] = "time")
            [] m[1] = "date" -> Tri(v[1] \in {"date", "datetime"})
            [] m[1] = "datetime" -> Tri(v[1] = "datetime")
            [] m[1] = "rec" ->
                 IF v[1] \in {"map", "omap"} THEN AllTri(LAMBDA fd : Conforms(fd[2], entry(fd[1])), m[2])
                 ELSE IF v[1] = "seq" THEN (IF Len(v[2]) # Len(m[2]) THEN "no"
                                            ELSE AllTri(LAMBDA i : Conforms(m[2][i][2], v[2][i]), [i \in 1..Len(m[2]) |-> i]))
                 ELSE "no"
            \* other types are not checked; nothing that is no value of them may pass
            [] m[1] = "opt" -> IF v = <<"none">> THEN "any" ELSE IF Conforms(m[2], v) = "no" THEN "no" ELSE "any"
            [] m[1] \in {"null", "bytes", "td", "json", "tup", "map", "tv", "dec"} -> IF v[1] \in {"obj", "thing"} THEN "no" ELSE "any"
            [] OTHER -> "any"
RECURSIVE InstanceOf(_,_)
InstanceOf(v, c) ==
  CASE v[1] = "xv" -> InstanceOf(v[3], c)
    [] c = "int" -> v[1] \in {"int", "bool"} [] c = "float" -> v[1] = "float" \/ v = <<"np", <<"n", "float64">>>>
    [] c = "complex" -> v[1] = "complex" \/ v = <<"np", <<"n", "complex128">>>>
    [] c = "str" -> v[1] = "str" [] c = "bytes" -> v[1] = "bytes" [] c = "bool" -> v[1] = "bool" [] c = "dict" -> v[1] \in {"map", "omap"}
    [] c = "date" -> v[1] \in {"date", "datetime"} [] c = "datetime" -> v[1] = "datetime" [] c = "object" -> TRUE
RECURSIVE Validates(_,_)
Validates(S, v) ==
  CASE S[1] = "t" -> Conforms(S[2], v)
    [] S[1] = "some" -> LET r == [i \in 1..Len(S[2]) |-> Validates(S[2][i], v)]
                        IN IF \E i \in 1..Len(r) : r[i] = "yes" /\ \A j \in 1..(i-1) : r[j] # "any" THEN "yes"
                           ELSE IF \A i \in 1..Len(r) : r[i] = "no" THEN "no" ELSE "any"
    [] S[1] = "py" -> Tri(InstanceOf(v, S[2]))
    [] S[1] = "np" -> IF v[1] = "xv" THEN "any" ELSE IF v[1] \in {"int", "bool", "float", "complex", "np"} /\ MachineOf(v) # "" THEN Tri(<<"n", MachineOf(v)>> = S[2])
                      ELSE IF v[1] \in {"seq", "set", "map", "omap", "mproxy", "none", "bytes"} THEN "no" ELSE "any"
=============================================================================
