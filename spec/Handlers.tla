------------------------------- MODULE Handlers ------------------------------
(***************************************************************************)
(* Classes of a user and the handlers registered for them.  A value of     *)
(* such a class is <<"x", class, inside>>; what is inside is the value as  *)
(* the built-in class sees it.  The state of the machine is                *)
(*   discover: class -> <<"is", T>> | <<"pre", n>> | <<"no">>              *)
(*     it is T, n times what is inside, or it refuses                      *)
(*   validate: set of <<kind of schema, class, answer>>                    *)
(***************************************************************************)
EXTENDS Validate
Parent == [A |-> "object", B |-> "A", C |-> "B", E |-> "A", L |-> "list", K |-> "L", P |-> "tuple", M |-> "dict", O |-> "omap",
           I |-> "int", F |-> "float", S |-> "str", U |-> "S", D |-> "date", Q |-> "array"]
Classes == DOMAIN Parent
RECURSIVE Chain(_)
Chain(c) == IF c \in Classes THEN <<c>> \o Chain(Parent[c]) ELSE <<c>>
BaseOfClass(c) == Chain(c)[Len(Chain(c))]
Below(c) == {d \in Classes : c \in RangeOf(Chain(d))}
Collections == {"list", "tuple", "dict", "omap"}

\* the closest of the classes D above c, "" if there is none
RECURSIVE ClosestIn(_,_)
ClosestIn(D, ch) == IF ch = <<>> THEN "" ELSE IF ch[1] \in D THEN ch[1] ELSE ClosestIn(D, Tail(ch))
Closest(D, c) == ClosestIn(D, Chain(c))

\* the value as the discovery of collections sees it
RECURSIVE Abst(_,_)
TellOf(H, h, inside) ==
  CASE h[1] = "is" -> NpOk(h[2])
    [] h[1] = "no" -> NpExc
    [] OTHER -> LET r == Discovered(Abst(H, inside)) IN IF r[1] = "ok" THEN NpOk(MkDs(<<Fix(NInt(h[2]))>>, r[2])) ELSE r
Abst(H, v) ==
  CASE v[1] = "x" -> LET k == Closest(DOMAIN H, v[2]) IN
         IF k # "" THEN <<"ext", TellOf(H, H[k], v[3])>>
         ELSE IF BaseOfClass(v[2]) = "object" THEN <<"obj">> ELSE Abst(H, v[3])
    [] v[1] \in {"seq", "set"} -> <<v[1], [i \in 1..Len(v[2]) |-> Abst(H, v[2][i])]>>
    [] v[1] \in {"map", "omap", "mproxy"} -> <<v[1], [i \in 1..Len(v[2]) |-> <<v[2][i][1], Abst(H, v[2][i][2])>>]>>
    [] OTHER -> v
\* whether rows of a table have handlers of their own is left open
RowLen(x) == IF x[1] = "seq" THEN Len(x[2]) ELSE IF x[1] = "x" /\ BaseOfClass(x[2]) \in {"list", "tuple"} THEN Len(x[3][2]) ELSE -1
IsMapping(x) == x[1] \in {"map", "omap"} \/ (x[1] = "x" /\ BaseOfClass(x[2]) \in {"dict", "omap"})
IsTable(xs) == \/ \A i \in 1..Len(xs) : RowLen(xs[i]) >= 0 /\ RowLen(xs[i]) = RowLen(xs[1])
               \/ \A i \in 1..Len(xs) : IsMapping(xs[i])
RECURSIVE OwnRows(_,_)
OwnRows(H, v) ==
  CASE v[1] = "x" -> OwnRows(H, v[3])
    [] v[1] \in {"seq", "set"} -> \E i \in 1..Len(v[2]) :
         LET x == v[2][i] IN OwnRows(H, x) \/ (x[1] = "x" /\ BaseOfClass(x[2]) \in Collections /\ Closest(DOMAIN H, x[2]) # "" /\ IsTable(v[2]))
    [] v[1] \in {"map", "omap", "mproxy"} -> \E i \in 1..Len(v[2]) : OwnRows(H, v[2][i][2])
    [] OTHER -> FALSE
DiscoveredWith(H, v) == IF OwnRows(H, v) THEN NpAny ELSE Discovered(Abst(H, v))

\* the value with the answers which handlers of validate give for it
Kinds == {"rec", "str", "ct", "opt", "tup", "date", "td", "map"}
RECURSIVE Answered(_,_)
Answered(V, v) ==
  CASE v[1] = "x" ->
         LET given(k) == Closest({w[2] : w \in {u \in V : u[1] = k}}, v[2])
             mine == {k \in Kinds : given(k) # ""}
         IN <<"xv", {<<k, (CHOOSE w \in V : w[1] = k /\ w[2] = given(k))[3]>> : k \in mine},
              IF BaseOfClass(v[2]) \in {"object", "array"} THEN <<"thing">> ELSE Answered(V, v[3]), v[2]>>
    [] v[1] \in {"seq", "set"} -> <<v[1], [i \in 1..Len(v[2]) |-> Answered(V, v[2][i])]>>
    [] v[1] \in {"map", "omap", "mproxy"} -> <<v[1], [i \in 1..Len(v[2]) |-> <<v[2][i][1], Answered(V, v[2][i][2])>>]>>
    [] OTHER -> v
RECURSIVE ValidWith(_,_)
ValidWith(S, v) ==
  IF S[1] = "pyx" THEN Tri(v[1] = "xv" /\ S[2] \in RangeOf(Chain(v[4])))
  ELSE IF S[1] = "some" THEN LET r == [i \in 1..Len(S[2]) |-> ValidWith(S[2][i], v)]
                        IN IF \E i \in 1..Len(r) : r[i] = "yes" /\ \A j \in 1..(i-1) : r[j] # "any" THEN "yes"
                           ELSE IF \A i \in 1..Len(r) : r[i] = "no" THEN "no" ELSE "any"
  ELSE Validates(S, v)
ValidatedWith(V, S, v) == ValidWith(S, Answered(V, v))

\* registering again replaces
SetHandler(H, c, h) == [d \in DOMAIN H \cup {c} |-> IF d = c THEN h ELSE H[d]]
SetAnswer(V, k, c, a) == {w \in V : ~(w[1] = k /\ w[2] = c)} \cup {<<k, c, a>>}
NoHandlers == [d \in {} |-> <<"no">>]
RECURSIVE Touches(_,_)
Touches(v, cs) ==
  CASE v[1] = "x" -> v[2] \in cs \/ Touches(v[3], cs)
    [] v[1] \in {"seq", "set"} -> \E i \in 1..Len(v[2]) : Touches(v[2][i], cs)
    [] v[1] \in {"map", "omap", "mproxy"} -> \E i \in 1..Len(v[2]) : Touches(v[2][i][2], cs)
    [] OTHER -> FALSE
=============================================================================
