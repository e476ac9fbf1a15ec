------------------------------ MODULE MC_Access ------------------------------
(***************************************************************************)
(* All that can be read of all small datashapes, wrapped and bare.         *)
(***************************************************************************)
EXTENDS MC_Types, Access, SequencesExt
Sl3 == {<<"slice", a, b, c>> : a \in {<<>>, <<NOne>>, <<NInt(-2)>>}, b \in {<<>>, <<NInt(-1)>>, <<NInt(5)>>}, c \in {<<>>, <<NInt(-1)>>, <<NInt(2)>>, <<NZero>>}}
AccsOf(v) ==
  LET all == {<<a>> : a \in Common \cup PartNames(v)} \cup {<<"item", NInt(n)>> : n \in -4..3} \cup Sl3
             \cup (IF v[2][1] = "rec" THEN {<<"field", v[2][2][i][1]>> : i \in 1..Len(v[2][2])} \cup {<<"field", Cp(n)>> : n \in {"z", "dict", ""}} ELSE {})
  IN {acc \in all : Readable(v, acc)}
Forms == {<<"w", T>>} \cup (IF IsDs(T) THEN {} ELSE {<<"b", T>>}) \cup {DimValue(DimsOf(T)[i]) : i \in 1..Len(DimsOf(T))}
Reads(v, a) == Rd(v, a)[2]
\* shape and measure are the datashape
Whole == LET v == <<"w", T>> IN /\ Reads(v, <<"shape">>)[2] \o <<Reads(v, <<"measure">>)>> = Reads(v, <<"parameters">>)[2]
                                /\ Reads(v, <<"iter">>) = Reads(v, <<"parameters">>)
                                /\ Reads(v, <<"len">>) = IntV(NInt(Len(Reads(v, <<"iter">>)[2])))
\* items are there from -len to len-1 and nowhere else
Ends == \A v \in {x \in Forms : x[1] = "w" \/ x[2][1] # "rec"} : LET n == Len(ItemsOf(v)) IN \A i \in -6..6 :
          Rd(v, <<"item", NInt(i)>>) = IF i \in -n..n-1 THEN RdOk(ItemsOf(v)[IF i >= 0 THEN i+1 ELSE n+i+1]) ELSE RdExc
\* names, types, fields and look-up tell the same
Fields == (T[1] = "rec") => LET v == <<"b", T>> IN
            /\ Len(Reads(v, <<"names">>)[2]) = Len(T[2])
            /\ \A i \in 1..Len(T[2]) : /\ Rd(v, <<"field", T[2][i][1]>>) = RdOk(Reads(v, <<"types">>)[2][i])
                                       /\ Reads(v, <<"fields">>)[2][i] = ListV(<<Reads(v, <<"names">>)[2][i], Reads(v, <<"types">>)[2][i]>>)
\* what is read from a datashape is well formed
WellV == \A v \in Forms : \A acc \in AccsOf(v) : LET r == Rd(v, acc) IN (r[1] = "ok" /\ r[2][1] \in {"w", "b"} /\ r[2][2][1] # "fix") => WellFormed(r[2][2])
EmitReads == PrintT(ToJson(<<T, SetToSeq({<<v, SetToSeq({<<acc, Rd(v, acc)>> : acc \in AccsOf(v)})>> : v \in Forms})>>))
=============================================================================
