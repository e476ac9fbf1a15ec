----------------------------- MODULE MC_Registry ------------------------------
(***************************************************************************)
(* Histories of the registries and symbol tables, each with what is seen   *)
(* in the end.                                                             *)
(***************************************************************************)
EXTENDS Registry, Json
CONSTANTS N, Emits, MaxTables, Which
VARIABLES R, log
I8 == CT("int8")
Mine == Cp("mine")
IntN0 == Cp("int")
TypeNames == {"a", "b", "int32", "Option"}
Three == MkDs(<<Fix(NInt(3))>>, I8)
RegOps == {<<"regtype", n, T>> : n \in TypeNames, T \in {I8, Three}}
          \cup {<<"named", n, T>> : n \in TypeNames, T \in {I8, Three, CT("int32")}}
          \cup {<<"ctype", n>> : n \in TypeNames \ {"b"}}
          \cup {<<k, n, ts>> : k \in {"typeset", "regset"}, n \in {"a", "signed"}, ts \in {<<I8>>, <<CT("bool"), I8, CT("bool")>>}}
TabOps == {<<"table", b>> : b \in IF Len(R.tables) < MaxTables THEN BOOLEAN ELSE {}}
          \cup {<<"put", i, "dtype", Mine, Three>> : i \in 1..Len(R.tables)}
          \cup {<<"put", i, "dtype", IntN0, StringT>> : i \in 1..Len(R.tables)}
          \cup {<<"put", i, "dim", Mine, VarDim>> : i \in 1..Len(R.tables)}
          \cup {<<"put", i, "dtypec", Mine, "option">> : i \in 1..Len(R.tables)}
          \cup {<<"put", i, "dimc", Mine, "fixed">> : i \in 1..Len(R.tables)}
          \cup {<<"del", i, p[1], Cp(p[2])>> : i \in 1..Len(R.tables), p \in {<<"dtype", "int">>, <<"dtypec", "option">>, <<"dim", "var">>, <<"dimc", "fixed">>}}
          \cup {<<"clear", i, "dtype">> : i \in 1..Len(R.tables)}
          \cup {<<"defaults", i>> : i \in 1..Len(R.tables)}
Ops == IF Which = "types" THEN RegOps ELSE IF Which = "tables" THEN TabOps ELSE RegOps \cup TabOps
Init == R = Registry0 /\ log = <<>>
Next == /\ Len(log) < N
        /\ \E op \in Ops : LET s == Step(R, op, Len(log)+1) IN R' = s[1] /\ log' = Append(log, <<op, s[2]>>)
Spec == Init /\ [][Next]_<<R, log>>
Last == log'[Len(log')]
Steps == log' # log
KeepsNames == [][Steps => /\ \A n \in Names(R) : n \in Names(R') /\ R'.types[n] = R.types[n]
                          /\ \A n \in DOMAIN R.sets : n \in DOMAIN R'.sets /\ R'.sets[n] = R.sets[n]]_<<R, log>>
RefusalsKeep == [][Steps /\ Last[2] = <<"exc">> => R' = R]_<<R, log>>
TablesApart == [][Steps => \A i \in 1..Len(R.tables) :
                  R'.tables[i] = R.tables[i] \/ (Last[1][1] \in {"put", "del", "clear", "defaults"} /\ Last[1][2] = i)]_<<R, log>>
TypesApart == [][Steps /\ Last[1][1] \in {"put", "del", "clear", "defaults", "table"} => R'.types = R.types /\ R'.sets = R.sets]_<<R, log>>
NewTables == \A i \in 1..Len(log) : log[i][1][1] = "table" => log[i][2] = <<"ok">>
BareHasNone == Len(R.tables) = 1 \/ \A j \in 2..Len(R.tables) : R.tables[j] = BareSym => ParseSym(Cp("int8"), R.tables[j])[1] # "ok"
Probes == <<"mine", "int", "3 * int", "?int8", "var * int8", "mine * int8", "mine[int8]", "... * A", "{x: mine}", "(int, mine) -> mine", "2 * mine">>
Seen == [i \in 1..Len(R.tables) |-> [j \in 1..Len(Probes) |-> ParseSym(Cp(Probes[j]), R.tables[i])]]
Looked == [n \in TypeNames |-> Step(R, <<"lookup", n>>, 0)[2]]
SetsSeen == [n \in {"a", "signed"} |-> Step(R, <<"setlookup", n>>, 0)[2]]
Emit == (Len(log) >= Emits) => PrintT(ToJson(<<log, Looked, SetsSeen, [j \in 1..Len(Probes) |-> Cp(Probes[j])], Seen>>))
=============================================================================
