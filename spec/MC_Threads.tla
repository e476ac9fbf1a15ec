------------------------------ MODULE MC_Threads -----------------------------
(***************************************************************************)
(* All interleavings of two (or more) calls, and of calls made inside      *)
(* calls: each returns what it returns alone.                              *)
(***************************************************************************)
EXTENDS Threads, SequencesExt, FiniteSets, Json
CONSTANTS N, Pool, Inner, Turns      \* threads, calls, how many calls inside others, how often a thread is interrupted in all
VARIABLES stacks, outs, plan
A == CT("int8")
Tx(s) == <<"parse", Cp(s)>>
Fx(n, T) == MkDs(<<Fix(NInt(n))>>, T)
Calls == CASE Pool = "parse" -> {Tx("2*A"), Tx("{a:A}"), Tx("?int8"), Tx("3**"), Tx("(x)"), Tx("'"), Tx(""), Tx("...*A")}
           [] Pool = "lists" -> {<<"cat", <<Fx(2, A), Fx(3, A)>>>>, <<"cat", <<Fx(2, A), Fx(3, CT("bool"))>>>>, <<"cat", <<Fx(2, A), MkDs(<<VarDim>>, A), Fx(5, A)>>>>,
                                 <<"lowest", <<CT("int64"), CT("float64"), StringT>>>>, <<"lowest", <<DateT, CT("int64")>>>>, <<"unite", <<CT("int64"), NullT, CT("float64")>>>>,
                                 <<"unite", <<<<"rec", <<<<Cp("a"), CT("int64")>>>>>>, <<"rec", <<<<Cp("a"), NullT>>>>>>>>>>, <<"promote", <<A, <<"opt", CT("float32")>>>>>>}
           [] Pool = "values" -> {<<"discover", <<"seq", <<<<"int">>, <<"none">>, <<"float">>>>>>>>, <<"discover", <<"seq", <<<<"bool">>, <<"int">>>>>>>>,
                                  <<"discover", <<"seq", <<<<"seq", <<<<"int">>>>>>, <<"seq", <<<<"int">>, <<"int">>>>>>>>>>>>,
                                  <<"discover", <<"seq", <<<<"map", <<<<Cp("a"), <<"int">>>>>>>>, <<"map", <<<<Cp("b"), <<"none">>>>>>>>>>>>>>,
                                  <<"print", <<"rec", <<<<Cp("a"), Fx(2, A)>>, <<Cp("b"), StringT>>>>>>>>, <<"print", <<"fun", <<A, StringT>>, <<"tup", <<A>>>>>>>>,
                                  <<"index", Fx(3, <<"rec", <<<<Cp("a"), A>>, <<Cp("b"), StringT>>>>>>), <<"tuple", <<<<"int", NZero>>, <<"name", Cp("b")>>>>>>>>,
                                  <<"index", Fx(5, A), <<"slice", <<NInt(1)>>, <<>>, <<NInt(2)>>>>>>}
           [] Pool = "mixed" -> {Tx("2*A"), Tx("3**"), <<"cat", <<Fx(2, A), Fx(3, A)>>>>, <<"unite", <<CT("int64"), NullT, CT("float64")>>>>,
                                 <<"discover", <<"seq", <<<<"int">>, <<"none">>>>>>>>, <<"print", <<"rec", <<<<Cp("a"), Fx(2, A)>>>>>>>>}
Th == 1..N
\* different calls in an order that does not matter
Rank == SetToSeq(Calls)
Init == /\ stacks \in [Th -> {<<FrameOf(Rank[i])>> : i \in 1..Len(Rank)}]
        /\ \A t \in Th : t < N => \E i, j \in 1..Len(Rank) : i <= j /\ stacks[t][1].call = Rank[i] /\ stacks[t+1][1].call = Rank[j]
        /\ outs = <<>>
        /\ plan = <<[t \in Th |-> stacks[t][1].call]>>
Busy(t) == stacks[t] # <<>>
Deep(t) == Len(stacks[t]) > 1
Runner == IF Len(plan) = 1 THEN 0 ELSE plan[Len(plan)][1]
Switches == Cardinality({k \in 2..Len(plan)-1 : plan[k][1] # plan[k+1][1]})
\* a call made inside another one is not interrupted
MayRun(t) == /\ Busy(t) /\ \A u \in Th : u # t => ~Deep(u)
             /\ IF Runner \in {0, t} THEN TRUE ELSE IF ~Busy(Runner) THEN TRUE ELSE Switches < Turns
Top(t) == stacks[t][Len(stacks[t])]
Step(t) == /\ MayRun(t)
           /\ LET f == Advance(Top(t))
                  d == Len(stacks[t])
              IN /\ plan' = Append(plan, <<t, d>>)
                 /\ IF Ready(f) THEN /\ stacks' = [stacks EXCEPT ![t] = SubSeq(@, 1, d-1)]
                                     /\ outs' = Append(outs, <<t, d, f.call, Whole(f)>>)
                    ELSE stacks' = [stacks EXCEPT ![t][d] = f] /\ UNCHANGED outs
Inside == Cardinality({k \in 2..Len(plan) : Len(plan[k]) = 3})
Nest(t) == /\ MayRun(t) /\ ~Deep(t) /\ Top(t).acc # <<>> /\ Inside < Inner
           /\ \E c \in Calls : /\ stacks' = [stacks EXCEPT ![t] = Append(@, FrameOf(c))]
                               /\ plan' = Append(plan, <<t, 0, c>>)
           /\ UNCHANGED outs
Next == \E t \in Th : Step(t) \/ Nest(t)
Spec == Init /\ [][Next]_<<stacks, outs, plan>>
Finished == \A t \in Th : ~Busy(t)
\* ------------------------------------------------------------------ the design
OwnResults == \A k \in 1..Len(outs) : outs[k][4] = Alone(outs[k][3]) /\ outs[k][4] = Meant(outs[k][3])
\* what a parse has gathered are tokens of its own text
OwnInput == \A t \in Th : \A d \in 1..Len(stacks[t]) : LET f == stacks[t][d] IN
              f.acc = (IF f.call[1] = "parse" THEN SubSeq(Lex(f.call[2]), 1, Len(f.acc)) ELSE SubSeq(InputOf(f.call), 1, Len(f.acc)))
AllAnswered == Finished => Len(outs) = N + Inside
\* a step changes one thread only, and there only the frame on top
Apart == [][\E t \in Th : /\ \A u \in Th : u # t => stacks'[u] = stacks[u]
                          /\ LET d == Len(stacks[t]) - 1 IN SubSeq(stacks'[t], 1, d) = SubSeq(stacks[t], 1, d)]_<<stacks, outs, plan>>
Emit == Finished => PrintT(ToJson(<<plan[1], Tail(plan), outs>>))
=============================================================================
