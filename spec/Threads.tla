-------------------------------- MODULE Threads ------------------------------
(***************************************************************************)
(* Calls at the same time, and calls inside calls.  A thread is a stack of *)
(* frames, a frame is a call under way with what it has done so far:       *)
(*   [call |-> <<kind, ..>>, acc |-> .., at |-> position in its input]     *)
(* A step of a thread takes the next piece of the input of its top frame;  *)
(* the last step returns.  All that a step reads and writes is in that     *)
(* frame, so whatever the others do a call returns what it returns alone.  *)
(***************************************************************************)
EXTENDS JudgeDiscover, Printer

\* -------------------------------------------------------- calls and their steps
\*   <<"parse", text>> <<"print", T>> <<"cat", Ts>> <<"lowest", Ts>> <<"unite", Ts>> <<"promote", <<T, U>>>> <<"discover", <<"seq", items>>>>
\*   <<"index", T, ix>>
FrameOf(call) == [call |-> call, acc |-> <<>>, at |-> 1]
InputOf(call) == CASE call[1] \in {"cat", "lowest", "unite", "promote"} -> call[2]
                   [] call[1] = "discover" -> call[2][2]
                   [] OTHER -> <<call, call, call>>         \* in three parts
\* one more token of a text
NextToken(f) == LET s == f.call[2]
                    j == SkipWs(s, f.at)
                    e == IF f.acc = <<>> THEN 0 ELSE f.acc[Len(f.acc)][3]
                IN IF j > Len(s) THEN <<"EOF", e, e, 0>> ELSE TokenAt(s, j)
Advance(f) == IF f.call[1] = "parse"
              THEN LET t == NextToken(f) IN [f EXCEPT !.acc = Append(@, t), !.at = IF t[1] \in {"EOF", "ERR"} THEN Len(f.call[2]) + 2 ELSE t[3] + 1]
              ELSE [f EXCEPT !.acc = Append(@, InputOf(f.call)[f.at]), !.at = @ + 1]
Ready(f) == IF f.call[1] = "parse" THEN f.at = Len(f.call[2]) + 2 ELSE f.at = Len(InputOf(f.call)) + 1
\* what a frame returns, from what it has gathered
ParsedToks(toks) == LET r == ParseToks(toks, DefaultSym) IN IF r[1] = "ok" /\ ManyWildcards(r[2]) THEN ExcR ELSE r
Whole(f) ==
  LET k == f.call[1]
  IN CASE k = "parse" -> ParsedToks(f.acc)
       [] k = "print" -> NpOk(<<"text", Unparse(f.call[2])>>)
       [] k = "cat" -> CatDs(f.acc)
       [] k = "lowest" -> Lowest(f.acc)
       [] k = "unite" -> LET r == BaseOf(f.acc) IN IF r[1] = "ok" THEN Counted(Len(f.acc), r) ELSE r
       [] k = "promote" -> Promote(f.acc[1], f.acc[2], TRUE)
       [] k = "discover" -> Discovered(<<"seq", f.acc>>)
       [] k = "index" -> Sub(f.call[2], f.call[3])
\* the same call on its own
RECURSIVE Runs(_)
Runs(f) == IF Ready(f) THEN Whole(f) ELSE Runs(Advance(f))
Alone(call) == Runs(FrameOf(call))
\* ... which is what the calls are specified to give
Meant(call) ==
  LET k == call[1]
  IN CASE k = "parse" -> DShape(call[2]) [] k = "discover" -> Discovered(call[2]) [] k = "cat" -> CatDs(call[2]) [] OTHER -> Alone(call)
=============================================================================
