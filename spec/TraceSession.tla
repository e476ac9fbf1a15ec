----------------------------- MODULE TraceSession -----------------------------
(***************************************************************************)
(* Validation of recorded histories against Session.                       *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils, TLCExt
SEvents == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
SBad(e) == CASE e.k = "call" -> SCallBad(S, e.key, e.out, e.ref)
             [] e.k = "look" -> (IF e.pics = S.heap THEN {} ELSE {"changed"}) \cup (IF e.rows = S.rows THEN {} ELSE {"equalities"})
             [] e.k = "args" -> IF e.after = e.before THEN {} ELSE {"argument"}
             [] OTHER -> {}
SNext(e) == CASE e.k = "call" -> SCall(S, e.key, e.out)
              [] e.k = "keep" -> SKeep(S, e.pic, e.row)
              [] e.k = "fresh" -> SFresh(S)
              [] OTHER -> S
Init == l = 1 /\ S = Session0
Next == /\ l <= Len(SEvents)
        /\ LET e == SEvents[l]
               bad == SBad(e)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
              /\ S' = SNext(e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, S>>
Accepted == TLCGet("stats").diameter - 1 = Len(SEvents)
=============================================================================
