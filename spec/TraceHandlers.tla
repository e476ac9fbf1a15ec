----------------------------- MODULE TraceHandlers ----------------------------
(***************************************************************************)
(* Validation of recorded sessions in which a user registers handlers for  *)
(* classes and then discovers and validates values of them.                *)
(***************************************************************************)
EXTENDS Handlers, JudgeChecks, Json, IOUtils, TLCExt

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, H, V
JudgeOp(e, h, v) ==
  CASE e.op[1] = "discover" ->
         LET r == DiscoveredWith(h, e.op[2])
         IN (IF r = NpAny THEN {}
             ELSE IF r[1] = "ok" THEN (IF e.out[1] # "ok" THEN {"handlers.refused"} ELSE IF e.out = r THEN {} ELSE {"handlers.discover"})
             ELSE IF e.out[1] = "ok" THEN {"handlers.accepted"} ELSE {})
            \cup (IF e.out[1] = "hang" THEN {"handlers.hangs"} ELSE {})
    [] e.op[1] = "validate" ->
         LET r == ValidatedWith(v, e.op[2], e.op[3])
         IN IF OpenSchema(e.op[2]) \/ Undescribed(e.op[3]) THEN {}
            ELSE IF e.out \notin {"yes", "no"} THEN (IF r = "any" THEN {} ELSE {"handlers.fails"}) ELSE IF r = "any" \/ r = e.out THEN {} ELSE {"handlers.validate"}
    [] OTHER -> {}
Init == l = 1 /\ H = NoHandlers /\ V = {}
Next == /\ l <= Len(Events)
        /\ LET e == Events[l]
               h0 == IF e.new THEN NoHandlers ELSE H
               v0 == IF e.new THEN {} ELSE V
               h1 == IF e.op[1] = "hd" THEN SetHandler(h0, e.op[2], e.op[3]) ELSE h0
               v1 == IF e.op[1] = "hv" THEN SetAnswer(v0, e.op[2], e.op[3], e.op[4]) ELSE v0
               bad == JudgeOp(e, h0, v0)
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
              /\ H' = h1
              /\ V' = v1
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, H, V>>
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
