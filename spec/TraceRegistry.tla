----------------------------- MODULE TraceRegistry ----------------------------
(***************************************************************************)
(* Validation of recorded histories of registrations, symbol tables and    *)
(* parses: the machine of Registry is stepped along the history and its    *)
(* outcomes are compared with those recorded.                              *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils, TLCExt

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, R
Pairs(f) == {<<n, f[n]>> : n \in DOMAIN f}
Differs(e, r) ==
  LET out == e.out
      k == e.op[1]
  IN CASE r[1] = "any" -> {}
       [] r[1] \in {"exc", "syn"} -> IF out[1] \in {"exc", "syn"} THEN {} ELSE {k \o ".accepted"}
       [] r[1] = "names" -> IF RangeOf(out[2]) = r[2] /\ RangeOf(out[3]) = r[3] THEN {} ELSE {"registry.names"}
       [] r[1] = "symbols" -> IF out[1] = "ok" /\ RangeOf(out[2]) = Pairs(r[2]) /\ RangeOf(out[3]) = r[3] /\ RangeOf(out[4]) = Pairs(r[4])
                                 /\ RangeOf(out[5]) = r[5] THEN {} ELSE {"table.symbols"}
       [] out[1] \in {"exc", "syn"} -> {k \o ".refused"}
       [] OTHER -> IF out = r THEN {} ELSE {k \o ".value"}
Init == l = 1 /\ R = Registry0
Next == /\ l <= Len(Events)
        /\ LET e == Events[l]
               \* a new session: what was done to the symbols of dshape is undone, other tables are forgotten
               R0 == IF e.fresh THEN [R EXCEPT !.tables = <<DefaultSym>>] ELSE R
               s == Step(R0, e.op, l)
               bad == Differs(e, s[2])
           IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
              /\ R' = s[1]
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, R>>
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
