-------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* Datashapes as values in a long history of operations.  A state is       *)
(*   heap   the datashapes kept so far, each with all that can be seen of  *)
(*          it, and how they compare with each other                       *)
(*   memo   operation on arguments -> result                               *)
(* An operation leaves the heap as it is (it can be given more), and gives *)
(* the result it gives when nothing was done before.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Session0 == [heap |-> <<>>, rows |-> <<>>, memo |-> [k \in {} |-> <<>>]]
\* keep a datashape: what it looks like, and how it compares with those kept before
SKeep(S, pic, row) == [S EXCEPT !.heap = Append(@, pic), !.rows = Append(@, row)]
SLook(S, pics, rows) == pics = S.heap /\ rows = S.rows
\* key: operation and arguments; ref: the result when nothing was done before
SCallBad(S, key, out, ref) == (IF out = ref THEN {} ELSE {"history"})
                              \cup (IF key \in DOMAIN S.memo /\ S.memo[key] # out THEN {"repeated"} ELSE {})
SCall(S, key, out) == [S EXCEPT !.memo = IF key \in DOMAIN @ THEN @ ELSE (key :> out) @@ @]
\* a new session forgets the heap, what was answered stays
SFresh(S) == [S EXCEPT !.heap = <<>>, !.rows = <<>>]
=============================================================================
