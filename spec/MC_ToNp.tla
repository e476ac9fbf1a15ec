-------------------------------- MODULE MC_ToNp ------------------------------
(***************************************************************************)
(* The terms of MC_Types converted to NumPy.                               *)
(***************************************************************************)
EXTENDS MC_Types, JudgeNumPy
\* what NumPy takes comes back as a datashape of the same shape
BackShape == LET r == ToNp(T) IN
             (r[1] = "ok" /\ \A i \in 1..Len(r[2][1]) : NSgn(r[2][1][i]) >= 0)
                => LET b == FromNp(r[2][1], r[2][2]) IN b[1] = "ok" => Len(DimsOf(b[2])) = Len(DimsOf(T))
\* converting what came back changes nothing more
BackStable == LET r == ToNp(T) IN
             (r[1] = "ok" /\ \A i \in 1..Len(r[2][1]) : NSgn(r[2][1][i]) >= 0)
                => LET b == FromNp(r[2][1], r[2][2]) IN b[1] = "ok" => ToNp(b[2]) = NpOk(<<r[2][1], Told(r[2][2])>>)
EmitNp == PrintT(ToJson(<<T, ToNp(T), ToDt(T)>>))
=============================================================================
