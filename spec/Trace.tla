-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of a recorded trace: every event must be one that the        *)
(* specification allows.  Rejected events are printed with the clauses they*)
(* break and the rest of the trace is still checked.                       *)
(***************************************************************************)
EXTENDS JudgeLang, JudgeValues, JudgeIndex, JudgeNumPy, JudgeDiscover, JudgeChecks, Access, Json, IOUtils, TLCExt

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Judge(e) ==
  CASE e.k = "parse" -> JParse(e)
    [] e.k = "syn" -> JSyn(e)
    [] e.k = "errobj" -> JErrObj(e)
    [] e.k = "print" -> JPrint(e)
    [] e.k = "alias" -> JAlias(e)
    [] e.k = "const" -> JConst(e)
    [] e.k = "build" -> JBuild(e)
    [] e.k = "eq" -> JEq(e)
    [] e.k = "copy" -> JCopy(e)
    [] e.k = "index" -> JIndex(e)
    [] e.k = "subarray" -> JSubArray(e)
    [] e.k = "cat" -> JCat(e)
    [] e.k = "fromnp" -> JFromNp(e)
    [] e.k = "tonp" -> JToNp(e)
    [] e.k = "todt" -> JToDt(e)
    [] e.k = "discarr" -> JDiscArr(e)
    [] e.k = "promote" -> JPromote(e)
    [] e.k = "optionify" -> JOptionify(e)
    [] e.k = "text" -> JText(e)
    [] e.k = "discover" -> JDiscover(e)
    [] e.k = "lowest" -> JLowest(e)
    [] e.k = "unite" -> JUnite(e)
    [] e.k = "validate" -> JValidate(e)
    [] e.k = "subschema" -> JSubSchema(e)
    [] e.k = "pred" -> JPred(e)
    [] e.k = "collect" -> JCollect(e)
    [] e.k = "isdim" -> JIsDim(e)
    [] e.k = "setof" -> JSetOf(e)
    [] e.k = "set" -> JSet(e)
    [] e.k = "member" -> JMember(e)
    [] e.k = "super" -> JSuper(e)
    [] e.k = "max" -> JMax(e)
    [] e.k = "match" -> JMatch(e)
    [] e.k = "assert" -> JAssert(e)
    [] e.k = "read" -> JRead(e)

Init == l = 1
Next == /\ l <= Len(Events)
        /\ LET bad == Judge(Events[l])
           IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
