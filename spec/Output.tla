------------------------------- MODULE Output --------------------------------
(* A reader of what came out of the converter, tag by tag: it accepts one      *)
(* well-formed math element and nothing else. A token is <<"<", name, names of *)
(* the attributes, is it closed at once>>, <<">", name>>, <<"t", "ws">> or     *)
(* <<"t", "text">>; whatever is none of them is <<"bad", where>>.              *)
EXTENDS Markup, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)        \* [id, toks]
VARIABLES job, at, stk, bad
vars == <<job, at, stk, bad>>

Frame(n) == [n |-> n, k |-> 0, pre |-> 0]
Init == job \in 1..Len(Jobs) /\ at = 1 /\ stk = <<Frame("")>> /\ bad = ""
Toks == Jobs[job].toks
Top == stk[Len(stk)]
Counted(child) == [stk EXCEPT ![Len(stk)] = [@ EXCEPT !.k = @ + 1, !.pre = IF child = "mprescripts" THEN Top.k + 1 ELSE @]]

Why(t) ==
  CASE t[1] = "<" ->
         IF t[2] \notin Elements THEN "an unknown element " \o t[2]
         ELSE IF ~MayContain(Top.n, t[2], Top.k + 1, Top.pre) THEN t[2] \o " in " \o Top.n
         ELSE IF ~AttributesOK(t[2], t[3]) THEN "the attributes of " \o t[2]
         ELSE IF t[4] /\ ~Complete(t[2], 0, 0) THEN "too few children in " \o t[2]
         ELSE ""
    [] t[1] = ">" ->
         IF Len(stk) = 1 \/ Top.n # t[2] THEN "an end tag " \o t[2] \o " where " \o Top.n \o " is open"
         ELSE IF ~Complete(Top.n, Top.k, Top.pre) THEN "wrong number of children in " \o Top.n
         ELSE ""
    [] t[1] = "t" -> IF (t[2] = "ws" /\ Len(stk) > 1) \/ MayHoldText(Top.n) THEN "" ELSE "text in " \o Top.n
    [] OTHER -> "not markup: " \o t[2]
Reject(why) == bad' = why /\ PrintT("@@" \o ToJson([id |-> Jobs[job].id, why |-> why, at |-> at])) /\ UNCHANGED <<job, at, stk>>
Read ==
  /\ bad = "" /\ at <= Len(Toks)
  /\ LET t == Toks[at] w == Why(t) IN
     IF w # "" THEN Reject(w)
     ELSE /\ at' = at + 1
          /\ stk' = CASE t[1] = "<" -> IF t[4] THEN Counted(t[2]) ELSE Append(Counted(t[2]), Frame(t[2]))
                      [] t[1] = ">" -> SubSeq(stk, 1, Len(stk) - 1)
                      [] OTHER -> stk
          /\ UNCHANGED <<job, bad>>
Finish ==
  /\ bad = "" /\ at = Len(Toks) + 1 /\ ~(Len(stk) = 1 /\ Top.k = 1)
  /\ Reject(IF Len(stk) > 1 THEN Top.n \o " is never closed" ELSE "no element")
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
StackOK == stk[1].n = "" /\ \A i \in 2..Len(stk) : stk[i].n \in Elements
=============================================================================
