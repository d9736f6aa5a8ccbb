------------------------------- MODULE Binding -------------------------------
(* What a call of the Python module gives, from what the conversions give: the *)
(* output, or the error shown as HTML, or raised as an exception.              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)
  \* [id, op, go (errors become HTML), fancy, results: sequence of [ok, output, html, message, report (before and after the name of the source)], seen: [how, what]]
VARIABLES job, done
vars == <<job, done>>
J == Jobs[job]
R == J.results

Name(i) == IF J.op = "all" THEN "input" \o ToString(i - 1) ELSE IF J.op = "new" THEN "macro" \o ToString(J.index) ELSE "input"
Exception(i) == IF J.fancy THEN "\n" \o R[i].report[1] \o Name(i) \o R[i].report[2]
                ELSE (IF J.op = "one" THEN "" ELSE Name(i) \o ":") \o R[i].message
Failed == {i \in 1..Len(R) : ~R[i].ok}
Shown(i) == IF R[i].ok THEN R[i].output ELSE R[i].html
Expected ==
  IF Failed # {} /\ (~J.go \/ J.op = "new")
  THEN [how |-> "LatexError", what |-> <<Exception(CHOOSE i \in Failed : \A j \in Failed : i <= j)>>]
  ELSE [how |-> "returned", what |-> [i \in 1..Len(R) |-> Shown(i)]]
Init == job \in 1..Len(Jobs) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED job
         /\ (J.seen # Expected => PrintT("@@" \o ToJson([id |-> J.id, want |-> Expected])))
Spec == Init /\ [][Judge]_vars
=============================================================================
