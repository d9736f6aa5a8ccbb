------------------------------ MODULE ErrorText ------------------------------
(* Where an error points and how it is shown. A record says what was seen of   *)
(* an error: the source (its characters and how many bytes each takes), the    *)
(* range in bytes, the plain message, and its renderings (HTML as tags).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)
VARIABLES job, done
vars == <<job, done>>
E == Jobs[job]

RECURSIVE Cat(_, _)
Cat(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i] \o Cat(cs, i + 1)
RECURSIVE Starts(_, _)
(* The offsets at which characters start, and the end.                         *)
Starts(i, at) == IF i > Len(E.len) THEN {at} ELSE {at} \cup Starts(i + 1, at + E.len[i])
Source == Cat(E.src, 1)
(* How many characters come before the place.                                  *)
Position == Cardinality({b \in Starts(1, 0) : b < E.start})
Message == ToString(Position) \o ": " \o E.err

RangeOK == E.start <= E.end /\ E.start \in Starts(1, 0) /\ E.end \in Starts(1, 0)
(* The HTML, tag by tag; attributes and text without their escapes.            *)
Element(tag, class) ==
  <<"<" \o tag, "class=" \o class, "title=" \o Message, "<code">>
  \o (IF E.src = <<>> THEN <<>> ELSE <<"text:" \o Source>>) \o <<">code", ">" \o tag>>
Faults ==
  {x \in {"range", "message", "html", "html_inline", "html_nocls", "report"} :
     ~CASE x = "range" -> RangeOK
        [] x = "message" -> E.msg = Message
        [] x = "html" -> E.html = Element("p", "my cls")
        [] x = "html_inline" -> E.html_inline = Element("span", "my cls")
        [] x = "html_nocls" -> E.html_nocls = Element("span", "math-core-error")
        [] x = "report" -> E.report}
Init == job \in 1..Len(Jobs) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED job
         /\ (Faults # {} => PrintT("@@" \o ToJson([id |-> E.id, faults |-> Faults, position |-> Position])))
Spec == Init /\ [][Judge]_vars
=============================================================================
