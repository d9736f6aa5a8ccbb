------------------------------ MODULE MCReplay -------------------------------
(* Sessions from a file.                                                       *)
EXTENDS Converter
Jobs == JsonDeserialize(IOEnv.JOBS)
Init == \E i \in 1..Len(Jobs) : InitWith({Jobs[i]})
Nxt == Read \/ NextCall \/ Report
Spec == Init /\ [][Nxt]_vars
=============================================================================
