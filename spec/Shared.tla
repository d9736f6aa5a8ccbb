------------------------------- MODULE Shared --------------------------------
(* One converter which several threads use. A history is what was seen of it:  *)
(* the calls, when each began and ended, and what it gave. The converter is    *)
(* right if the calls can be put in an order in which each gives what was seen *)
(* and none comes after one which began when it had ended already.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)
  \* [id, calls: sequence of [op, rows, key, val, from, to, seen]]
VARIABLES job, made, st, order
vars == <<job, made, st, order>>
view == <<job, made, st>>
H == Jobs[job].calls
N == Len(H)

Failure == <<0 - 9>>
Unknown == 0 - 1
Fresh == [n |-> 0, lab |-> [x \in {} |-> 0], def |-> [x \in {} |-> 0]]
Numbers(from, k) == [i \in 1..k |-> from + i]
(* What a call gives, and the state after it.                                  *)
Effect(c, s) ==
  LET counted == [s EXCEPT !.n = @ + c.rows] IN
  CASE c.op = "number" -> [gives |-> Numbers(s.n, c.rows), then |-> [counted EXCEPT !.lab = (c.key :> counted.n) @@ @]]
    [] c.op = "fail" -> [gives |-> Failure, then |-> counted]
    [] c.op = "ref" -> [gives |-> <<IF c.key \in DOMAIN s.lab THEN s.lab[c.key] ELSE Unknown>>, then |-> s]
    [] c.op = "define" -> [gives |-> <<>>, then |-> [s EXCEPT !.def = (c.key :> c.val) @@ @]]
    [] c.op = "use" -> [gives |-> IF c.key \in DOMAIN s.def THEN <<s.def[c.key]>> ELSE Failure, then |-> s]
    [] c.op = "swap" -> IF c.key \in DOMAIN s.def THEN [gives |-> <<s.def[c.key]>>, then |-> [s EXCEPT !.def = (c.key :> c.val) @@ @]]
                        ELSE [gives |-> Failure, then |-> s]
    [] c.op = "reset" -> [gives |-> <<>>, then |-> Fresh]
    \* with a state of its own, a call neither sees nor changes that of the others
    [] c.op = "local number" -> [gives |-> Numbers(0, c.rows), then |-> s]
    [] c.op = "local ref" -> [gives |-> <<Unknown>>, then |-> s]
    [] c.op = "local define" -> [gives |-> <<c.val>>, then |-> s]
    [] c.op = "local use" -> [gives |-> Failure, then |-> s]
    [] c.op = "all" -> [gives |-> Numbers(0, c.rows) \o <<c.rows>>, then |-> s]

Init == job \in 1..Len(Jobs) /\ made = {} /\ st = Fresh /\ order = <<>>
May(i) == \A j \in 1..N : j \notin made /\ j # i => H[i].from < H[j].to
Take == \E i \in (1..N) \ made :
          /\ May(i)
          /\ LET e == Effect(H[i], st) IN e.gives = H[i].seen /\ st' = e.then
          /\ made' = made \cup {i} /\ order' = Append(order, i) /\ UNCHANGED job
Explained == /\ made = 1..N /\ made' = {0} /\ PrintT("@@" \o ToJson([id |-> Jobs[job].id, order |-> order]))
             /\ UNCHANGED <<job, st, order>>
Next == Take \/ Explained
Spec == Init /\ [][Next]_vars

(* Numbers are handed out once between two resets.                             *)
Given == {i \in made \ {0} : H[i].op = "number"}
Once == (\A i \in 1..N : H[i].op # "reset") =>
          \A i, j \in Given : i # j => {H[i].seen[k] : k \in 1..Len(H[i].seen)} \cap {H[j].seen[k] : k \in 1..Len(H[j].seen)} = {}
=============================================================================
