-------------------------------- MODULE Cli ----------------------------------
(* The mathcore tool: an invocation, the files it meets, and what is left of   *)
(* them. A document is a sequence of pieces; what a piece does depends on what *)
(* was converted before it (definitions are shared by all files of a run).     *)
(* The order in which a directory lists its entries is not known.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)
  \* [id, nodes (sequence of [up, kind, html, doc, read, write]), args (sets of options), stdin (a document)]
  \* The options that an invocation has: [target, write, recursive, dry, go, escaped, formula, inline, block, config, default]
VARIABLES job, args, phase, defs, todo, cur, at, order, files, exit, stdout
vars == <<job, args, phase, defs, todo, cur, at, order, files, exit, stdout>>
J == Jobs[job]
Nodes == J.nodes
Stdin == 0
Missing == 0 - 1
None == 0 - 2
Elem(s) == {s[i] : i \in 1..Len(s)}

Has(x) == x # ""
Doc(n) == IF n = Stdin THEN J.stdin ELSE Nodes[n].doc
Entries(n) == {m \in 1..Len(Nodes) : Nodes[m].up = n}

UsageError ==
  \/ Has(args.formula) /\ (args.target # None \/ args.write \/ args.recursive \/ args.dry \/ args.go \/ args.escaped)
  \/ args.write /\ args.recursive
  \/ (args.inline \/ args.block) /\ args.target # None
  \/ args.inline /\ args.block
(* What a configuration is: good ones define a macro and show unknown commands.*)
Config == IF args.config # "none" THEN args.config ELSE args.default
ConfigExit == CASE args.config \in {"missing", "nowhere"} -> 3
                [] Config \in {"broken", "type", "directory", "bytes", "below"} -> 4
                [] Config = "macro" -> 2
                [] OTHER -> 0
Good == Config = "good"

(* The conversion of one formula.                                              *)
Converts(p, d) == CASE p = "fault" -> FALSE
                    [] p = "needs" -> d \/ Good
                    [] p = "unknown" \/ p = "macro" -> Good
                    [] OTHER -> TRUE
IsFormula(p) == p \in {"good", "fault", "defines", "needs", "unknown", "macro", "number"}
DelimiterError(p) == p \in {"unclosed", "mismatched", "nested"}
Changes(doc) == \E i \in 1..Len(doc) : IsFormula(doc[i])

Init ==
  /\ job \in 1..Len(Jobs)
  /\ LET o == J.args IN
     args \in [target: Elem(o.target), write: Elem(o.write), recursive: Elem(o.recursive), dry: Elem(o.dry), go: Elem(o.go), escaped: Elem(o.escaped),
               formula: Elem(o.formula), inline: Elem(o.inline), block: Elem(o.block), config: Elem(o.config), default: Elem(o.default)]
  /\ phase = "start" /\ defs = FALSE /\ todo = <<>> /\ cur = None /\ at = 1 /\ order = <<>>
  /\ files = [n \in 1..Len(Nodes) |-> "old"] /\ exit = None /\ stdout = <<>>

End(code) == phase' = "end" /\ exit' = code
Same(vs) == UNCHANGED <<job, args>> /\ UNCHANGED vs
Start ==
  /\ phase = "start"
  /\ IF UsageError THEN End(2) ELSE IF ConfigExit # 0 THEN End(ConfigExit) ELSE phase' = "open" /\ exit' = exit
  /\ Same(<<defs, todo, cur, at, order, files, stdout>>)
(* What is to be converted.                                                    *)
IsPlainFile(n) == Nodes[n].kind = "file"
Open ==
  /\ phase = "open"
  /\ CASE args.target = None \/ args.target = Stdin -> cur' = Stdin /\ phase' = (IF Has(args.formula) THEN "convert" ELSE "read") /\ UNCHANGED <<todo, exit>>
       [] args.recursive -> IF args.target = Missing THEN End(1) /\ UNCHANGED <<cur, todo>> ELSE todo' = <<{args.target}>> /\ phase' = "next" /\ UNCHANGED <<cur, exit>>
       [] args.target = Missing -> End(1) /\ UNCHANGED <<cur, todo>>
       [] OTHER -> cur' = args.target /\ phase' = "read" /\ UNCHANGED <<todo, exit>>
  /\ Same(<<defs, at, order, files, stdout>>)
(* The next entry of the directories which have been entered.                  *)
Descend ==
  /\ phase = "next"
  /\ IF todo = <<>> THEN End(0) /\ UNCHANGED <<todo, cur>>
     ELSE LET top == todo[Len(todo)] rest == SubSeq(todo, 1, Len(todo) - 1) IN
          IF top = {} THEN todo' = rest /\ UNCHANGED <<phase, exit, cur>>
          ELSE \E n \in top :
               LET left == Append(rest, top \ {n}) IN
               IF Nodes[n].kind = "dir"
               THEN IF Nodes[n].read THEN todo' = Append(left, Entries(n)) /\ UNCHANGED <<phase, exit, cur>> ELSE End(1) /\ UNCHANGED <<todo, cur>>
               ELSE IF IsPlainFile(n) /\ Nodes[n].html THEN todo' = left /\ cur' = n /\ phase' = "read" /\ UNCHANGED exit
               ELSE todo' = left /\ UNCHANGED <<phase, exit, cur>>
  /\ Same(<<defs, at, order, files, stdout>>)
Readable(n) == "bytes" \notin Elem(Doc(n)) /\ (n = Stdin \/ (IsPlainFile(n) /\ Nodes[n].read))
Read ==
  /\ phase = "read"
  /\ IF Readable(cur) THEN phase' = "convert" /\ at' = 1 /\ order' = Append(order, cur) /\ exit' = exit ELSE End(1) /\ UNCHANGED <<at, order>>
  /\ Same(<<defs, todo, cur, files, stdout>>)
(* Without a document, all of the input is one formula.                        *)
Single == args.target = None
Pieces == IF Single /\ Has(args.formula) THEN <<args.formula>> ELSE Doc(cur)
Convert ==
  /\ phase = "convert"
  /\ IF at > Len(Pieces) THEN phase' = "write" /\ UNCHANGED <<defs, exit, at>>
     ELSE LET p == Pieces[at] IN
          IF IsFormula(p)
          THEN IF Converts(p, defs) \/ args.go THEN defs' = (defs \/ p = "defines") /\ at' = at + 1 /\ UNCHANGED <<phase, exit>> ELSE End(2) /\ UNCHANGED <<defs, at>>
          ELSE IF DelimiterError(p) THEN End(2) /\ UNCHANGED <<defs, at>>
          ELSE at' = at + 1 /\ UNCHANGED <<phase, defs, exit>>
  /\ Same(<<todo, cur, order, files, stdout>>)
InPlace == cur # Stdin /\ (args.write \/ args.recursive)
Write ==
  /\ phase = "write"
  /\ IF cur = Stdin THEN stdout' = <<cur>> /\ End(0) /\ UNCHANGED files
     ELSE LET onwards == IF args.recursive THEN phase' = "next" /\ exit' = exit ELSE End(0) IN
          IF args.dry THEN onwards /\ UNCHANGED <<files, stdout>>
          ELSE IF ~InPlace THEN stdout' = <<cur>> /\ onwards /\ UNCHANGED files
          ELSE IF ~Changes(Doc(cur)) THEN onwards /\ UNCHANGED <<files, stdout>>
          ELSE IF ~Nodes[cur].write THEN End(1) /\ UNCHANGED <<files, stdout>>
          ELSE files' = [files EXCEPT ![cur] = "new"] /\ onwards /\ UNCHANGED stdout
  /\ Same(<<defs, todo, cur, at, order>>)
Printed == /\ phase = "end" /\ phase' = "printed"
           /\ PrintT("@@" \o ToJson([id |-> J.id, args |-> args, exit |-> exit, order |-> order, files |-> files, stdout |-> stdout]))
           /\ Same(<<defs, todo, cur, at, order, files, exit, stdout>>)
Next == Start \/ Open \/ Descend \/ Read \/ Convert \/ Write \/ Printed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Which files may be changed at all: not by how the tool goes about it.       *)
RECURSIVE Below(_, _)
Below(n, t) == n = t \/ (n > 0 /\ Nodes[n].up # 0 /\ Below(Nodes[n].up, t))
Asked == IF UsageError \/ args.dry \/ Has(args.formula) THEN {}
         ELSE {n \in 1..Len(Nodes) : /\ IsPlainFile(n)
                                     /\ IF args.recursive THEN Nodes[n].html /\ Below(n, args.target) ELSE args.write /\ n = args.target}
OnlyAsked == \A n \in 1..Len(Nodes) : files[n] = "new" => n \in Asked /\ Changes(Nodes[n].doc)
(* A file at which the tool stops keeps its old content, and the tool fails.   *)
Faulty(n) == ~Readable(n) \/ (\E i \in 1..Len(Doc(n)) : DelimiterError(Doc(n)[i]) \/ (IsFormula(Doc(n)[i]) /\ ~args.go /\ Doc(n)[i] = "fault"))
FaultyKept == \A n \in 1..Len(Nodes) : IsPlainFile(n) /\ Faulty(n) => files[n] = "old"
StoppedKept == phase = "end" /\ exit # 0 /\ cur > 0 /\ (at <= Len(Doc(cur)) \/ todo = <<>>) => files[cur] = "old"
(* Success means that all of the files which were to be converted are.         *)
AllDone == phase = "end" /\ exit = 0 /\ ~Has(args.formula) =>
             /\ \A n \in Asked : ~Faulty(n) /\ (files[n] = "new" <=> Changes(Nodes[n].doc))
             /\ args.target # Missing
FailsSilently == phase = "end" /\ exit # 0 => stdout = <<>>
Codes == exit \in {None, 0, 1, 2, 3, 4}
=============================================================================
