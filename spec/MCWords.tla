------------------------------ MODULE MCWords -------------------------------
(* All sessions of a bounded size over a small vocabulary: an editor writes    *)
(* snippets out of words and submits them, then the converter runs.            *)
(* The bounds come from a file, a sequence of scopes: [id, cfg, macros, words, *)
(* max (words in a snippet), calls (calls in a session), pre, post, kinds (of  *)
(* calls), block (display modes), big (read a snippet in one step)].           *)
(* A word is a record: its characters cs, and what the properties say about it *)
(* (module Properties): its kind k, a value v, items it.                       *)
EXTENDS Converter

Scopes == JsonDeserialize(IOEnv.JOBS)
VARIABLES sc, ed       \* the scope; the words of each snippet
mcvars == <<vars, sc, ed>>

Scope == Scopes[sc]
Word(w) == Scope.words[w]
RECURSIVE Joined(_, _)
Joined(ws, i) == IF i > Len(ws) THEN <<>> ELSE Word(ws[i]).cs \o Joined(ws, i + 1)
Source(ws) == Scope.pre \o Joined(ws, 1) \o Scope.post
Editing == m.pc = "edit"

MCInit ==
  /\ sc \in 1..Len(Scopes)
  /\ ed = << <<>> >>
  /\ ses = [id |-> Scope.id, cfg |-> Scope.cfg, macros |-> Scope.macros, ops |-> <<>>]
  /\ LET c == Config(ses.macros) IN cfg = c.f /\ Assert(c.err = <<>>, "macros")
  /\ pos = 1 /\ st = Fresh /\ m = [pc |-> "edit"] /\ batch = <<>> /\ outs = <<>>

Write ==
  /\ Editing /\ Len(ed[Len(ed)]) < Scope.max
  /\ \E w \in 1..Len(Scope.words) : ed' = [ed EXCEPT ![Len(ed)] = Append(@, w)]
  /\ UNCHANGED <<vars, sc>>
(* A batch consists of the words; a reset has none.                            *)
CallOf(kind, ws, b) ==
  CASE kind = "reset" -> [op |-> "reset"]
    [] kind = "all" -> [op |-> "all", items |-> [i \in 1..Len(ws) |-> [src |-> Scope.pre \o Word(ws[i]).cs \o Scope.post, block |-> b]]]
    [] OTHER -> [op |-> kind, src |-> Source(ws), block |-> b]
Submit ==
  /\ Editing
  /\ \E k \in 1..Len(Scope.kinds), b \in 1..Len(Scope.block) :
       /\ ses' = [ses EXCEPT !.ops = Append(@, CallOf(Scope.kinds[k], ed[Len(ed)], Scope.block[b]))]
       /\ (Scope.kinds[k] = "reset" => b = 1 /\ ed[Len(ed)] = <<>>)
  /\ \/ m' = Idle /\ UNCHANGED ed
     \/ Len(ed) < Scope.calls /\ ed' = Append(ed, <<>>) /\ UNCHANGED m
  /\ UNCHANGED <<sc, cfg, pos, st, batch, outs>>

RECURSIVE RunOn(_)
RunOn(x) == IF x.pc = "run" THEN RunOn(Step(x)) ELSE x
ReadAll == Running /\ m' = RunOn(m) /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>

ReportAll ==
  m.pc = "idle" /\ pos = Len(ses.ops) + 1
  /\ PrintT("@@" \o ToJson([id |-> ses.id, outs |-> outs, ops |-> [i \in 1..Len(ses.ops) |->
                IF ses.ops[i].op = "reset" THEN [op |-> "reset"]
                ELSE [op |-> ses.ops[i].op, w |-> ed[i],
                      block |-> IF ses.ops[i].op = "all" THEN ses.ops[i].items # <<>> /\ ses.ops[i].items[1].block ELSE ses.ops[i].block]]]))
  /\ m' = [pc |-> "end"] /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>

MCNext ==
  \/ Write \/ Submit
  \/ (IF Scope.big THEN ReadAll ELSE Read) /\ UNCHANGED <<sc, ed>>
  \/ (NextCall \/ ReportAll) /\ UNCHANGED <<sc, ed>>
MCSpec == MCInit /\ [][MCNext]_mcvars
(* A reader who goes on reading, for liveness.                                 *)
Fairness == WF_mcvars(Running /\ (IF Scope.big THEN ReadAll ELSE Read) /\ UNCHANGED <<sc, ed>>)
            /\ WF_mcvars((NextCall \/ ReportAll) /\ UNCHANGED <<sc, ed>>)
MCFair == MCSpec /\ Fairness
=============================================================================
