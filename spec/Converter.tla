------------------------------ MODULE Converter ------------------------------
(* A converter and its history: snippets are converted one after the other,    *)
(* with the shared state of a document or with a state of their own, or all at *)
(* once. A run goes through one session: a configuration and a list of calls.  *)
EXTENDS MathParser

VARIABLES ses,     \* the session: [id, cfg: [ign, glob, max, pre, uni, unrel], macros, ops]
          cfg,     \* the commands of the configuration
          pos,     \* which call is being made
          st,      \* the shared state: [eq, lab, doc]
          m,       \* the machine which reads the current snippet
          batch,   \* the snippets that were read so far, if they are read all at once
          outs     \* the outcomes of the calls so far
vars == <<ses, cfg, pos, st, m, batch, outs>>

EmptyFn == [x \in {} |-> 0]
Fresh == [eq |-> 0, lab |-> EmptyFn, doc |-> EmptyFn]
Idle == [pc |-> "idle"]

----------------------------------------------------------------------------
(* The macros of the configuration                                             *)
(* A macro is a pair: its name and its definition, both as characters.         *)
ValidName(cs) == Len(cs) = 1 \/ (cs # <<>> /\ \A i \in 1..Len(cs) : cs[i] \in AsciiLetters)
RECURSIVE CfgBody(_, _, _)
(* [body, na, cls, err]                                                        *)
CfgBody(toks, i, r) ==
  LET tk == toks[i] IN
  IF tk.nm = "" /\ tk.t.k = "eoi" THEN r
  ELSE IF IsLexErr(tk) THEN [r EXCEPT !.err = <<tk>>]
  ELSE IF tk.nm # ""
  THEN CfgBody(toks, i + 1, [r EXCEPT !.body = Append(@, QTok(Kind("none"), tk.nm, 0, 0, FALSE)),
                             !.cls = IF @ = "" /\ IsBuiltin(ses.cfg, tk.nm) THEN ClassOf(Builtin(ses.cfg, tk.nm)) ELSE @])
  ELSE IF tk.t.k = "param"
  THEN CfgBody(toks, i + 1, [r EXCEPT !.body = Append(@, QFix([Kind("carg") EXCEPT !.na = tk.t.na])),
                             !.na = IF tk.t.na >= @ THEN tk.t.na + 1 ELSE @,
                             !.cls = IF @ = "" THEN "-" ELSE @])
  ELSE CfgBody(toks, i + 1, [r EXCEPT !.body = Append(@, QFix(tk.t)), !.cls = IF @ = "" THEN ClassOf(tk.t) ELSE @])
CfgErr(msg, s, e, idx) == [err |-> msg, s |-> s, e |-> e, idx |-> idx]
(* gives [f: the commands, err]                                                *)
RECURSIVE CfgMacros(_, _, _)
CfgMacros(ms, i, f) ==
  IF i > Len(ms) THEN [f |-> f, err |-> <<>>]
  ELSE IF ~ValidName(ms[i][1])
  THEN [f |-> f, err |-> <<CfgErr("Invalid macro name: " \o Q("\\" \o Str(ms[i][1])) \o ".", 0, 0, i - 1)>>]
  ELSE LET b == CfgBody(Lex(ms[i][2]), 1, [body |-> <<>>, na |-> 0, cls |-> "", err |-> <<>>])
           t == [Kind("cref") EXCEPT !.na = b.na, !.cls = OwnClass(b.cls), !.body = b.body]
       IN IF b.err # <<>> THEN [f |-> f, err |-> <<CfgErr(b.err[1].t.x, b.err[1].s, b.err[1].e, i - 1)>>]
          ELSE CfgMacros(ms, i + 1, f @@ (Str(ms[i][1]) :> t))     \* the first of the same name counts
(* The first name in the bodies which is defined nowhere.                      *)
RECURSIVE FirstUnknown(_, _, _, _)
FirstUnknown(ms, i, j, f) ==
  IF i > Len(ms) THEN <<>>
  ELSE LET toks == Lex(ms[i][2]) IN
       IF j > Len(toks) THEN FirstUnknown(ms, i + 1, 1, f)
       ELSE IF toks[j].t.k = "unres" THEN <<CfgErr(MsgUnknownCmd(""), toks[j].s, toks[j].e, i - 1)>>
       ELSE IF toks[j].nm # "" /\ ~IsBuiltin(ses.cfg, toks[j].nm) /\ toks[j].nm \notin DOMAIN f
       THEN <<CfgErr(MsgUnknownCmd(toks[j].nm), toks[j].s, toks[j].e, i - 1)>>
       ELSE FirstUnknown(ms, i, j + 1, f)
Config(ms) ==
  LET r == CfgMacros(ms, 1, EmptyFn) IN
  IF r.err # <<>> THEN r ELSE [f |-> r.f, err |-> FirstUnknown(ms, 1, 1, r.f)]

----------------------------------------------------------------------------
(* What a call gives                                                           *)
RECURSIVE AnyRef(_, _)
AnyRef(ns, lab) == \E i \in 1..Len(ns) : \E x \in Refs(ns[i]) : x \notin DOMAIN lab
Env0(lab) == [labels |-> lab, pre |-> ses.cfg.pre, ucls |-> "math-core-unknown-cmd"]
Good(ns, lab) ==
  [ok |-> RenderAll(ns, Env0(lab)), wref |-> AnyRef(ns, lab), wcmd |-> \E i \in 1..Len(ns) : HasUnk(ns[i])]
Bad(e) == [err |-> e.msg, s |-> e.s, e |-> e.e]

Op == ses.ops[pos]
Snippet == IF Op.op = "all" THEN Op.items[Len(batch) + 1] ELSE Op
Running == m.pc = "run"

Begin(state) == m' = Machine(Lex(Snippet.src), Snippet.block, state, cfg, ses.cfg)

StartGlobal == m.pc = "idle" /\ pos <= Len(ses.ops) /\ Op.op = "global" /\ Begin(st) /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>
StartLocal == m.pc = "idle" /\ pos <= Len(ses.ops) /\ Op.op = "local" /\ Begin(Fresh) /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>
StateOf(x) == [eq |-> x.eq, lab |-> x.lab, doc |-> x.doc]
Reset == m.pc = "idle" /\ pos <= Len(ses.ops) /\ Op.op = "reset"
         /\ st' = Fresh /\ pos' = pos + 1 /\ outs' = Append(outs, [done |-> TRUE])
         /\ UNCHANGED <<ses, cfg, m, batch>>
(* All at once: batch is a sequence of [ns or err, after].                     *)
StartAll ==
  m.pc = "idle" /\ pos <= Len(ses.ops) /\ Op.op = "all" /\ Len(batch) < Len(Op.items)
  /\ Begin(IF batch = <<>> THEN Fresh ELSE batch[Len(batch)].after)
  /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>

Read == Running /\ m' = Step(m) /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>

FinishOne ==
  m.pc \in {"done", "err"} /\ Op.op \in {"global", "local"}
  /\ outs' = Append(outs, IF m.pc = "err" THEN Bad(m.err) ELSE Good(Result(m), m.lab))
  /\ st' = (IF Op.op = "global" THEN StateOf(m) ELSE st)
  /\ pos' = pos + 1 /\ m' = Idle /\ UNCHANGED <<ses, cfg, batch>>
FinishItem ==
  m.pc \in {"done", "err"} /\ Op.op = "all"
  /\ batch' = Append(batch, [ns |-> IF m.pc = "err" THEN <<>> ELSE Result(m), err |-> IF m.pc = "err" THEN <<m.err>> ELSE <<>>,
                             after |-> StateOf(m)])
  /\ m' = Idle /\ UNCHANGED <<ses, cfg, pos, st, outs>>
FinishAll ==
  m.pc = "idle" /\ pos <= Len(ses.ops) /\ Op.op = "all" /\ Len(batch) = Len(Op.items)
  /\ LET lab == IF batch = <<>> THEN EmptyFn ELSE batch[Len(batch)].after.lab IN
     outs' = Append(outs, [all |-> [i \in 1..Len(batch) |-> IF batch[i].err # <<>> THEN Bad(batch[i].err[1]) ELSE Good(batch[i].ns, lab)]])
  /\ pos' = pos + 1 /\ batch' = <<>> /\ UNCHANGED <<ses, cfg, st, m>>
Dropped == m.pc = "skip" /\ pos' = Len(ses.ops) + 1 /\ m' = Idle /\ outs' = <<[skip |-> TRUE]>> /\ UNCHANGED <<ses, cfg, st, batch>>

----------------------------------------------------------------------------
(* The end: the predictions for the whole session are written out, to be       *)
(* compared with what the implementation does.                                 *)
Report ==
  m.pc = "idle" /\ pos = Len(ses.ops) + 1
  /\ PrintT("@@" \o ToJson([id |-> ses.id, outs |-> outs]))
  /\ m' = [pc |-> "end"] /\ UNCHANGED <<ses, cfg, pos, st, batch, outs>>

InitWith(S) ==
  /\ ses \in S
  /\ LET c == Config(ses.macros) IN
     /\ cfg = c.f
     /\ pos = (IF c.err = <<>> THEN 1 ELSE Len(ses.ops) + 1)
     /\ outs = (IF c.err = <<>> THEN <<>> ELSE <<[new |-> c.err[1]]>>)
  /\ st = Fresh /\ m = Idle /\ batch = <<>>

NextCall == StartGlobal \/ StartLocal \/ StartAll \/ Reset \/ FinishOne \/ FinishItem \/ FinishAll \/ Dropped
=============================================================================
