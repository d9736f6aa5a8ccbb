----------------------------- MODULE Properties ------------------------------
(* What is promised about a converter, stated without its parser: over the     *)
(* words of the snippets and over what comes out. Each property is an          *)
(* invariant of the states in which a session is over.                         *)
EXTENDS MCWords, Markup

Ended == m.pc = "end"
Calls == 1..Len(ses.ops)
IsOk(o) == "ok" \in DOMAIN o
IsErr(o) == "err" \in DOMAIN o
Kinds(i) == ses.ops[i].op
Words(i) == [j \in 1..Len(ed[i]) |-> Word(ed[i][j])]
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE CatAll(_, _)
CatAll(f, i) == IF i > Len(f) THEN <<>> ELSE f[i] \o CatAll(f, i + 1)
Attr(e, a) == LET is == {i \in 1..Len(e.a) : e.a[i][1] = a} IN IF is = {} THEN "" ELSE e.a[CHOOSE i \in is : TRUE][2]
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* The leaves of the output, in order: <<element, text>>.                      *)
RECURSIVE Leaves(_)
RECURSIVE LeavesAll(_, _)
Leaves(e) == IF e.c = <<>> THEN (IF e.x = "" THEN <<>> ELSE <<<<e.n, e.x>>>>) ELSE LeavesAll(e.c, 1)
LeavesAll(es, i) == IF i > Len(es) THEN <<>> ELSE Leaves(es[i]) \o LeavesAll(es, i + 1)
RECURSIVE Find(_, _)
RECURSIVE FindAll(_, _, _)
(* All elements of a name, in document order.                                  *)
Find(e, n) == (IF e.n = n THEN <<e>> ELSE <<>>) \o FindAll(e.c, 1, n)
FindAll(es, i, n) == IF i > Len(es) THEN <<>> ELSE Find(es[i], n) \o FindAll(es, i + 1, n)

(* Another way in which a snippet might be read.                               *)
ReadIt(src, block, state) == RunOn(Machine(Lex(src), block, state, cfg, ses.cfg))
ReadWith(src, block, state, opt) == RunOn(Machine(Lex(src), block, state, cfg, opt))
Outcome(x) == IF x.pc = "skip" THEN [skip |-> TRUE] ELSE IF x.pc = "err" THEN Bad(x.err) ELSE Good(Result(x), x.lab)
(* Equal up to the places of errors.                                           *)
Same(a, b) == \/ "skip" \in DOMAIN a \/ "skip" \in DOMAIN b
              \/ IsOk(a) /\ IsOk(b) /\ a = b
              \/ IsErr(a) /\ IsErr(b) /\ a.err = b.err

----------------------------------------------------------------------------
(* The converter itself: a machine which is well-formed in every state.        *)
MachineOK ==
  /\ m.pc \in {"edit", "idle", "run", "done", "err", "skip", "end"}
  /\ (m.pc \in {"run", "done", "err"} =>
        /\ m.exp \in 0..m.opt.max
        /\ m.sty \in {"D", "T", "S", "SS"}
        /\ m.eq >= 0
        /\ DOMAIN m.loc \cap {""} = {})
  /\ (m.pc = "run" => m.stk # <<>> \/ m.ret.k = "nodes")
  /\ (m.pc = "done" => m.stk = <<>> /\ "ns" \in DOMAIN m.ret)
NumbersNeverFall == [][m.pc = "run" /\ m'.pc \in {"run", "done", "err"} => m'.eq >= m.eq /\ DOMAIN m.lab \subseteq DOMAIN m'.lab]_mcvars
Terminates == [](m.pc = "run" => <>(m.pc \in {"done", "err", "skip"}))
EveryCallAnswered == Ended => Len(outs) = Len(ses.ops) \/ "skip" \in DOMAIN outs[1]

----------------------------------------------------------------------------
(* C01, C02: the numbers and references which the items of a snippet give.     *)
(* Items: k = "row": no (takes no number), tag, lab; k = "ref": lab            *)
ItemsOf(ws) == CatAll([j \in 1..Len(ws) |-> Word(ws[j]).it], 1)
Num0 == [eq |-> 0, lab |-> EmptyFn]
RECURSIVE NumItems(_, _, _)
(* r: [eq, lab, tags, ids, refs]                                               *)
NumItems(it, i, r) ==
  IF i > Len(it) \/ it[i].k = "fail" THEN r        \* what a snippet did before it failed stays
  ELSE LET x == it[i] IN
       IF x.k = "ref" THEN NumItems(it, i + 1, [r EXCEPT !.refs = Append(@, x.lab)])
       ELSE IF x.k # "row" THEN NumItems(it, i + 1, r)
       ELSE LET auto == x.tag = "" /\ ~x.no
                n == IF auto THEN r.eq + 1 ELSE r.eq
                tag == IF auto THEN ToString(n) ELSE x.tag
            IN NumItems(it, i + 1,
                 [r EXCEPT !.eq = n, !.tags = Append(@, IF tag = "" THEN "" ELSE "(" \o tag \o ")"),
                           !.ids = Append(@, IF tag = "" THEN "" ELSE x.lab),
                           !.lab = IF tag # "" /\ x.lab # "" THEN (x.lab :> tag) @@ @ ELSE @])
NumSnippet(it, s) == NumItems(it, 1, [eq |-> s.eq, lab |-> s.lab, tags |-> <<>>, ids |-> <<>>, refs |-> <<>>])
RECURSIVE NumBatch(_, _, _)
NumBatch(ws, i, s) ==
  IF i > Len(ws) THEN <<>> ELSE LET r == NumSnippet(Word(ws[i]).it, s) IN <<r>> \o NumBatch(ws, i + 1, [eq |-> r.eq, lab |-> r.lab])
(* What is expected of each call: a sequence of the above, one per snippet.    *)
RECURSIVE NumCalls(_, _)
NumCalls(i, s) ==
  IF i > Len(ses.ops) THEN <<>>
  ELSE CASE Kinds(i) = "reset" -> << <<>> >> \o NumCalls(i + 1, Num0)
         [] Kinds(i) = "local" -> << <<NumSnippet(ItemsOf(ed[i]), Num0)>> >> \o NumCalls(i + 1, s)
         [] Kinds(i) = "global" ->
              LET r == NumSnippet(ItemsOf(ed[i]), s) IN << <<r>> >> \o NumCalls(i + 1, [eq |-> r.eq, lab |-> r.lab])
         [] Kinds(i) = "all" ->
              LET b == NumBatch(ed[i], 1, Num0) lab == IF b = <<>> THEN EmptyFn ELSE b[Len(b)].lab IN
              << [j \in 1..Len(b) |-> [b[j] EXCEPT !.lab = lab]] >> \o NumCalls(i + 1, s)
(* What was seen.                                                              *)
NumCellOf(row) == row.c[Len(row.c)]
IsNumbered(tab) == Attr(tab, "style") = "width: 100%"
RECURSIVE RowsOfTabs(_, _)
RowsOfTabs(ts, i) == IF i > Len(ts) THEN <<>>
  ELSE (IF IsNumbered(ts[i]) THEN SelectSeq(ts[i].c, LAMBDA e : e.n = "mtr") ELSE <<>>) \o RowsOfTabs(ts, i + 1)
SeenRows(o) == RowsOfTabs(FindAll(o.ok, 1, "mtable"), 1)
SeenTags(o) == Map(LAMBDA r : LET c == NumCellOf(r) IN IF c.c = <<>> THEN "" ELSE c.c[1].x, SeenRows(o))
SeenIds(o) == Map(LAMBDA r : Attr(NumCellOf(r), "id"), SeenRows(o))
SeenRefs(o) == Map(LAMBDA a : <<Attr(a, "href"), a.x>>, FindAll(o.ok, 1, "a"))
OutsOf(i) == IF "all" \in DOMAIN outs[i] THEN outs[i].all ELSE <<outs[i]>>

NumbersAsExpected ==
  Ended /\ "items" \in DOMAIN Scope =>
    LET want == NumCalls(1, Num0) IN
    \A i \in Calls : Kinds(i) # "reset" =>
      \A j \in 1..Len(want[i]) : LET o == OutsOf(i)[j] IN
        IsOk(o) => SeenTags(o) = want[i][j].tags
ReferencesAsExpected ==
  Ended /\ "items" \in DOMAIN Scope =>
    LET want == NumCalls(1, Num0) IN
    \A i \in Calls : Kinds(i) # "reset" =>
      \A j \in 1..Len(want[i]) : LET o == OutsOf(i)[j] w == want[i][j] IN
        IsOk(o) =>
          /\ SeenIds(o) = w.ids
          /\ SeenRefs(o) = Map(LAMBDA l : <<"#" \o l, "(" \o (IF l \in DOMAIN w.lab THEN w.lab[l] ELSE "??") \o ")">>, w.refs)
          /\ o.wref = (\E l \in 1..Len(w.refs) : w.refs[l] \notin DOMAIN w.lab)
(* The rows of one environment, word by word: k = "row" (a separator), "no",   *)
(* "tag", "lab", "x". The environment: Scope.env = "each", "one", "last",      *)
(* "star".                                                                     *)
RECURSIVE SplitRows(_, _, _)
SplitRows(ws, i, acc) ==
  IF i > Len(ws) THEN acc
  ELSE IF ws[i].k = "row" THEN SplitRows(ws, i + 1, Append(acc, <<>>))
  ELSE SplitRows(ws, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, ws[i])])
Of(row, k) == SelectSeq(row, LAMBDA w : w.k = k)
RowTagOf(row) == IF Of(row, "tag") = <<>> THEN "" ELSE Of(row, "tag")[1].v
Contrary(row) == Of(row, "no") # <<>> /\ Of(row, "tag") # <<>>
RECURSIVE RowTags(_, _, _)
RowTags(rows, i, n) ==
  IF i > Len(rows) THEN <<>>
  ELSE IF RowTagOf(rows[i]) # "" THEN <<"(" \o RowTagOf(rows[i]) \o ")">> \o RowTags(rows, i + 1, n)
  ELSE IF Scope.env = "star" \/ Of(rows[i], "no") # <<>> THEN <<"">> \o RowTags(rows, i + 1, n)
  ELSE <<"(" \o ToString(n + 1) \o ")">> \o RowTags(rows, i + 1, n + 1)
EnvRows(i) == LET r == SplitRows(Words(i), 1, << <<>> >>) IN IF Scope.env = "last" THEN <<CatAll(r, 1)>> ELSE r
RowsNumbered ==
  Ended /\ "env" \in DOMAIN Scope =>
    \A i \in Calls : IsOk(outs[i]) /\ (\A j \in 1..Len(EnvRows(i)) : ~Contrary(EnvRows(i)[j])) =>
      LET tags == SeenTags(outs[i]) want == RowTags(EnvRows(i), 1, 0) IN
      (IF Scope.env = "last" THEN <<tags[Len(tags)]>> ELSE tags) = want
      /\ (Scope.env = "last" => \A j \in 1..Len(tags) - 1 : tags[j] = "")
RowsLabelled ==
  Ended /\ "env" \in DOMAIN Scope =>
    \A i \in Calls : LET rows == EnvRows(i) IN
      /\ (\E j \in 1..Len(rows) : Len(Of(rows[j], "lab")) > 1) => IsErr(outs[i])
      /\ IsOk(outs[i]) /\ (\A j \in 1..Len(rows) : ~Contrary(rows[j])) =>
           LET ids == SeenIds(outs[i]) want == RowTags(rows, 1, 0) IN
           (IF Scope.env = "last" THEN <<ids[Len(ids)]>> ELSE ids)
             = [j \in 1..Len(rows) |-> IF want[j] = "" \/ Of(rows[j], "lab") = <<>> THEN "" ELSE Of(rows[j], "lab")[1].v]

----------------------------------------------------------------------------
(* C03: the calls which a call depends on are those with the shared state      *)
(* since the last reset, and none if it has a state of its own.                *)
RECURSIVE SharedState(_, _)
SharedState(i, s) ==     \* before call i
  IF i = 1 THEN s
  ELSE IF Kinds(i - 1) = "reset" THEN Fresh
  ELSE IF Kinds(i - 1) = "global" THEN StateOf(ReadIt(ses.ops[i - 1].src, ses.ops[i - 1].block, SharedState(i - 1, s)))
  ELSE SharedState(i - 1, s)
RECURSIVE OneByOne(_, _, _)
OneByOne(its, i, s) == IF i > Len(its) THEN <<>>
  ELSE LET x == ReadIt(its[i].src, its[i].block, s) IN <<x>> \o OneByOne(its, i + 1, StateOf(x))
NoLeaks ==
  Ended /\ ~("skip" \in DOMAIN outs[1]) => \A i \in Calls :
    CASE Kinds(i) = "reset" -> TRUE
      [] Kinds(i) = "local" -> outs[i] = Outcome(ReadIt(ses.ops[i].src, ses.ops[i].block, Fresh))
      [] Kinds(i) = "global" -> outs[i] = Outcome(ReadIt(ses.ops[i].src, ses.ops[i].block, SharedState(i, Fresh)))
      [] Kinds(i) = "all" ->
           LET xs == OneByOne(ses.ops[i].items, 1, Fresh)
               lab == IF xs = <<>> THEN EmptyFn ELSE xs[Len(xs)].lab
           IN outs[i].all = [j \in 1..Len(xs) |-> IF xs[j].pc = "err" THEN Bad(xs[j].err) ELSE Good(Result(xs[j]), lab)]
(* While a snippet is read, and by a call with a state of its own, the shared  *)
(* state doesn't change.                                                       *)
SharedStateChanges == [][st' # st => (m.pc \in {"done", "err"} /\ Op.op = "global") \/ (m.pc = "idle" /\ Op.op = "reset" /\ st' = Fresh)]_mcvars

----------------------------------------------------------------------------
(* C04: what is visible where. Items: k = "def": name, g (global), mode, v     *)
(* (value; for \let the name that it copies), "use": name; "fail"              *)
Known(nm, l, g) == nm \in DOMAIN l \/ nm \in DOMAIN g \/ nm \in DOMAIN cfg \/ IsBuiltin(ses.cfg, nm)
Value(nm, l, g) ==
  IF nm \in DOMAIN l THEN l[nm] ELSE IF nm \in DOMAIN g THEN g[nm]
  ELSE IF nm \in DOMAIN cfg THEN cfg[nm].body[1].t.x ELSE Builtin(ses.cfg, nm).x
RECURSIVE Visible(_, _, _)
(* r: [l, g, seen, bad]                                                        *)
Visible(it, i, r) ==
  IF i > Len(it) \/ r.bad THEN r
  ELSE LET x == it[i] known == Known(x.name, r.l, r.g) IN
       CASE x.k = "fail" -> [r EXCEPT !.bad = TRUE]
         [] x.k = "use" -> IF known THEN Visible(it, i + 1, [r EXCEPT !.seen = Append(@, Value(x.name, r.l, r.g))]) ELSE [r EXCEPT !.bad = TRUE]
         [] OTHER ->
              IF (x.mode = "new" /\ known) \/ (x.mode = "renew" /\ ~known) \/ (x.mode = "let" /\ ~Known(x.v, r.l, r.g))
              THEN [r EXCEPT !.bad = TRUE]
              ELSE IF x.mode = "provide" /\ known THEN Visible(it, i + 1, r)
              ELSE LET v == IF x.mode = "let" THEN Value(x.v, r.l, r.g) ELSE x.v IN
                   Visible(it, i + 1, IF x.g \/ ses.cfg.glob
                                      THEN [r EXCEPT !.g = (x.name :> v) @@ @, !.l = Restrict(@, DOMAIN @ \ {x.name})]
                                      ELSE [r EXCEPT !.l = (x.name :> v) @@ @])
VisibleIn(ws, g) == Visible(ItemsOf(ws), 1, [l |-> EmptyFn, g |-> g, seen |-> <<>>, bad |-> FALSE])
RECURSIVE GlobalDefs(_)
GlobalDefs(i) ==
  IF i = 1 THEN EmptyFn
  ELSE IF Kinds(i - 1) = "reset" THEN EmptyFn
  ELSE IF Kinds(i - 1) = "global" THEN VisibleIn(ed[i - 1], GlobalDefs(i - 1)).g
  ELSE GlobalDefs(i - 1)
LifetimesAsExpected ==
  Ended => \A i \in Calls : Kinds(i) \in {"global", "local"} =>
    LET w == VisibleIn(ed[i], IF Kinds(i) = "global" THEN GlobalDefs(i) ELSE EmptyFn) IN
    IF w.bad THEN IsErr(outs[i])
    ELSE IsOk(outs[i]) /\ Map(LAMBDA l : l[2], LeavesAll(outs[i].ok, 1)) = w.seen

----------------------------------------------------------------------------
(* C05: a word may stand for its expansion.                                    *)
WrittenOut(ws) == Scope.pre \o CatAll([j \in 1..Len(ws) |-> Word(ws[j]).ex], 1) \o Scope.post
UseIsExpansion ==
  Ended => \A i \in Calls : Kinds(i) \in {"global", "local"} =>
    Same(outs[i], Outcome(ReadIt(WrittenOut(ed[i]), ses.ops[i].block, Fresh)))

----------------------------------------------------------------------------
(* C06: the limit changes nothing until it is exceeded.                        *)
Ample == 60
LimitIsExact ==
  Ended => \A i \in Calls : Kinds(i) \in {"global", "local"} =>
    LET x == ReadWith(ses.ops[i].src, ses.ops[i].block, SharedState(i, Fresh), [ses.cfg EXCEPT !.max = Ample])
        y == ReadIt(ses.ops[i].src, ses.ops[i].block, SharedState(i, Fresh))
    IN Kinds(i) = "global" /\ x.pc # "skip" =>
       /\ (Ample - x.exp <= ses.cfg.max => outs[i] = Outcome(x))
       /\ (Ample - x.exp > ses.cfg.max => IsErr(outs[i]) /\ StartsWith(outs[i].err, "Too many") /\ y.exp = 0)

----------------------------------------------------------------------------
(* C07: each word says what is wrong with it, if anything: k = "def" (name,    *)
(* mode), "bad" (the message), "x".                                            *)
RECURSIVE FirstBad(_, _, _)
FirstBad(it, i, known) ==
  IF i > Len(it) THEN ""
  ELSE LET x == it[i] is == x.name \in known \/ Known(x.name, EmptyFn, EmptyFn) IN
       CASE x.k = "bad" -> x.v
         [] x.k = "def" ->
              IF x.mode = "new" /\ is THEN "This command is already defined."
              ELSE IF x.mode = "renew" /\ ~is THEN "This command is not defined."
              ELSE FirstBad(it, i + 1, known \cup {x.name})
         [] x.k = "use" -> IF is THEN FirstBad(it, i + 1, known) ELSE MsgUnknownCmd(x.name)
         [] OTHER -> FirstBad(it, i + 1, known)
DefinitionsJudged ==
  Ended => \A i \in Calls : Kinds(i) = "local" =>
    LET b == FirstBad(ItemsOf(ed[i]), 1, {}) IN
    IF b = "" THEN IsOk(outs[i]) ELSE IsErr(outs[i]) /\ outs[i].err = b

----------------------------------------------------------------------------
(* C08: k = "o" opens v, "c" closes v, "p" must be followed by an argument,    *)
(* anything else is an atom.                                                   *)
RECURSIVE Matched(_, _, _)
Matched(ws, i, open) ==
  IF i > Len(ws) THEN open = <<>>
  ELSE CASE ws[i].k = "o" -> Matched(ws, i + 1, Append(open, ws[i].v))
         [] ws[i].k = "c" -> open # <<>> /\ open[Len(open)] = ws[i].v /\ Matched(ws, i + 1, SubSeq(open, 1, Len(open) - 1))
         [] ws[i].k = "p" -> i < Len(ws) /\ ws[i + 1].k # "c" /\ Matched(ws, i + 1, open)
         [] OTHER -> Matched(ws, i + 1, open)
AcceptedIffMatched == Ended => \A i \in Calls : IsOk(outs[i]) <=> Matched(Words(i), 1, <<>>)
(* Where it first goes wrong: the closer that doesn't match, or the end.       *)
RECURSIVE FirstWrong(_, _, _)
FirstWrong(ws, i, open) ==
  IF i > Len(ws) THEN (IF open = <<>> THEN "" ELSE "eoi")
  ELSE IF ws[i].k = "o" THEN FirstWrong(ws, i + 1, Append(open, ws[i].v))
  ELSE IF ws[i].k = "c"
  THEN IF open = <<>> \/ open[Len(open)] # ws[i].v THEN ws[i].v ELSE FirstWrong(ws, i + 1, SubSeq(open, 1, Len(open) - 1))
  ELSE FirstWrong(ws, i + 1, open)
CloserName(v) == CASE v = "{" -> "}" [] v = "left" -> "\\right" [] OTHER -> v
RECURSIVE HasPart(_, _)
HasPart(s, p) == Len(s) >= Len(p) /\ (SubSeq(s, 1, Len(p)) = p \/ HasPart(SubSeq(s, 2, Len(s)), p))
ErrorNamesCloser ==
  Ended => \A i \in Calls : LET w == FirstWrong(Words(i), 1, <<>>) IN
    IsErr(outs[i]) /\ w # "" /\ (\A j \in 1..Len(Words(i)) : Words(i)[j].k # "p") =>
      IF w = "eoi" THEN HasPart(outs[i].err, "reached end of input") ELSE HasPart(outs[i].err, CloserName(w)) \/ HasPart(outs[i].err, "\\end")

----------------------------------------------------------------------------
(* C10: k = "sup", "sub" (scripts with their content), "pr" (a prime), others. *)
(* Next to each other, they can be exchanged.                                  *)
RECURSIVE SubFirst(_, _)
SubFirst(ws, i) ==
  IF i >= Len(ws) THEN ws
  ELSE IF Word(ws[i]).k = "sup" /\ Word(ws[i + 1]).k = "sub"
  THEN SubFirst([ws EXCEPT ![i] = ws[i + 1], ![i + 1] = ws[i]], IF i > 1 THEN i - 1 ELSE i + 1)
  ELSE SubFirst(ws, i + 1)
ScriptsCommute == Ended => \A i \in Calls :
  (\A j \in 1..Len(ed[i]) : Word(ed[i][j]).k # "pr") =>
    Same(outs[i], Outcome(ReadIt(Source(SubFirst(ed[i], 1)), ses.ops[i].block, Fresh)))
(* At most one of each kind in a run.                                          *)
RECURSIVE TwiceInRun(_, _, _, _)
TwiceInRun(ws, i, sub, sup) ==
  IF i > Len(ws) THEN FALSE
  ELSE CASE ws[i].k = "sub" -> sub \/ TwiceInRun(ws, i + 1, TRUE, sup)
         [] ws[i].k = "sup" -> sup \/ TwiceInRun(ws, i + 1, sub, TRUE)
         [] ws[i].k = "lim" -> TwiceInRun(ws, i + 1, sub, sup)
         [] OTHER -> TwiceInRun(ws, i + 1, FALSE, FALSE)
DoubleScriptsRejected == Ended => \A i \in Calls :
  (\A j \in 1..Len(ed[i]) : Word(ed[i][j]).k # "pr") /\ TwiceInRun(Words(i), 1, FALSE, FALSE) => IsErr(outs[i])

----------------------------------------------------------------------------
(* C11: the style at each probe. k = "push" (the start of a construct) with v  *)
(* = what it is, "pop", "set" with v a style, "probe" (a \mathchoice which     *)
(* shows D, T, S or X), "next" (the end of one argument and the start of the   *)
(* next one; v = "]" if it ends with a bracket, "script" if it may start a     *)
(* script), "cell" (the next cell of a table).                                 *)
Smaller(s) == CASE s \in {"D", "T"} -> "S" [] OTHER -> "SS"
StyleFor(v, s) ==
  CASE v = "same" -> s
    [] v = "script" -> Smaller(s)
    [] v = "frac" -> (CASE s = "D" -> "T" [] s = "T" -> "S" [] OTHER -> "SS")
    [] OTHER -> v
(* What the arguments of a construct are, in order.                            *)
ArgsOf(v) ==
  CASE v = "frac" -> <<"frac", "frac">>
    [] v = "fracD" -> <<"T", "T">>
    [] v = "fracT" -> <<"S", "S">>
    [] v = "root" -> <<"SS", "same">>
    [] v = "label" -> <<"script", "same">>
    [] v = "labels" -> <<"script", "script">>
    [] v = "pre" -> <<"script", "script", "same">>
    [] OTHER -> <<v>>
Brackets(v) == v \in {"root", "labels"}
RECURSIVE Probes(_, _, _)
(* stk: [s, v, n]: the style, the construct, and which of its arguments this   *)
(* is; innermost last. <<"?">>: an argument without braces, or a mixture of    *)
(* braces and brackets, of which nothing is said here.                         *)
Entered(v, n, outer) == [s |-> StyleFor(ArgsOf(v)[n], outer.s), v |-> v, n |-> n]
Probes(ws, i, stk) ==
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Len(stk) w == ws[i]
           more == n > 1 /\ stk[n].n < Len(ArgsOf(stk[n].v))
       IN
       CASE w.k = "push" -> Probes(ws, i + 1, Append(stk, Entered(w.v, 1, stk[n])))
         [] w.k = "next" ->
              IF n < 2 \/ (w.v = "]") # (Brackets(stk[n].v) /\ stk[n].n = 1) \/ (w.v = "script" /\ more) THEN <<"?">>
              ELSE Probes(ws, i + 1, [stk EXCEPT ![n] = IF more THEN Entered(@.v, @.n + 1, stk[n - 1]) ELSE Entered(IF w.v = "script" THEN "script" ELSE "same", 1, stk[n - 1])])
         [] w.k = "pop" -> IF n < 2 \/ more THEN <<"?">> ELSE Probes(ws, i + 1, SubSeq(stk, 1, n - 1))
         [] w.k = "set" -> Probes(ws, i + 1, [stk EXCEPT ![n].s = w.v])
         [] w.k = "cell" -> IF n < 2 THEN <<"?">> ELSE Probes(ws, i + 1, [stk EXCEPT ![n] = Entered(@.v, 1, stk[n - 1])])
         [] w.k = "probe" -> <<stk[n].s>> \o Probes(ws, i + 1, stk)
         [] OTHER -> Probes(ws, i + 1, stk)
ProbeStyle(x) == CASE x = "D" -> <<"D">> [] x = "T" -> <<"T">> [] x = "S" -> <<"S">> [] x = "X" -> <<"SS">> [] OTHER -> <<>>
SeenProbes(o) == CatAll(Map(LAMBDA l : IF l[1] = "mi" THEN ProbeStyle(l[2]) ELSE <<>>, LeavesAll(o.ok, 1)), 1)
(* The elements of these constructs have their children in another order.      *)
Reorders(v) == v \in {"root", "label", "labels", "pre"}
CountOf(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
StylesAsExpected == Ended => \A i \in Calls :
  LET want == Probes(Words(i), 1, <<[s |-> IF ses.ops[i].block THEN "D" ELSE "T", v |-> "same", n |-> 1]>>) IN
  IsOk(outs[i]) /\ (\A j \in 1..Len(want) : want[j] # "?") =>
    IF \E j \in 1..Len(Words(i)) : Words(i)[j].k = "push" /\ Reorders(Words(i)[j].v)
    THEN LET seen == SeenProbes(outs[i]) IN \A s \in {"D", "T", "S", "SS"} : CountOf(seen, s) = CountOf(want, s)
    ELSE SeenProbes(outs[i]) = want

----------------------------------------------------------------------------
(* C12: the font of each letter. k = "push" with v = a font or "same", "pop",  *)
(* "set", "next" (a cell), "x" (the letter x).                                 *)
RECURSIVE Fonts(_, _, _)
Fonts(ws, i, stk) ==
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Len(stk) IN
       CASE ws[i].k = "push" -> Fonts(ws, i + 1, Append(stk, IF ws[i].v = "same" THEN stk[n] ELSE ws[i].v))
         [] ws[i].k = "next" -> IF n < 2 THEN <<>> ELSE Fonts(ws, i + 1, [stk EXCEPT ![n] = stk[n - 1]])
         [] ws[i].k = "pop" -> IF n < 2 THEN <<>> ELSE Fonts(ws, i + 1, SubSeq(stk, 1, n - 1))
         [] ws[i].k = "set" -> Fonts(ws, i + 1, [stk EXCEPT ![n] = ws[i].v])
         [] ws[i].k = "x" -> <<stk[n]>> \o Fonts(ws, i + 1, stk)
         [] OTHER -> Fonts(ws, i + 1, stk)
RECURSIVE Concat(_, _)
Concat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Concat(s, i + 1)
SeenLetters(o) == Concat(Map(LAMBDA l : IF l[1] = "mi" THEN l[2] ELSE "", LeavesAll(o.ok, 1)), 1)
FontsAsExpected == Ended /\ "letters" \in DOMAIN Scope => \A i \in Calls :
  IsOk(outs[i]) => SeenLetters(outs[i]) = Concat(Map(LAMBDA f : Scope.letters[f], Fonts(Words(i), 1, <<"normal">>)), 1)

----------------------------------------------------------------------------
(* C13: the shape of the outermost table. k = "col", "row", "o", "c", "x".     *)
RECURSIVE Shape(_, _, _, _)
Shape(ws, i, depth, acc) ==
  IF i > Len(ws) THEN acc
  ELSE CASE ws[i].k = "o" -> Shape(ws, i + 1, depth + 1, acc)
         [] ws[i].k = "c" -> Shape(ws, i + 1, depth - 1, acc)
         [] ws[i].k = "col" /\ depth = 0 -> Shape(ws, i + 1, depth, [acc EXCEPT ![Len(acc)] = @ + 1])
         [] ws[i].k = "row" /\ depth = 0 -> Shape(ws, i + 1, depth, Append(acc, 1))
         [] OTHER -> Shape(ws, i + 1, depth, acc)
(* Cells which hold nothing but a rule aren't counted.                         *)
RuleCell(e) == e.c = <<>> /\ HasPart(Attr(e, "style"), "padding-left: 0.1em;padding-right: 0.1em;")
CellsIn(row) == Cardinality({i \in 1..Len(row.c) : ~RuleCell(row.c[i])})
ShapeAsExpected == Ended /\ "table" \in DOMAIN Scope => \A i \in Calls :
  IsOk(outs[i]) => LET t == FindAll(outs[i].ok, 1, "mtable")[1] IN
    Map(CellsIn, t.c) = Map(LAMBDA n : n + Scope.table, Shape(Words(i), 1, 0, <<1>>))

----------------------------------------------------------------------------
(* C14: in a flat sequence, the spacing of an operator depends on its          *)
(* neighbours only: k = "op" for operators, "x" for atoms, "t" for what has no *)
(* class.                                                                      *)
OpAttrs(e) == SelectSeq(e.a, LAMBDA p : p[1] \in {"lspace", "rspace"})
RECURSIVE Ops(_, _)
Ops(es, i) == IF i > Len(es) THEN <<>> ELSE (IF es[i].n = "mo" THEN <<OpAttrs(es[i])>> ELSE <<>>) \o Ops(es, i + 1)
WithoutTransparent(ws) == SelectSeq(ws, LAMBDA w : Word(w).k # "t")
TransparentIsTransparent == Ended => \A i \in Calls :
  IsOk(outs[i]) => LET y == Outcome(ReadIt(Source(WithoutTransparent(ed[i])), ses.ops[i].block, Fresh)) IN
    IsOk(y) /\ Ops(outs[i].ok, 1) = Ops(y.ok, 1)

----------------------------------------------------------------------------
(* C19: k = "unk" is an unknown command with the name v.                       *)
UnknownShown == Ended => \A i \in Calls :
  LET us == SelectSeq(Words(i), LAMBDA w : w.k = "unk")
      rest == SelectSeq(ed[i], LAMBDA w : Word(w).k # "unk")
      y == ReadIt(Source(rest), ses.ops[i].block, Fresh)
  IN IF ~ses.cfg.ign
     THEN us # <<>> /\ y.pc # "err" => IsErr(outs[i]) /\ outs[i].err = MsgUnknownCmd(us[1].v)
     ELSE /\ IsOk(outs[i]) => outs[i].wcmd = (us # <<>>)
          /\ IsOk(outs[i]) => Map(LAMBDA e : e.c[1].x, FindAll(outs[i].ok, 1, "merror")) = Map(LAMBDA u : "\\" \o u.v, us)

----------------------------------------------------------------------------
(* C20: k = "sp" are words which may be left out, except between a command     *)
(* name (k = "cw") and a letter, where a space has to stay.                    *)
RECURSIVE Essential(_, _, _, _)
(* last: the kind of the last word that stays; sep: whether some were left out *)
Essential(ws, i, last, sep) ==
  IF i > Len(ws) THEN <<>>
  ELSE IF ws[i].k = "sp" THEN Essential(ws, i + 1, last, TRUE)
  ELSE (IF sep /\ last = "cw" /\ ws[i].cs[1] \in AsciiLetters THEN <<" ">> ELSE <<>>) \o ws[i].cs
       \o Essential(ws, i + 1, IF last = "cw" /\ ~sep /\ (\A j \in 1..Len(ws[i].cs) : ws[i].cs[j] \in AsciiLetters) THEN "cw" ELSE ws[i].k, FALSE)
SpaceDoesNotMatter == Ended => \A i \in Calls :
  Same(outs[i], Outcome(ReadIt(Scope.pre \o Essential(Words(i), 1, "", FALSE) \o Scope.post, ses.ops[i].block, Fresh)))

----------------------------------------------------------------------------
(* C22: the text of a text command, character by character, with its fonts.    *)
(* k = "tx" (v: the character that comes out), "ws" (white space, v: what it   *)
(* becomes), "push" (v: a style), "pop", "set"; Scope.text = the style of the command.                               *)
RECURSIVE TextOf(_, _, _)
TextOf(ws, i, stk) ==
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Len(stk) IN
       CASE ws[i].k = "push" -> TextOf(ws, i + 1, Append(stk, IF ws[i].v = "same" THEN stk[n] ELSE ws[i].v))
         [] ws[i].k = "pop" -> IF n < 2 THEN <<"?">> ELSE TextOf(ws, i + 1, SubSeq(stk, 1, n - 1))
         [] ws[i].k = "set" -> TextOf(ws, i + 1, [stk EXCEPT ![n] = ws[i].v])
         [] ws[i].k = "tx" -> <<ws[i].v>> \o TextOf(ws, i + 1, stk)
         [] ws[i].k = "ws" -> (IF i > 1 /\ ws[i - 1].k \in {"ws", "set"} THEN <<>> ELSE <<ws[i].v>>) \o TextOf(ws, i + 1, stk)   \* one space
         [] OTHER -> TextOf(ws, i + 1, stk)
TextAsExpected == Ended /\ "text" \in DOMAIN Scope => \A i \in Calls :
  LET want == TextOf(Words(i), 1, <<Scope.text>>) IN       \* "?": the text ends before the words do
  IsOk(outs[i]) /\ (\A j \in 1..Len(want) : want[j] # "?") =>
    Concat(Map(LAMBDA l : l[2], LeavesAll(outs[i].ok, 1)), 1) = Scope.before \o Concat(want, 1) \o Scope.after
----------------------------------------------------------------------------
(* C09: what may come out at all.                                              *)
OutputWellFormed ==
  Ended => \A i \in Calls : Kinds(i) # "reset" /\ "skip" \notin DOMAIN outs[1] =>
    \A j \in 1..Len(OutsOf(i)) : LET o == OutsOf(i)[j] IN
      IsOk(o) => \A k \in 1..Len(o.ok) : o.ok[k].n \in Formulas /\ TreeOK(o.ok[k])
----------------------------------------------------------------------------
(* C18: an error lies within the source that it belongs to.                    *)
SourceOf(i, j) == IF Kinds(i) = "all" THEN ses.ops[i].items[j].src ELSE ses.ops[i].src
RECURSIVE Places(_, _, _)
Places(src, i, at) == {at} \cup (IF i > Len(src) THEN {} ELSE Places(src, i + 1, at + CLen(src[i])))
ErrorsPointIntoSource ==
  Ended => \A i \in Calls : Kinds(i) # "reset" /\ "skip" \notin DOMAIN outs[1] =>
    \A j \in 1..Len(OutsOf(i)) : LET o == OutsOf(i)[j] IN
      IsErr(o) => o.s <= o.e /\ {o.s, o.e} \subseteq Places(SourceOf(i, j), 1, 0)
----------------------------------------------------------------------------
(* C23, C24: certain elements (Scope.marks: element, attributes) and their     *)
(* attributes, in order. k = "x" (v: what comes here), "push" (v: what comes   *)
(* when the argument is over), "env" (v: now, and nothing then), "frac" (v:    *)
(* now; two arguments), "next", "pop".                                         *)
(* "-" is nothing.                                                             *)
Mark(v) == IF v = "-" THEN <<>> ELSE <<v>>
RECURSIVE Marks(_, _, _)
(* stk: [n: arguments still to come, v: what comes at the end]                 *)
Marks(ws, i, stk) ==
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Len(stk) w == ws[i] IN
       CASE w.k = "push" -> Marks(ws, i + 1, Append(stk, [n |-> 0, v |-> w.v]))
         [] w.k = "env" -> Mark(w.v) \o Marks(ws, i + 1, Append(stk, [n |-> 0, v |-> "||"]))
         [] w.k = "frac" -> Mark(w.v) \o Marks(ws, i + 1, Append(stk, [n |-> 1, v |-> "-"]))
         [] w.k = "next" -> IF n < 1 \/ stk[n].n = 0 THEN <<"?">> ELSE Marks(ws, i + 1, [stk EXCEPT ![n].n = 0])
         [] w.k = "pop" -> IF n < 1 \/ stk[n].n > 0 THEN <<"?">> ELSE Mark(stk[n].v) \o Marks(ws, i + 1, SubSeq(stk, 1, n - 1))
         [] OTHER -> Mark(w.v) \o Marks(ws, i + 1, stk)
RECURSIVE AttrsOf(_, _, _)
AttrsOf(e, as, i) == IF i > Len(as) THEN "" ELSE (IF i > 1 THEN "|" ELSE "") \o Attr(e, as[i]) \o AttrsOf(e, as, i + 1)
SeenMarks(o, mk) == Map(LAMBDA e : AttrsOf(e, mk[2], 1), FindAll(o.ok, 1, mk[1]))
MarksAsExpected == Ended /\ "marks" \in DOMAIN Scope => \A i \in Calls :
  LET want == Marks(Words(i), 1, <<>>) IN
  IsOk(outs[i]) /\ (\A j \in 1..Len(want) : want[j] # "?") => SeenMarks(outs[i], Scope.marks[1]) = want

(* An operator with a size can stretch, and one which stretches as far as its  *)
(* surroundings has no size.                                                   *)
SizesTakeEffect == Ended => \A i \in Calls : IsOk(outs[i]) =>
  LET ms == FindAll(outs[i].ok, 1, "mo") IN \A j \in 1..Len(ms) :
    /\ Attr(ms[j], "minsize") = Attr(ms[j], "maxsize")
    /\ Attr(ms[j], "minsize") # "" => Attr(ms[j], "stretchy") # "false"

----------------------------------------------------------------------------
(* C24: the boxes and colours around each letter, outermost first. k = "push"  *)
(* with v = what a construct puts around its argument, "pop", "set" (a colour, *)
(* for the rest of the group), "next" (a cell), "x" (the letter x).            *)
RECURSIVE Around(_, _, _)
Around(ws, i, stk) ==
  IF i > Len(ws) THEN <<>>
  ELSE LET n == Len(stk) IN
       CASE ws[i].k = "push" -> Around(ws, i + 1, Append(stk, stk[n] \o ws[i].v))
         [] ws[i].k = "next" -> Around(ws, i + 1, [stk EXCEPT ![n] = IF n = 1 THEN "" ELSE stk[n - 1]])
         [] ws[i].k = "pop" -> IF n < 2 THEN <<"?">> ELSE Around(ws, i + 1, SubSeq(stk, 1, n - 1))
         [] ws[i].k = "set" -> Around(ws, i + 1, [stk EXCEPT ![n] = @ \o ws[i].v])
         [] ws[i].k = "x" -> <<stk[n]>> \o Around(ws, i + 1, stk)
         [] OTHER -> Around(ws, i + 1, stk)
BoxName(e) ==
  CASE e.n = "menclose" -> "menclose " \o Attr(e, "notation") \o ";"
    [] e.n = "mphantom" -> "mphantom ;"
    [] e.n = "mpadded" -> "mpadded " \o Attr(e, "width") \o Attr(e, "height") \o ";"
    [] e.n = "mrow" /\ Attr(e, "style") # "" -> "mrow " \o Attr(e, "style") \o ";"
    [] OTHER -> ""
RECURSIVE SeenAround(_, _, _)
SeenAround(es, i, out) ==
  IF i > Len(es) THEN <<>>
  ELSE (IF es[i].n = "mi" /\ es[i].x = "x" THEN <<out>> ELSE SeenAround(es[i].c, 1, out \o BoxName(es[i]))) \o SeenAround(es, i + 1, out)
BoxesAsExpected == Ended /\ "chains" \in DOMAIN Scope => \A i \in Calls :
  LET want == Around(Words(i), 1, <<"">>) IN
  IsOk(outs[i]) /\ (\A j \in 1..Len(want) : want[j] # "?") => SeenAround(outs[i].ok, 1, "") = want
=============================================================================
