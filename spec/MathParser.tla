----------------------------- MODULE MathParser ------------------------------
(* The machine which reads one snippet: a pushdown automaton over a queue of   *)
(* tokens. A state m is a record:                                              *)
(*   pc    "run", "done", "err" or "skip" (outside of what is specified)       *)
(*   q     the tokens that are still to be read                                *)
(*   stk   the constructs being read, innermost last ("frames")                *)
(*   ret   what the construct that was finished last has returned              *)
(*   sty, tf, hack, vld, env    style, font, boundary hack, meaning of `|`,    *)
(*         and the table that we are in                                        *)
(*   exp   how many more macros may be expanded                                *)
(*   loc, doc, cfg   the commands which were defined in this snippet, by the   *)
(*         document and by the configuration                                   *)
(*   eq, lab   the number of the last equation, and the labels so far          *)
(*   opt   [ign, glob, max]: the configuration                                 *)
EXTENDS MathLexer, MathNodes

None == [k |-> "none"]
Sym == RawVocab.sym
Q(s) == "\"" \o s \o "\""

Top(m) == m.stk[Len(m.stk)]
Push(m, f) == [m EXCEPT !.stk = Append(@, f), !.ret = None]
SetTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f, !.ret = None]
Ret(m, r) == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1), !.ret = r]
RetNode(m, n, cls) == Ret(m, [k |-> "node", n |-> n, cls |-> cls])
RetNodes(m, ns) == Ret(m, [k |-> "nodes", ns |-> ns])
Fail(m, msg, s, e) == [m EXCEPT !.pc = "err", !.err = [msg |-> msg, s |-> s, e |-> e]]
Skip(m) == [m EXCEPT !.pc = "skip"]
OK(m) == m.pc = "run"

MsgArgClose == "Expected argument but got closing token (`}`, `\\end`, `\\right`)."
MsgArgEoi == "Expected argument but reached end of input."
MsgArgSwitch == "Switch-like commands cannot be used as arguments."
MsgUnclosed(x) == "Expected closing token " \o Q(x) \o ", but reached end of input."
MsgUnmatched(x) == "Unmatched closing token: " \o Q(x) \o "."
MsgNotHere(x, pl) == "Found " \o Q(x) \o ", which may only appear " \o pl \o "."
MsgLength(x) == "Expected length with units, found " \o Q(x) \o "."
MsgUnknownCmd(x) == "Unknown command " \o Q("\\" \o x) \o "."
MsgUnit(u, mathExpected) ==
  IF mathExpected THEN "Text unit " \o Q(u) \o " cannot be used with \\mkern/\\mskip/\\mspace."
  ELSE "Math unit " \o Q(u) \o " cannot be used with \\kern/\\hskip/\\hspace."

----------------------------------------------------------------------------
(* The queue                                                                   *)
Lookup(m, nm) ==
  IF nm \in DOMAIN m.loc THEN m.loc[nm]
  ELSE IF nm \in DOMAIN m.doc THEN m.doc[nm]
  ELSE IF nm \in DOMAIN m.cfg THEN m.cfg[nm]
  ELSE IF IsBuiltin(m.opt, nm) THEN Builtin(m.opt, nm)
  ELSE KindX("unres", nm)
Mean(m, tk) ==
  LET t == IF tk.nm = "" THEN tk.t ELSE Lookup(m, tk.nm) IN IF tk.u THEN Unwrap(t) ELSE t

RECURSIVE DropWs(_)
DropWs(q) == IF q # <<>> /\ q[1].t.k = "ws" /\ q[1].nm = "" THEN DropWs(Tail(q)) ELSE q
RECURSIVE FirstNW(_, _)
FirstNW(q, i) == IF i <= Len(q) /\ q[i].t.k = "ws" /\ q[i].nm = "" THEN FirstNW(q, i + 1) ELSE i
IsLexErr(tk) == tk.nm = "" /\ tk.t.k = "lexerr"
FailLex(m, tk) == Fail(m, tk.t.x, tk.s, tk.e)
(* The first token which isn't a space has always been read already.           *)
Load(m) ==
  LET i == FirstNW(m.q, 1) IN IF i <= Len(m.q) /\ IsLexErr(m.q[i]) THEN FailLex(m, m.q[i]) ELSE m

PeekTok(m) == LET i == FirstNW(m.q, 1) IN IF i <= Len(m.q) THEN m.q[i] ELSE EoiTok(0)
PeekM(m) == Mean(m, PeekTok(m))
PeekAnyTok(m) == IF m.q = <<>> THEN EoiTok(0) ELSE m.q[1]

Taken(m, q, tk, t, u, allow) ==
  LET m1 == Load([m EXCEPT !.q = q])
      m2 == IF OK(m1) /\ ~allow /\ t.k = "unres" /\ ~m.opt.ign
            THEN Fail(m1, MsgUnknownCmd(t.x), tk.s, tk.e) ELSE m1
  IN [m |-> m2, tk |-> IF u THEN [tk EXCEPT !.u = TRUE] ELSE tk, t |-> t]
(* Take the next token that isn't a space, in math mode.                       *)
NextX(m, allow) ==
  LET q == DropWs(m.q) IN
  IF q = <<>> THEN [m |-> m, tk |-> EoiTok(0), t |-> Kind("eoi")]
  ELSE Taken(m, Tail(q), q[1], Unwrap(Mean(m, q[1])), TRUE, allow)
Next(m) == NextX(m, FALSE)
NextAllow(m) == NextX(m, TRUE)
(* Take the next token, whatever it is.                                        *)
NextAnyX(m, allow) ==
  IF m.q = <<>> THEN [m |-> m, tk |-> EoiTok(0), t |-> Kind("eoi")]
  ELSE Taken(m, Tail(m.q), m.q[1], Mean(m, m.q[1]), FALSE, allow)
NextAny(m) == NextAnyX(m, FALSE)
NextAnyAllow(m) == NextAnyX(m, TRUE)

(* The class of what comes next: <<class, index of the token>>.                *)
RECURSIVE ClassAt(_, _)
ClassAt(m, i) ==
  IF i > Len(m.q) THEN <<"End", 0>>
  ELSE IF IsLexErr(m.q[i]) THEN <<"lexerr", i>>
  ELSE LET c == ClassOf(Mean(m, m.q[i])) IN IF c = "" THEN ClassAt(m, i + 1) ELSE <<c, i>>
(* gives [m, c]                                                                *)
NextClass(m, inseq) ==
  IF ~inseq THEN [m |-> m, c |-> "Ord"]
  ELSE LET f == ClassAt(m, 1) IN
       IF f[1] = "lexerr" THEN [m |-> FailLex(m, m.q[f[2]]), c |-> "Ord"]
       ELSE IF m.vld # "" /\ f[2] > 0
       THEN LET t == Mean(m, m.q[f[2]]) IN
            [m |-> m, c |-> IF t.k = "ord" /\ t.x = "|" /\ t.mt = "|" THEN (IF m.vld = "R" THEN "Ord" ELSE "Close") ELSE f[1]]
       ELSE [m |-> m, c |-> f[1]]

----------------------------------------------------------------------------
(* Arguments which are read as tokens                                          *)
(* Up to the `}` which matches; gives [m, toks, e]. An unknown command in the  *)
(* argument of a macro ("arg") is an error only when it's used.                *)
RECURSIVE RecGroup(_, _, _, _)
RecGroup(m, acc, depth, how) ==
  LET n == IF how = "arg" THEN NextAnyAllow(m) ELSE IF how = "all" THEN NextAny(m) ELSE Next(m) IN
  IF ~OK(n.m) THEN [m |-> n.m, toks |-> acc, e |-> 0]
  ELSE IF n.t.k = "eoi" THEN [m |-> Fail(n.m, MsgUnclosed("}"), n.tk.s, n.tk.e), toks |-> acc, e |-> 0]
  ELSE IF n.t.k = "ge" /\ depth = 0 THEN [m |-> n.m, toks |-> acc, e |-> n.tk.e]
  ELSE RecGroup(n.m, Append(acc, n.tk), depth + (IF n.t.k = "gb" THEN 1 ELSE IF n.t.k = "ge" THEN -1 ELSE 0), how)

(* gives [m, grp, toks, s, e]                                                  *)
ReadArg(m, all) ==
  LET p == PeekTok(m)
      n == Next(m)
      tk == IF all THEN p ELSE n.tk
  IN IF ~OK(n.m) THEN [m |-> n.m, grp |-> FALSE, toks |-> <<>>, s |-> 0, e |-> 0]
     ELSE IF n.t.k = "gb"
     THEN LET r == RecGroup(n.m, <<>>, 0, IF all THEN "all" ELSE "math") IN [m |-> r.m, grp |-> TRUE, toks |-> r.toks, s |-> n.tk.s, e |-> r.e]
     ELSE [m |-> n.m, grp |-> FALSE, toks |-> <<tk>>, s |-> n.tk.s, e |-> n.tk.e]

(* At most one token: [m, toks, s, e] with zero or one tokens.                 *)
OneOrNone(r) ==
  IF OK(r.m) /\ Len(r.toks) > 1
  THEN [r EXCEPT !.m = Fail(r.m, "Expected at most one token as argument.", r.s, r.e)] ELSE r
ExactlyOne(r) ==
  IF OK(r.m) /\ Len(r.toks) # 1
  THEN [r EXCEPT !.m = Fail(r.m, "Expected exactly one token as argument.", r.s, r.e)] ELSE r

(* The character that a token was written as, if that is plain ASCII.          *)
AsciiOf(t) ==
  IF t.mt # "" THEN (IF t.mt \in DOMAIN RawVocab.u8 \/ t.mt \in {"&", "{", "}"} THEN "" ELSE t.mt)
  ELSE IF t.k = "letter" THEN (IF t.x \in AsciiLetters \cup {".", "?", "@"} THEN t.x ELSE "")
  ELSE IF t.k = "digit" THEN t.x
  ELSE IF t.k = "ws" THEN " "
  ELSE ""
RECURSIVE AsciiAll(_, _, _, _)
AsciiAll(m, toks, i, acc) ==
  IF i > Len(toks) THEN [m |-> m, cs |-> acc]
  ELSE LET c == AsciiOf(Mean(m, toks[i])) IN
       IF c = "" THEN [m |-> Fail(m, "Expected non-special ASCII characters in string literal.", toks[i].s, toks[i].e), cs |-> acc]
       ELSE AsciiAll(m, toks, i + 1, Append(acc, c))
(* gives [m, cs (characters), s, e]                                            *)
Literal(m) ==
  LET r == ReadArg(m, TRUE) IN
  IF ~OK(r.m) THEN [m |-> r.m, cs |-> <<>>, s |-> 0, e |-> 0]
  ELSE LET t1 == IF r.grp THEN Kind("none") ELSE Mean(r.m, r.toks[1]) IN
       IF t1.k = "ilit" THEN [m |-> r.m, cs |-> <<t1.x>>, s |-> r.s, e |-> r.e]
       ELSE LET a == AsciiAll(r.m, r.toks, 1, <<>>) IN [m |-> a.m, cs |-> a.cs, s |-> r.s, e |-> r.e]
Str(cs) == Cat(cs, 1, Len(cs) + 1)
RECURSIVE TrimL(_)
TrimL(cs) == IF cs # <<>> /\ cs[1] = " " THEN TrimL(Tail(cs)) ELSE cs
RECURSIVE TrimR(_)
TrimR(cs) == IF cs # <<>> /\ cs[Len(cs)] = " " THEN TrimR(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Trim(cs) == TrimL(TrimR(cs))

Units == {"pt", "mm", "cm", "in", "ex", "em", "mu", "sp"}
LowerPairs == << <<"P","p">>, <<"T","t">>, <<"M","m">>, <<"C","c">>, <<"I","i">>, <<"N","n">>, <<"E","e">>, <<"X","x">>, <<"U","u">>, <<"S","s">> >>
LowerFn == [c \in {LowerPairs[i][1] : i \in 1..Len(LowerPairs)} |-> (CHOOSE i \in 1..Len(LowerPairs) : LowerPairs[i][1] = c)]
Lower(c) == IF c \in DOMAIN LowerFn THEN LowerPairs[LowerFn[c]][2] ELSE c
(* A length: [st: "ok", "no" or "skip", css, unit]. Which numbers stand for    *)
(* which length is a table; other numbers are outside of the specification.    *)
LenOf(num, unit) ==
  LET key == num \o unit IN
       IF key \in DOMAIN RawVocab.lens THEN [st |-> "ok", css |-> RawVocab.lens[key], unit |-> unit]
       ELSE [st |-> "skip", css |-> "", unit |-> unit]
(* A number: perhaps a sign, then digits with at most one point among them, at *)
(* least one of them, and less than 2^64 without the point.                    *)
RECURSIVE DropZeros(_)
DropZeros(ds) == IF ds # <<>> /\ ds[1] = "0" THEN DropZeros(Tail(ds)) ELSE ds
MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
NotMore(ds) ==           \* 20 digits
  \A i \in 1..20 : (\A j \in 1..(i - 1) : DigitVal[ds[j]] = MaxU64[j]) => DigitVal[ds[i]] <= MaxU64[i]
IsNumber(cs) ==
  LET b == IF cs # <<>> /\ cs[1] = "-" THEN Tail(cs) ELSE cs
      ds == SelectSeq(b, LAMBDA c : c \in AsciiDigits)
      z == DropZeros(ds)
  IN /\ \A i \in 1..Len(b) : b[i] \in AsciiDigits \cup {"."}
     /\ Len(b) <= Len(ds) + 1
     /\ ds # <<>>
     /\ Len(z) < 20 \/ (Len(z) = 20 /\ NotMore(z))
ParseLen(cs) ==
  LET n == Len(cs) IN
  IF n < 2 THEN [st |-> "no", css |-> "", unit |-> ""]
  ELSE LET unit == Lower(cs[n - 1]) \o Lower(cs[n])
           num == TrimR(SubSeq(cs, 1, n - 2))
       IN IF unit \notin Units THEN [st |-> "no", css |-> "", unit |-> ""]
          ELSE IF ~IsNumber(num) THEN [st |-> "no", css |-> "", unit |-> ""]
          ELSE [LenOf(Str(num), unit) EXCEPT !.unit = cs[n - 1] \o cs[n]]
SpaceL(len) ==
  SpaceN(IF len.css \in {"0", "-0"} /\ Lower(SubSeq(len.unit, 1, 1)) \o Lower(SubSeq(len.unit, 2, 2)) \notin {"em", "ex", "mu"}
         THEN len.css \o "rem" ELSE len.css)
IsMathUnit(u) == Len(u) = 2 /\ Lower(SubSeq(u, 1, 1)) = "m" /\ Lower(SubSeq(u, 2, 2)) = "u"

----------------------------------------------------------------------------
(* Macros: queueing a body in which arguments are replaced                     *)
RECURSIVE BodyToks(_, _, _, _, _, _)
BodyToks(m, body, i, args, s, e) ==
  IF i > Len(body) THEN <<>>
  ELSE LET b == body[i]
           toks == IF b.nm # "" THEN LET t == Lookup(m, b.nm) IN
                                     <<IF t.k = "unres" THEN QAt(t, s, e) ELSE QFix(t)>>
                   ELSE IF b.t.k = "carg"
                   THEN (IF args[b.t.na + 1] = <<>> THEN <<QAt(Kind("gb"), s, e), QAt(Kind("ge"), s, e)>> ELSE args[b.t.na + 1])
                   ELSE IF b.t.k = "unres" THEN <<QAt(b.t, s, e)>>
                   ELSE <<QFix(b.t)>>
       IN toks \o BodyToks(m, body, i + 1, args, s, e)
QueueBody(m, body, args, s, e) ==
  Load([m EXCEPT !.q = (IF body = <<>> THEN <<QAt(Kind("relax"), s, e)>> ELSE BodyToks(m, body, 1, args, s, e)) \o @])
RECURSIVE CmdArgs(_, _, _)
CmdArgs(m, na, acc) ==
  IF Len(acc) = na THEN [m |-> m, args |-> acc]
  ELSE LET n == NextAllow(m) IN
       IF ~OK(n.m) THEN [m |-> n.m, args |-> acc]
       ELSE IF n.t.k = "gb"
       THEN LET r == RecGroup(n.m, <<>>, 0, "arg") IN IF ~OK(r.m) THEN [m |-> r.m, args |-> acc] ELSE CmdArgs(r.m, na, Append(acc, r.toks))
       ELSE IF n.t.k = "eoi" THEN [m |-> Fail(n.m, MsgArgEoi, n.tk.s, n.tk.e), args |-> acc]
       ELSE CmdArgs(n.m, na, Append(acc, <<n.tk>>))

----------------------------------------------------------------------------
(* Definitions                                                                 *)
(* The body of a macro, up to the `}` (which is left): [m, toks].              *)
RECURSIVE RecBody(_, _, _)
RecBody(m, acc, depth) ==
  LET p == PeekAnyTok(m) t == Mean(m, p) IN
  IF t.k = "ge" /\ depth = 0 THEN [m |-> m, toks |-> acc]
  ELSE IF t.k = "eoi" THEN [m |-> Fail(m, MsgUnclosed("}"), p.s, p.e), toks |-> acc]
  ELSE LET n == NextAnyAllow(m) IN
       IF ~OK(n.m) THEN [m |-> n.m, toks |-> acc]
       ELSE RecBody(n.m, Append(acc, n.tk), depth + (IF t.k = "gb" THEN 1 ELSE IF t.k = "ge" THEN -1 ELSE 0))
MacroBody(m) == LET n == Next(m) IN IF OK(n.m) THEN RecBody(n.m, <<>>, 0) ELSE [m |-> n.m, toks |-> <<>>]

(* Tokens become a body: [m, body, cls]. A body which starts with a parameter  *)
(* has no class of its own ("-" while the body is read).                       *)
OwnClass(cls) == IF cls = "-" THEN "" ELSE cls
RECURSIVE MapBody(_, _, _, _, _, _)
MapBody(m, toks, i, na, acc, cls) ==
  IF i > Len(toks) THEN [m |-> m, body |-> acc, cls |-> OwnClass(cls)]
  ELSE LET tk == toks[i]
           t == Mean(m, tk)
           cls1 == IF cls = "" THEN ClassOf(t) ELSE cls
           rec == IF tk.nm # "" THEN QTok(Kind("none"), tk.nm, 0, 0, FALSE)
                  ELSE IF t.k = "unres" THEN QTok(Kind("none"), t.x, 0, 0, FALSE)
                  ELSE QFix(t)
       IN IF t.k = "param"
          THEN IF t.na >= na
               THEN [m |-> Fail(m, "Parameter number " \o ToString(t.na + 1) \o " is out of range. Expected a number of at most "
                                   \o ToString(na) \o ".", tk.s, tk.e), body |-> acc, cls |-> cls]
               ELSE MapBody(m, toks, i + 1, na, Append(acc, QFix([Kind("carg") EXCEPT !.na = t.na])), IF cls = "" THEN "-" ELSE cls)
          ELSE IF t.k \in {"newcmd", "let", "def", "global"}
          THEN [m |-> Fail(m, MsgArgSwitch, tk.s, tk.e), body |-> acc, cls |-> cls]
          ELSE MapBody(m, toks, i + 1, na, Append(acc, rec), cls1)

(* Queued tokens which were unknown get their meaning once there is one.       *)
Reresolve(m, nm) ==
  [m EXCEPT !.q = [i \in 1..Len(@) |-> IF @[i].nm = "" /\ @[i].t.k = "unres" /\ @[i].t.x = nm
                                       THEN [@[i] EXCEPT !.t = Lookup(m, nm)] ELSE @[i]]]
Define(m, nm, na, body, cls, global) ==
  LET t == [Kind("cref") EXCEPT !.na = na, !.cls = cls, !.body = body]
      set(f) == (nm :> t) @@ f
      m1 == IF global \/ m.opt.glob
            THEN [m EXCEPT !.doc = set(@), !.loc = Restrict(@, DOMAIN @ \ {nm})]
            ELSE [m EXCEPT !.loc = set(@)]
  IN Reresolve(m1, nm)

NewCommand(m0, mode) ==
  LET braced == PeekM(m0).k = "gb"
      n0 == IF braced THEN Next(m0) ELSE [m |-> m0, tk |-> EoiTok(0), t |-> Kind("none")]
  IN IF ~OK(n0.m) THEN n0.m ELSE
  LET n1 == NextAllow(n0.m) IN
  IF ~OK(n1.m) THEN n1.m ELSE
  LET unk == n1.t.k = "unres"
      nm == IF unk THEN n1.t.x ELSE n1.tk.nm
  IN IF unk /\ mode = "Renew" THEN Fail(n1.m, "This command is not defined.", n1.tk.s, n1.tk.e)
     ELSE IF ~unk /\ nm = "" THEN Fail(n1.m, "Expected the name of a command.", n1.tk.s, n1.tk.e)
     ELSE IF ~unk /\ mode = "New" THEN Fail(n1.m, "This command is already defined.", n1.tk.s, n1.tk.e)
     ELSE
  LET n2 == IF braced THEN Next(n1.m) ELSE n1 IN
  IF ~OK(n2.m) THEN n2.m
  ELSE IF braced /\ n2.t.k # "ge" THEN Fail(n2.m, "Expected exactly one token as argument.", n2.tk.s, n2.tk.e)
  ELSE
  LET hasnum == PeekM(n2.m).k = "lb"
      b1 == IF hasnum THEN Next(n2.m) ELSE n2
      b2 == IF hasnum /\ OK(b1.m) THEN Next(b1.m) ELSE b1
      b3 == IF hasnum /\ OK(b2.m) /\ b2.t.k = "digit" THEN Next(b2.m) ELSE b2
      na == IF hasnum /\ b2.t.k = "digit" THEN DigitVal[b2.t.x] ELSE 0
  IN IF ~OK(b3.m) THEN b3.m
     ELSE IF hasnum /\ b2.t.k # "digit" THEN Fail(b2.m, "Invalid parameter number. Must be 1-9.", b2.tk.s, b2.tk.e)
     ELSE IF hasnum /\ b3.t.k # "rb" THEN Fail(b3.m, "Invalid parameter number. Must be 1-9.", b3.tk.s, b3.tk.e)
     ELSE
  LET group == PeekM(b3.m).k = "gb"
      r == IF group THEN MacroBody(b3.m) ELSE [m |-> b3.m, toks |-> <<>>]
  IN IF ~OK(r.m) THEN r.m ELSE
  LET c == Next(r.m)    \* the closing brace, or the only token
  IN IF ~OK(c.m) THEN c.m
     ELSE IF ~group /\ c.t.k = "eoi" THEN Fail(c.m, MsgArgEoi, c.tk.s, c.tk.e)
     ELSE
  LET b == MapBody(c.m, IF group THEN r.toks ELSE <<c.tk>>, 1, na, <<>>, "") IN
  IF ~OK(b.m) \/ (mode = "Provide" /\ ~unk) THEN b.m
  ELSE Define(b.m, nm, na, b.body, b.cls, FALSE)

(* The name behind \def and \let: [m, nm].                                     *)
DefName(m) ==
  LET n == NextAllow(m) nm == IF n.t.k = "unres" THEN n.t.x ELSE n.tk.nm IN
  IF ~OK(n.m) THEN [m |-> n.m, nm |-> ""]
  ELSE IF nm = "" /\ n.t.k # "unres" THEN [m |-> Fail(n.m, "Expected the name of a command.", n.tk.s, n.tk.e), nm |-> ""]
  ELSE [m |-> n.m, nm |-> nm]
RECURSIVE SkipWsAny(_)
SkipWsAny(m) == IF OK(m) /\ PeekAnyTok(m).nm = "" /\ PeekAnyTok(m).t.k = "ws" THEN SkipWsAny(NextAny(m).m) ELSE m
RECURSIVE DefParams(_, _)
DefParams(m, na) ==
  LET p == PeekAnyTok(m) t == Mean(m, p) IN
  IF ~OK(m) \/ t.k = "gb" THEN [m |-> m, na |-> na]
  ELSE IF t.k = "param"
  THEN IF t.na # na
       THEN [m |-> Fail(m, "Expected parameter #" \o ToString(na + 1) \o ", found #" \o ToString(t.na + 1)
                           \o ". Parameters must be numbered consecutively, starting at 1.", p.s, p.e), na |-> na]
       ELSE DefParams(NextAny(m).m, na + 1)
  ELSE IF t.k = "eoi" THEN [m |-> Fail(m, MsgArgEoi, p.s, p.e), na |-> na]
  ELSE [m |-> Fail(m, "Delimited parameters are not supported. Expected \"#n\" or \"{\" here.", p.s, p.e), na |-> na]
DefCommand(m0, global) ==
  LET d == DefName(m0) IN
  IF ~OK(d.m) THEN d.m ELSE
  LET p == DefParams(SkipWsAny(d.m), 0) IN
  IF ~OK(p.m) THEN p.m ELSE
  LET r == MacroBody(p.m) c == IF OK(r.m) THEN Next(r.m) ELSE r IN
  IF ~OK(c.m) THEN c.m ELSE
  LET b == MapBody(c.m, r.toks, 1, p.na, <<>>, "") IN
  IF ~OK(b.m) THEN b.m ELSE Define(b.m, d.nm, p.na, b.body, b.cls, global)
LetCommand(m0, global) ==
  LET d == DefName(m0) IN
  IF ~OK(d.m) THEN d.m ELSE
  LET pk == PeekM(d.m)
      n0 == IF pk.k = "rel" /\ pk.x = "=" THEN Next(d.m) ELSE [m |-> d.m]
      n == IF OK(n0.m) THEN Next(n0.m) ELSE [m |-> n0.m, t |-> Kind("none"), tk |-> EoiTok(0)]
  IN IF ~OK(n.m) THEN n.m
     ELSE IF n.t.k = "eoi" THEN Fail(n.m, MsgArgEoi, n.tk.s, n.tk.e)
     ELSE IF n.t.k = "unres" THEN Fail(n.m, MsgUnknownCmd(n.t.x), n.tk.s, n.tk.e)
     ELSE Define(n.m, d.nm, 0, <<QFix(n.t)>>, ClassOf(n.t), global)
RECURSIVE GlobalPrefix(_)
GlobalPrefix(m) ==
  LET n == Next(m) IN
  IF ~OK(n.m) THEN n.m
  ELSE CASE n.t.k = "let" -> LetCommand(n.m, TRUE)
         [] n.t.k = "def" -> DefCommand(n.m, TRUE)
         [] n.t.k = "global" -> GlobalPrefix(n.m)
         [] n.t.k = "eoi" -> Fail(n.m, MsgArgEoi, n.tk.s, n.tk.e)
         [] OTHER -> Fail(n.m, MsgNotHere("\\global", "directly before \\let or \\def"), n.tk.s, n.tk.e)

----------------------------------------------------------------------------
(* Tables                                                                      *)
NoNum == [has |-> FALSE, sup |-> FALSE, tag |-> <<>>, paren |-> TRUE, label |-> <<>>, last |-> FALSE, dflt |-> TRUE, n |-> 0]
NoEnv == [col |-> FALSE, nl |-> FALSE, hl |-> FALSE, num |-> NoNum]
EnvNum(e) ==
  CASE e \in {"align", "equation", "gather"} -> [NoNum EXCEPT !.has = TRUE]
    [] e = "multline" -> [NoNum EXCEPT !.has = TRUE, !.last = TRUE, !.n = 1]
    [] e \in {"align*", "equation*", "gather*"} -> [NoNum EXCEPT !.has = TRUE, !.dflt = FALSE]
    [] OTHER -> NoNum
HasHlines(e) == e \in {"array", "darray", "subarray", "matrix", "pmatrix", "bmatrix", "Bmatrix", "vmatrix", "Vmatrix"}
EnvState(e) == [col |-> e \notin {"equation", "equation*", "gather", "gather*", "gathered", "multline"},
                nl |-> e \notin {"equation", "equation*"}, hl |-> HasHlines(e), num |-> EnvNum(e)]
EnvStyle(e) ==
  CASE e \in {"darray", "align", "align*", "aligned", "equation", "equation*", "gather", "gather*", "gathered", "multline", "dcases", "drcases"} -> "D"
    [] e = "subarray" -> "S"
    [] OTHER -> "T"
(* The tag of the row which ends: [num, eq, info].                             *)
NextTag(num, eq, lastrow) ==
  IF num.last /\ ~lastrow THEN [num |-> num, eq |-> eq, info |-> NoInfo]
  ELSE IF num.tag # <<>>
  THEN [num |-> [num EXCEPT !.tag = <<>>], eq |-> eq, info |-> [NoInfo EXCEPT !.has = TRUE, !.tag = num.tag[1], !.paren = num.paren]]
  ELSE IF num.sup \/ ~num.dflt THEN [num |-> [num EXCEPT !.sup = FALSE], eq |-> eq, info |-> NoInfo]
  ELSE [num |-> num, eq |-> eq + 1, info |-> [NoInfo EXCEPT !.has = TRUE, !.tag = ToString(eq + 1)]]
(* The end of a row: changes the state, and gives [m, info].                   *)
EndRow(m, lastrow) ==
  IF ~m.env.num.has THEN [m |-> m, info |-> NoInfo]
  ELSE LET t == NextTag(m.env.num, m.eq, lastrow)
           takes == lastrow \/ ~m.env.num.last
           lab == IF takes THEN t.num.label ELSE <<>>
           info == IF t.info.has /\ lab # <<>> THEN [t.info EXCEPT !.lab = TRUE, !.label = lab[1]] ELSE t.info
           m1 == [m EXCEPT !.env.num = IF takes THEN [t.num EXCEPT !.label = <<>>] ELSE t.num, !.eq = t.eq,
                           !.lab = IF info.lab THEN (info.label :> info.tag) @@ @ ELSE @]
       IN [m |-> m1, info |-> info]

(* The specification of columns: [ok, bleft, cols].                            *)
RECURSIVE ColSpec(_, _, _)
ColSpec(cs, i, sp) ==
  IF i > Len(cs) THEN [sp EXCEPT !.ok = \E j \in 1..Len(sp.cols) : ~sp.cols[j].only]
  ELSE LET c == cs[i] n == Len(sp.cols)
           line == IF c = "|" THEN "Solid" ELSE "Dashed"
       IN IF c = " " THEN ColSpec(cs, i + 1, sp)
          ELSE IF c \in {"l", "c", "r"} THEN ColSpec(cs, i + 1, [sp EXCEPT !.cols = Append(@, [only |-> FALSE, al |-> c, line |-> ""])])
          ELSE IF c \in {"|", ":"}
          THEN IF n > 0 /\ ~sp.cols[n].only /\ sp.cols[n].line = ""
               THEN ColSpec(cs, i + 1, [sp EXCEPT !.cols[n].line = line])
               ELSE IF n = 0 /\ sp.bleft = "" THEN ColSpec(cs, i + 1, [sp EXCEPT !.bleft = line])
               ELSE ColSpec(cs, i + 1, [sp EXCEPT !.cols = Append(@, [only |-> TRUE, al |-> "c", line |-> line])])
          ELSE [sp EXCEPT !.ok = FALSE]
NoSpec == [ok |-> FALSE, bleft |-> "", cols |-> <<>>]

TableOf(env, spec, top, m, info, c) ==
  LET spc == [cols |-> spec.cols, sub |-> env = "subarray"]
      tb(sty, gen, num) == TableN(sty, gen, spc, m.env.num.n, num, "", "", info, c)
      fence(o, cl, t) == Fenced(<<t>>, o, cl, "")
      d(x) == <<Delim(x, "A", "Z")>>
      topped(t) == [t EXCEPT !.btop = top]
  IN CASE env \in {"align", "align*"} -> tb("D", "A", "W")
       [] env \in {"equation", "equation*", "gather", "gather*"} -> tb("D", "C", "W")
       [] env = "multline" -> tb("D", "M", "N")
       [] env = "aligned" -> tb("D", "A", "")
       [] env = "gathered" -> tb("D", "C", "")
       [] env = "matrix" -> topped(tb("T", "C", ""))
       [] env = "cases" -> fence(d("{"), <<>>, tb("T", "S", ""))
       [] env = "dcases" -> fence(d("{"), <<>>, tb("D", "S", ""))
       [] env = "rcases" -> fence(<<>>, d("}"), tb("T", "S", ""))
       [] env = "drcases" -> fence(<<>>, d("}"), tb("D", "S", ""))
       [] env = "pmatrix" -> fence(d("("), d(")"), topped(tb("T", "C", "")))
       [] env = "bmatrix" -> fence(d("["), d("]"), topped(tb("T", "C", "")))
       [] env = "Bmatrix" -> fence(d("{"), d("}"), topped(tb("T", "C", "")))
       [] env = "vmatrix" -> fence(d("|"), d("|"), topped(tb("T", "C", "")))
       [] env = "Vmatrix" -> fence(d(Sym.dvert), d(Sym.dvert), topped(tb("T", "C", "")))
       [] env \in {"array", "darray", "subarray"} ->
            [topped(tb(EnvStyle(env), "X", "")) EXCEPT !.bleft = spec.bleft]

----------------------------------------------------------------------------
(* Delimiters                                                                  *)
(* gives <<>> or <<delimiter>>                                                 *)
DelimOf(t) ==
  CASE t.k \in {"ord", "open", "close"} ->
        (CASE t.p \in {"F", "G", "FG"} -> <<Delim(t.x, "A", "Z")>>
           [] t.p = "FGD" -> <<Delim(t.x, "P", "I")>>
           [] t.p = "K" -> <<Delim(t.x, "N", "Z")>>
           [] t.p = "KB" -> <<Delim(t.x, "N", "O")>>
           [] OTHER -> <<>>)
    [] t.k = "rel" /\ t.p = "A" -> <<Delim(t.x, "Y", "R")>>
    [] t.k \in {"fopen", "fclose"} /\ t.p = "Y" -> <<Delim(t.x, "N", "Z")>>
    [] t.k \in {"fopen", "fclose"} /\ t.p = "P" -> <<Delim(t.x, "A", "Z")>>
    [] t.k = "lb" -> <<Delim("[", "A", "Z")>>
    [] t.k = "rb" -> <<Delim("]", "A", "Z")>>
    [] OTHER -> <<>>
FailDelim(m, tk, cmd) == Fail(m, "There must be a parenthesis after " \o Q(cmd) \o ", but not found.", tk.s, tk.e)
IsDot(t) == t.k = "letter" /\ t.x = "." /\ t.q = "t"

----------------------------------------------------------------------------
(* Fonts                                                                       *)
TfMap(tf, x) == IF x \in DOMAIN RawVocab.tf[tf] THEN RawVocab.tf[tf][x] ELSE x
TfChar(tf, t) == TfMap(IF tf = "BoldItalic" /\ t.k = "upletter" THEN "Bold" ELSE tf, t.x)

Solidus == Sym.solidus
Overlaid(x, ov) ==
  IF ov = Solidus /\ x \in DOMAIN RawVocab.sol THEN RawVocab.sol[x]
  ELSE IF \E i \in 1..Len(x) : SubSeq(x, i, i) = ov THEN x
  ELSE IF ov = Solidus /\ Len(x) > 1 /\ SubSeq(x, Len(x), Len(x)) = Sym.vline
  THEN SubSeq(x, 1, Len(x) - 1) \o ov \o Sym.vline
  ELSE x \o ov
(* behind the first character of several                                       *)
FirstLen(x) == IF x = "" THEN 0
  ELSE LET n == IF Len(x) >= 2 /\ SubSeq(x, 1, 2) \in DOMAIN RawVocab.u8 THEN 2 ELSE 1 IN
       IF Len(x) > n /\ SubSeq(x, n + 1, n + 1) \in {Sym.vs1, Sym.vs2} THEN n + 1 ELSE n
OverlaidStr(x, ov) == SubSeq(x, 1, FirstLen(x)) \o ov \o SubSeq(x, FirstLen(x) + 1, Len(x))

----------------------------------------------------------------------------
(* Frames                                                                      *)
SeqFrame(m, end, prev, keep) ==
  [k |-> "seq", end |-> end, prev |-> prev, keep |-> keep, nodes |-> <<>>, cs |-> 0, inf |-> <<>>,
   tf0 |-> m.tf, sty0 |-> m.sty, col0 |-> m.env.col, nl0 |-> m.env.nl, ph |-> "loop", tgt |-> None]
PushSeq(m, end, prev, keep) ==
  LET m1 == Push(m, SeqFrame(m, end, prev, keep)) IN
  IF end \in {"G", "R", "B"} THEN [m1 EXCEPT !.env.col = FALSE, !.env.nl = FALSE] ELSE m1
TokFrame(tk, t, as, prev, once) == [k |-> "tok", tk |-> tk, t |-> t, as |-> as, prev |-> prev, once |-> once]
PushTok(n, as, prev) == Push(n.m, TokFrame(n.tk, n.t, as, prev, FALSE))
PushArg(m, as, prev) == Push(m, [k |-> "arg", as |-> as, prev |-> prev])
PushBnd(m, first) ==
  Push(m, [k |-> "bnd", first |-> first, sub |-> <<>>, sup |-> <<>>, lim |-> <<>>, cur |-> "", s |-> 0, e |-> 0, pn |-> <<>>, sty |-> ""])
PushText(m, st, voff, text) ==
  Push(m, [k |-> "text", text |-> text, ss |-> <<[n |-> 0, st |-> st, v |-> voff]>>, b |-> <<>>, nest |-> 0,
           sz |-> <<>>, acc |-> "", sn |-> <<>>])

InSeq(as) == as \in {"S", "C"}

----------------------------------------------------------------------------
(* Sequences                                                                   *)
EndKind == [E |-> "end", G |-> "ge", R |-> "right", B |-> "rb", I |-> "eoi"]
EndName(e) == CASE e = "G" -> "}" [] e = "E" -> "\\end{...}" [] e = "R" -> "\\right" [] e = "B" -> "]" [] e = "I" -> "end of input"
AtSep(m, t) == (t.k = "newcol" /\ m.env.col) \/ (t.k = "newline" /\ m.env.nl)
AtEnd(m, f, t) ==
  IF f.end = "any" THEN t.k \in {"eoi", "ge", "end", "right"} \/ AtSep(m, t)
  ELSE t.k = EndKind[f.end]

InfDelims(q) == CASE q = "()" -> <<"(", ")">> [] q = "{}" -> <<"{", "}">> [] q = "[]" -> <<"[", "]">>
Finish(f) ==
  IF f.inf = <<>> THEN f.nodes
  ELSE LET i == f.inf[1]
           frac == FracN(NodeOf(SubSeq(f.nodes, i.ns + 1, i.ds), FALSE), NodeOf(SubSeq(f.nodes, i.ds + 1, Len(f.nodes)), FALSE),
                         IF i.line THEN "" ELSE "0", "")
           node == IF i.delim = "" THEN frac
                   ELSE Fenced(<<frac>>, <<Delim(InfDelims(i.delim)[1], "A", "Z")>>, <<Delim(InfDelims(i.delim)[2], "A", "Z")>>, "")
       IN Append(SubSeq(f.nodes, 1, i.ns), node)

SeqEnd(m, f) ==
  LET n == IF f.keep THEN [m |-> m] ELSE Next(m) IN
  IF ~OK(n.m) THEN n.m
  ELSE RetNodes([n.m EXCEPT !.tf = f.tf0, !.sty = f.sty0, !.env.col = f.col0, !.env.nl = f.nl0], Finish(f))

RECURSIVE MergeRun(_, _)
MergeRun(m, acc) ==
  LET t == PeekM(m) IN
  IF ~OK(m) \/ t.k \notin Letterish \/ t.mt # "" \/ (t.k = "digit" /\ m.tf = "Normal") THEN [m |-> m, xs |-> acc]
  ELSE MergeRun(Next(m).m, Append(acc, IF m.tf = "Normal" THEN t.x ELSE TfChar(m.tf, t)))

NumEnv(m) == m.env.num.has
PlaceNum == "in a numbered equation environment"
(* Tokens without output: gives the new state, or the same one if the token    *)
(* isn't such a token.                                                         *)
NoOutputKinds == {"infix", "relax", "tfsw", "newcmd", "let", "def", "global", "vld", "nonum", "tag", "label"}
NoOutput(m, f, tk, t) ==
  CASE t.k = "infix" ->
         IF f.inf # <<>> THEN Fail(m, "Found more than one infix fraction in a group.", tk.s, tk.e)
         ELSE [SetTop(m, [f EXCEPT !.inf = <<[ds |-> Len(f.nodes), ns |-> f.cs, line |-> t.p = "l", delim |-> t.q]>>])
               EXCEPT !.sty = Shrink(@)]
    [] t.k = "relax" -> m
    [] t.k = "tfsw" -> [m EXCEPT !.tf = t.p]
    [] t.k = "newcmd" -> NewCommand(m, t.p)
    [] t.k = "let" -> LetCommand(m, FALSE)
    [] t.k = "def" -> DefCommand(m, t.p = "global")
    [] t.k = "global" -> GlobalPrefix(m)
    [] t.k = "vld" -> [m EXCEPT !.vld = t.p]
    [] t.k = "nonum" -> IF NumEnv(m) THEN [m EXCEPT !.env.num.sup = TRUE] ELSE m
    [] t.k = "tag" ->
         LET l == Literal(m) IN
         IF ~OK(l.m) THEN l.m
         ELSE IF NumEnv(m) THEN [l.m EXCEPT !.env.num.tag = <<Str(l.cs)>>, !.env.num.paren = t.q = "p"]
         ELSE Fail(l.m, MsgNotHere(IF t.q = "p" THEN "\\tag" ELSE "\\tag*", PlaceNum), tk.s, tk.e)
    [] t.k = "label" ->
         LET l == Literal(m) IN
         IF ~OK(l.m) THEN l.m
         ELSE IF ~NumEnv(m) THEN Fail(l.m, MsgNotHere("\\label", PlaceNum), tk.s, tk.e)
         ELSE IF m.env.num.label # <<>> THEN Fail(l.m, "Found more than one label in a row.", tk.s, tk.e)
         ELSE [l.m EXCEPT !.env.num.label = <<Str(l.cs)>>]

BoundStarters == {"us", "circ", "prime", "limits"}
LimName(p) == CASE p = "A" -> "\\limits" [] p = "N" -> "\\nolimits" [] p = "D" -> "\\displaylimits"
FailLimits(m, lim) == Fail(m, MsgNotHere(LimName(lim[1]), "after \\int, \\sum, ..."), lim[2], lim[3])

(* A node of the sequence has been read.                                       *)
SeqNode(m, f, n, cls) ==
  LET f1 == [f EXCEPT !.prev = cls] IN
  IF IsSep(n)
  THEN LET ns == Append(Finish(f1), n) IN
       [SetTop(m, [f1 EXCEPT !.nodes = ns, !.inf = <<>>, !.cs = Len(ns), !.ph = "loop"]) EXCEPT !.tf = f.tf0, !.sty = f.sty0]
  ELSE IF PeekM(m).k \in BoundStarters
  THEN PushBnd(SetTop(m, [f1 EXCEPT !.ph = "bnd", !.tgt = n]), <<>>)
  ELSE SetTop(m, [f1 EXCEPT !.nodes = Append(@, n), !.ph = "loop"])

WithScripts(n, b) ==
  IF n.t = "ms" /\ n.post = <<>> /\ (b.sub # <<>> \/ b.sup # <<>>)
  THEN [n EXCEPT !.post = <<<<OrEmpty(b.sub), OrEmpty(b.sup)>>>>]
  ELSE SubSupN(n, b.sub, b.sup)

SeqStep(m) ==
  LET f == Top(m) IN
  IF f.ph = "node"
  THEN IF m.ret.k = "exp"
       THEN IF PeekM(m).k = "relax"
            THEN LET n == Next(m) IN IF OK(n.m) THEN PushTok(n, "S", f.prev) ELSE n.m
            ELSE SetTop(m, [f EXCEPT !.ph = "loop"])
       ELSE SeqNode(m, f, m.ret.n, m.ret.cls)
  ELSE IF f.ph = "bnd"
  THEN IF m.ret.lim # <<>> THEN FailLimits(m, m.ret.lim)
       ELSE SetTop(m, [f EXCEPT !.nodes = Append(@, WithScripts(f.tgt, m.ret)), !.ph = "loop", !.tgt = None])
  ELSE LET t == PeekM(m) IN
       IF AtEnd(m, f, t) THEN SeqEnd(m, f)
       ELSE IF m.tf # "" /\ t.k \in Letterish /\ t.mt = "" /\ ~(t.k = "digit" /\ m.tf = "Normal")
       THEN LET r == MergeRun(m, <<>>) IN
            IF ~OK(r.m) THEN r.m
            ELSE SeqNode(r.m, f, IF Len(r.xs) = 1 THEN MiN(r.xs[1], m.tf = "Normal") ELSE MisN(Str(r.xs)), "Ord")
       ELSE LET n == Next(m) IN
            IF ~OK(n.m) THEN n.m
            ELSE IF n.t.k = "eoi" /\ f.end # "any" THEN Fail(n.m, MsgUnclosed(EndName(f.end)), n.tk.s, n.tk.e)
            ELSE IF n.t.k \in NoOutputKinds THEN NoOutput(n.m, f, n.tk, n.t)
            ELSE Push(SetTop(n.m, [f EXCEPT !.ph = "node"]), TokFrame(n.tk, n.t, "S", f.prev, TRUE))

----------------------------------------------------------------------------
(* Scripts                                                                     *)
PrimeSym(dir, n) ==
  IF dir = "F" THEN (CASE n = 1 -> Sym.prime1 [] n = 2 -> Sym.prime2 [] n = 3 -> Sym.prime3 [] n = 4 -> Sym.prime4)
  ELSE (CASE n = 1 -> Sym.rprime1 [] n = 2 -> Sym.rprime2 [] n = 3 -> Sym.rprime3)
PlainOp(x) == OpN(x, {}, "", "")
RECURSIVE PrimeRep(_, _)
PrimeRep(x, n) == IF n = 1 THEN <<PlainOp(x)>> ELSE PrimeRep(x, n - 1) \o <<SpaceN("-0.0833em"), PlainOp(x)>>
PrimeNodes(dir, n) ==
  IF n <= (IF dir = "F" THEN 4 ELSE 3) THEN <<PlainOp(PrimeSym(dir, n))>> ELSE PrimeRep(PrimeSym(dir, 1), n)
(* All primes that follow immediately: [m, nodes, circ].                       *)
RECURSIVE MorePrimes(_, _, _, _)
MorePrimes(m, dir, n, nodes) ==
  LET t == Mean(m, PeekAnyTok(m)) IN
  IF t.k = "prime"
  THEN LET x == NextAny(m) IN
       IF ~OK(x.m) THEN [m |-> x.m, nodes |-> nodes, circ |-> FALSE]
       ELSE IF t.q = dir THEN MorePrimes(x.m, dir, n + t.na, nodes)
       ELSE MorePrimes(x.m, t.q, t.na, nodes \o PrimeNodes(dir, n))
  ELSE IF t.k = "circ"
  THEN [m |-> NextAny(m).m, nodes |-> nodes \o PrimeNodes(dir, n), circ |-> TRUE]
  ELSE [m |-> m, nodes |-> nodes \o PrimeNodes(dir, n), circ |-> FALSE]

BndAdd(m, f, nodes) ==
  LET node == NodeOf(nodes, FALSE) IN
  IF f.cur = "us"
  THEN IF f.sub # <<>> THEN Fail(m, "Duplicate subscript or superscript.", f.s, f.e)
       ELSE SetTop(m, [f EXCEPT !.sub = <<node>>, !.cur = "", !.pn = <<>>])
  ELSE IF f.sup # <<>> THEN Fail(m, "Duplicate subscript or superscript.", f.s, f.e)
       ELSE SetTop(m, [f EXCEPT !.sup = <<node>>, !.cur = "", !.pn = <<>>])
BndArg(m, f) ==
  LET n == Next(m) IN
  IF ~OK(n.m) THEN n.m
  ELSE IF n.t.k \in {"us", "circ", "prime"}
  THEN Fail(n.m, "'^' or '_' directly followed by '^', '_' or prime.", n.tk.s, n.tk.e)
  ELSE IF n.t.k = "eoi" THEN Fail(n.m, MsgArgEoi, n.tk.s, n.tk.e)
  ELSE PushTok([n EXCEPT !.m = [SetTop(n.m, f) EXCEPT !.sty = Scriptify(m.sty)]], "A", "Ord")
BndStart(m, f, tk, t) ==
  CASE t.k = "limits" -> SetTop(m, [f EXCEPT !.lim = <<t.p, tk.s, tk.e>>])
    [] t.k \in {"us", "circ"} -> BndArg(m, [f EXCEPT !.cur = t.k, !.s = tk.s, !.e = tk.e, !.sty = m.sty])
    [] t.k = "prime" ->
         LET p == MorePrimes(m, t.q, t.na, <<>>)
             f1 == [f EXCEPT !.cur = "circ", !.s = tk.s, !.e = tk.e, !.sty = m.sty, !.pn = p.nodes]
         IN IF ~OK(p.m) THEN p.m
            ELSE IF p.circ THEN BndArg(p.m, f1) ELSE BndAdd(p.m, f1, p.nodes)
BndStep(m) ==
  LET f == Top(m) IN
  IF m.ret.k = "node" THEN BndAdd([m EXCEPT !.sty = f.sty], f, Append(f.pn, m.ret.n))
  ELSE IF f.first # <<>> THEN BndStart(m, [f EXCEPT !.first = <<>>], f.first[1], f.first[2])
  ELSE LET p == PeekTok(m) t == Unwrap(Mean(m, p)) IN
       IF t.k \notin BoundStarters THEN Ret(m, [k |-> "bnd", sub |-> f.sub, sup |-> f.sup, lim |-> f.lim])
       ELSE LET n == Next(m) IN IF OK(n.m) THEN BndStart(n.m, f, p, t) ELSE n.m
NoBnd == [k |-> "bnd", sub |-> <<>>, sup |-> <<>>, lim |-> <<>>]
Trivial(b) == b.sub = <<>> /\ b.sup = <<>>
Lim(b) == IF b.lim = <<>> THEN "" ELSE b.lim[1]

----------------------------------------------------------------------------
(* Text                                                                        *)
Flush(f) ==
  LET top == f.ss[Len(f.ss)] size == IF f.sz = <<>> THEN "" ELSE f.sz[Len(f.sz)].x IN
  IF f.b = <<>> \/ f.b[1] = "" THEN f
  ELSE [f EXCEPT !.sn = Append(@, [st |-> top.st, size |-> size, v |-> top.v, x |-> f.b[1]])]
RECURSIVE DropSizes(_, _, _)
DropSizes(sz, depth, nest) ==
  IF sz # <<>> /\ (sz[Len(sz)].d > depth \/ (sz[Len(sz)].d = depth /\ sz[Len(sz)].n > nest))
  THEN DropSizes(SubSeq(sz, 1, Len(sz) - 1), depth, nest) ELSE sz
(* The argument of a text command is over.                                     *)
PopText(f) ==
  LET d == Len(f.ss) IN
  [f EXCEPT !.ss = SubSeq(@, 1, d - 1), !.nest = f.ss[d].n, !.sz = DropSizes(@, d - 1, f.ss[d].n),
            !.b = IF d = 1 THEN <<>> ELSE <<"">>]
(* A piece of text on its own, without braces.                                 *)
Lone(f, x) == PopText([f EXCEPT !.sn = Flush([f EXCEPT !.b = <<x>>]).sn])
LoneAny(f, x) ==
  LET top == f.ss[Len(f.ss)] size == IF f.sz = <<>> THEN "" ELSE f.sz[Len(f.sz)].x IN
  PopText([f EXCEPT !.sn = Append(@, [st |-> top.st, size |-> size, v |-> top.v, x |-> x])])
AddChar(f, c) ==
  IF f.b # <<>> THEN [f EXCEPT !.b = <<f.b[1] \o c \o f.acc>>, !.acc = ""] ELSE LoneAny(f, c)
AddStr(f, x) == IF f.b # <<>> THEN [f EXCEPT !.b = <<f.b[1] \o x>>] ELSE LoneAny(f, x)
PushStyle(f, st, v) == [Flush(f) EXCEPT !.ss = Append(@, [n |-> f.nest, st |-> st, v |-> v]), !.nest = 0, !.b = <<>>]
NewStyle(cur, new) ==
  CASE cur = "Emphasis" /\ new = "Emphasis" -> ""
    [] {cur, new} = {"Bold", "Italic"} -> "BoldItalic"
    [] OTHER -> new
TextChars == {"open", "close", "ord", "bin", "rel", "frel", "punct"}
PrimeOrd(t) == PrimeSym(t.q, t.na)
TextSpace(x) ==
  CASE x = "1em" -> Sym.em [] x = "0.2777778em" -> Sym.third [] x = "0.22222222em" -> Sym.medmath
    [] x = "0.16666667em" -> Sym.thin [] OTHER -> ""
TextStep(m) ==
  LET f == Top(m) IN
  IF f.ss = <<>> THEN Ret(m, [k |-> "text", sn |-> f.sn]) ELSE
  LET n == IF f.text THEN NextAny(m) ELSE Next(m)
      t == n.t
      top == f.ss[Len(f.ss)]
      has == f.b # <<>>
      err(msg) == Fail(n.m, msg, n.tk.s, n.tk.e)
      go(g) == SetTop(n.m, g)
  IN IF ~OK(n.m) THEN n.m
     ELSE IF t.mt # "" THEN go(AddChar(f, t.mt))
     ELSE CASE t.k = "dollar" -> err(IF f.text THEN "Math mode within text mode is not implemented yet." ELSE "Unexpected \"$\".")
            [] t.k = "textmode" ->
                 IF ~f.text THEN err("Not valid in math mode.")
                 ELSE (CASE t.p = "Accent" -> IF has THEN go([f EXCEPT !.acc = t.x]) ELSE err(MsgArgEoi)
                        [] t.p = "Letter" -> go(AddChar(f, t.x))
                        [] t.p = "Style" -> go(PushStyle(f, t.x, top.v))
                        [] t.p = "Size" -> IF has THEN go([Flush(f) EXCEPT !.b = <<"">>,
                                                 !.sz = Append(@, [d |-> Len(f.ss), n |-> f.nest, x |-> t.x])])
                                           ELSE go(PopText(f)))
            [] t.k = "letter" /\ (t.q = "t" \/ ~f.text) -> go(AddChar(f, t.x))
            [] t.k = "lb" -> go(AddChar(f, "["))
            [] t.k = "rb" -> go(AddChar(f, "]"))
            [] t.k = "digit" -> go(AddChar(f, t.x))
            [] t.k \in {"ws", "nbsp"} -> go(AddChar(f, Sym.nbsp))
            [] t.k = "ilit" -> go(AddStr(f, t.x))
            [] t.k = "gb" -> go(IF has THEN [f EXCEPT !.nest = @ + 1] ELSE [f EXCEPT !.b = <<"">>])
            [] t.k = "ge" ->
                 IF ~has THEN err(MsgArgClose)
                 ELSE IF f.nest = 0 THEN go(PopText(Flush(f)))
                 ELSE LET nest == f.nest - 1
                          had == f.sz # <<>> /\ f.sz[Len(f.sz)].d = Len(f.ss) /\ f.sz[Len(f.sz)].n > nest
                      IN IF had THEN go([Flush(f) EXCEPT !.nest = nest, !.sz = DropSizes(@, Len(f.ss), nest), !.b = <<"">>])
                         ELSE go([f EXCEPT !.nest = nest])
            [] t.k = "text" -> go(PushStyle(f, NewStyle(top.st, t.p), top.v))
            [] t.k = "raisebox" ->
                 LET g == Flush(f) l == Literal(n.m) IN
                 IF ~OK(l.m) THEN l.m
                 ELSE LET len == ParseLen(l.cs) IN
                      IF len.st = "skip" THEN Skip(l.m)
                      ELSE IF len.st = "no" THEN Fail(l.m, MsgLength(Str(l.cs)), l.s, l.e)
                      ELSE IF IsMathUnit(len.unit) THEN Fail(l.m, MsgUnit(len.unit, FALSE), l.s, l.e)
                      ELSE SetTop(l.m, PushStyle([g EXCEPT !.b = <<>>], top.st, Append(top.v, len.css)))
            [] t.k = "eoi" -> err(IF has THEN MsgUnclosed("}") ELSE MsgArgEoi)
            [] t.k \in {"right", "end"} -> err(MsgArgClose)
            [] f.text -> err("Not valid in text mode.")
            [] t.k = "upletter" -> go(AddChar(f, t.x))
            [] t.k \in TextChars -> go(AddChar(f, t.x))
            [] t.k \in {"pop", "popl"} -> go(AddStr(f, t.x))
            [] t.k = "space" -> IF TextSpace(t.x) # "" THEN go(AddChar(f, TextSpace(t.x)))
                                ELSE IF has THEN go(f) ELSE go(PopText(f))
            [] t.k = "prime" -> go(AddChar(f, PrimeOrd(t)))
            [] OTHER -> err("Could not extract text from the given macro.")
RECURSIVE JoinText(_, _)
JoinText(sn, i) == IF i > Len(sn) THEN "" ELSE sn[i].x \o JoinText(sn, i + 1)
RECURSIVE JoinLens(_, _)
JoinLens(v, i) == v[i] \o (IF i = Len(v) THEN "" ELSE "+" \o JoinLens(v, i + 1))
(* The offsets that are left of a sum of them: a table.                        *)
Offsets(v) ==
  IF v = <<>> THEN <<>>
  ELSE IF Len(v) = 1 THEN (IF v[1] \in {"0", "-0"} THEN <<>> ELSE v)
  ELSE RawVocab.sums[JoinLens(v, 1)]
RECURSIVE Raised(_, _)
Raised(offs, n) == IF offs = <<>> THEN n ELSE ElN("mpadded", <<<<"voffset", offs[1]>>>>, <<Raised(Tail(offs), n)>>)
SnippetNode(s) == Raised(Offsets(s.v), TextN(s.x, s.st, s.size))
(* Other sums of several offsets are outside of what is specified.             *)
SumOfOffsets(sn) == \E i \in 1..Len(sn) : Len(sn[i].v) > 1 /\ JoinLens(sn[i].v, 1) \notin DOMAIN RawVocab.sums

----------------------------------------------------------------------------
(* Single tokens: those which are a node right away                            *)
Simple == {"digit", "letter", "upletter", "rel", "frel", "punct", "fpunct", "bin", "fbin", "inner", "finner", "ord", "ford",
           "space", "nbsp", "open", "close", "lb", "rb", "fopen", "fclose", "relax", "unres", "ilit", "newcol", "newline"}
Errors == {"tfsw", "nonum", "tag", "label", "newcmd", "let", "def", "global", "infix", "hline", "limits", "eoi", "end", "right",
           "ge", "textmode", "param", "dollar"}
FG == {"F", "G", "FG", "FGD"}
If(c, x) == IF c THEN {x} ELSE {}

RECURSIVE DigitRun(_, _)
DigitRun(m, acc) ==
  LET t == PeekM(m)
      i == FirstNW(m.q, FirstNW(m.q, 1) + 1)
  IN IF ~OK(m) THEN [m |-> m, x |-> acc]
     ELSE IF t.k = "digit" /\ t.mt = "" THEN DigitRun(Next(m).m, acc \o t.x)
     ELSE IF IsDot(t)
     THEN IF i <= Len(m.q) /\ IsLexErr(m.q[i]) THEN [m |-> FailLex(m, m.q[i]), x |-> acc]
          ELSE IF i <= Len(m.q) /\ Mean(m, m.q[i]).k = "digit" THEN DigitRun(Next(m).m, acc \o ".")
          ELSE [m |-> m, x |-> acc]
     ELSE [m |-> m, x |-> acc]

SimpleStep(m, f, nc) ==
  LET t == f.t tk == f.tk inseq == InSeq(f.as)
      op(fl, sp, cls) == RetNode(m, OpN(t.x, fl, sp[1], sp[2]), cls)
      tfd == m.tf # "" /\ m.tf # "Normal"
  IN CASE t.k = "digit" ->
            IF tfd THEN RetNode(m, MiN(TfMap(m.tf, t.x), FALSE), "Ord")
            ELSE IF f.as # "S" THEN RetNode(m, MnN(t.x), "Ord")
            ELSE LET r == DigitRun(m, t.x) IN IF OK(r.m) THEN RetNode(r.m, MnN(r.x), "Ord") ELSE r.m
       [] t.k \in {"letter", "upletter"} ->
            IF tfd THEN RetNode(m, MiN(TfChar(m.tf, t), FALSE), "Ord")
            ELSE RetNode(m, MiN(t.x, m.tf = "Normal" \/ t.k = "upletter"), "Ord")
       [] t.k = "rel" -> op(If(t.p = "A", "sf") \cup If(t.p = "D", "inf"), RelSpacing(m.sty, f.prev, nc, FALSE), "Rel")
       [] t.k = "frel" -> op({}, IF inseq THEN RelSpacing(m.sty, f.prev, nc, TRUE) ELSE <<"", "">>, "Rel")
       [] t.k \in {"bin", "fbin"} ->
            LET s == BinSpacing(m.sty, inseq, f.prev, nc, t.k = "fbin") IN op({}, <<s, s>>, IF s = "0" THEN "Ord" ELSE "Bin")
       [] t.k \in {"punct", "fpunct"} -> op({}, PunctSpacing(m.sty, nc, t.k = "fpunct"), "Punct")
       [] t.k \in {"inner", "finner"} -> op({}, InnerSpacing(m.sty, f.prev, nc, t.k = "finner"), "Inner")
       [] t.k = "ord" ->
            IF t.x = "|" /\ t.p = "FGD" /\ m.vld # ""
            THEN LET s == IF m.vld = "OS" THEN "3" ELSE "" IN op({"inf"} \cup If(m.vld # "R", "st"), <<s, s>>, "Ord")
            ELSE LET s == IF t.p \in {"KB", "FGD"} THEN "0" ELSE "" IN op(If(t.p \in FG, "sf"), <<s, s>>, "Ord")
       [] t.k = "ford" -> op({}, <<"0", "0">>, "Ord")
       [] t.k = "space" -> RetNode(m, SpaceN(t.x), f.prev)
       [] t.k = "nbsp" -> RetNode(m, TextN(Sym.nbsp, "", ""), "Ord")
       [] t.k \in {"open", "close"} ->
            op(If(t.p \in {"FG", "FGD", "DE"}, IF t.k = "open" THEN "pre" ELSE "post") \cup If(t.p \in FG, "sf"), <<"", "">>,
               IF t.k = "open" THEN "Open" ELSE "Ord")
       [] t.k = "lb" -> RetNode(m, OpN("[", {"sf"}, "", ""), "Open")
       [] t.k = "rb" -> RetNode(m, OpN("]", {"sf"}, "", ""), "Ord")
       [] t.k = "fopen" -> op({"pre"}, <<"0", "0">>, "Open")
       [] t.k = "fclose" -> op({"post"}, <<"0", "0">>, "Close")
       [] t.k = "relax" -> RetNode(m, EmptyRow, "Ord")
       [] t.k = "unres" -> RetNode(m, UnkN(t.x), "Ord")
       [] t.k = "ilit" ->
            RetNode(m, MisN(IF tfd THEN Str([i \in 1..Len(t.x) |-> TfMap(m.tf, SubSeq(t.x, i, i))]) ELSE t.x), "Ord")
       [] t.k = "newcol" ->
            IF ~m.env.col THEN Fail(m, MsgNotHere("&", "in a table-like environment"), tk.s, tk.e)
            ELSE IF f.as # "S" THEN Fail(m, MsgArgSwitch, tk.s, tk.e)
            ELSE RetNode(m, ColSep, "Close")
       [] t.k = "newline" ->
            IF ~m.env.nl THEN RetNode(m, EmptyRow, "Open")
            ELSE IF f.as # "S" THEN Fail(m, MsgArgSwitch, tk.s, tk.e)
            ELSE LET h == PeekM(m)
                     hl == m.env.hl /\ h.k = "hline"
                     n == IF hl THEN Next(m) ELSE [m |-> m]
                 IN IF ~OK(n.m) THEN n.m
                    ELSE LET m1 == IF NumEnv(n.m) /\ n.m.env.num.n > 0 THEN [n.m EXCEPT !.env.num.n = @ + 1] ELSE n.m
                             r == EndRow(m1, FALSE)
                         IN RetNode(r.m, RowSep(r.info, IF hl THEN h.p ELSE ""), "Open")

ErrorStep(m, f) ==
  LET t == f.t err(x) == Fail(m, x, f.tk.s, f.tk.e) IN
  CASE t.k = "hline" -> err(MsgNotHere(IF t.p = "Solid" THEN "\\hline" ELSE "\\hdashline",
                                       "directly after a `\\\\` or at the beginning of an array or matrix"))
    [] t.k = "limits" -> FailLimits(m, <<t.p, f.tk.s, f.tk.e>>)
    [] t.k = "eoi" -> err(MsgArgEoi)
    [] t.k \in {"end", "right", "ge"} ->
         err(IF InSeq(f.as) THEN MsgUnmatched(CASE t.k = "end" -> "\\end{...}" [] t.k = "right" -> "\\right" [] t.k = "ge" -> "}")
             ELSE MsgArgClose)
    [] t.k = "textmode" -> err("Not valid in math mode.")
    [] t.k = "param" -> err("Macro parameter found outside of custom command definition.")
    [] t.k = "dollar" -> err("Unexpected \"$\".")
    [] OTHER -> err(MsgArgSwitch)

(* An expansion: its first token is read next, by whoever wanted a token.      *)
Expanded(m, f) == IF f.once THEN Ret(m, [k |-> "exp"]) ELSE SetTop(m, [k |-> "arg", as |-> f.as, prev |-> f.prev])
Expanding == {"bcmd", "cref", "dots", "mathchoice", "mci"}
MciBody(t, sty) == t.body[CASE sty = "D" -> 1 [] sty = "T" -> 2 [] sty = "S" -> 3 [] sty = "SS" -> 4]
ExpandStep(m, f, nc) ==
  LET t == f.t tk == f.tk IN
  CASE t.k = "dots" -> Expanded(QueueBody(m, Cmds[IF nc \in {"Bin", "Rel"} THEN "cdots" ELSE "ldots"].body, <<>>, 0, 0), f)
    [] t.k = "mci" -> Expanded(Load([m EXCEPT !.q = <<QAt(MciBody(t, m.sty).t, tk.s, tk.e)>> \o @]), f)
    [] t.k = "mathchoice" ->
         LET a == CmdArgs(m, 4, <<>>) IN
         IF ~OK(a.m) THEN a.m
         ELSE LET x == a.args[CASE m.sty = "D" -> 1 [] m.sty = "T" -> 2 [] m.sty = "S" -> 3 [] m.sty = "SS" -> 4] IN
              Expanded(Load([a.m EXCEPT !.q = (IF x = <<>> THEN <<QAt(Kind("relax"), tk.s, tk.e)>> ELSE x) \o @]), f)
    [] OTHER ->
         IF m.exp = 0 THEN Fail(m, "Too many expansions of custom commands. A command may be expanding to itself.", tk.s, tk.e)
         ELSE LET a == CmdArgs([m EXCEPT !.exp = @ - 1], t.na, <<>>) IN
              IF ~OK(a.m) THEN a.m
              ELSE LET m1 == QueueBody(a.m, t.body, a.args, tk.s, tk.e) IN IF OK(m1) THEN Expanded(m1, f) ELSE m1

CmdFrame(f, nc) ==
  [k |-> "cmd", t |-> f.t, s |-> f.tk.s, e |-> f.tk.e, as |-> f.as, prev |-> f.prev, nc |-> nc, a |-> <<>>, x |-> <<>>,
   sv |-> <<>>]
TokStep(m) ==
  LET f == Top(m)
      c == NextClass(m, InSeq(f.as))
      nc == IF m.hack /\ c.c = "End" THEN "Ord" ELSE c.c
  IN IF ~OK(c.m) THEN c.m
     ELSE IF f.t.k \in Simple THEN SimpleStep(m, f, nc)
     ELSE IF f.t.k \in Errors THEN ErrorStep(m, f)
     ELSE IF f.t.k \in Expanding THEN ExpandStep(m, f, nc)
     ELSE SetTop(m, CmdFrame(f, nc))
ArgStep(m) ==
  LET f == Top(m) n == Next(m) IN
  IF OK(n.m) THEN SetTop(n.m, TokFrame(n.tk, n.t, f.as, f.prev, FALSE)) ELSE n.m

----------------------------------------------------------------------------
(* Commands: f.a holds what the arguments so far have returned                 *)
Arg(f, i) == f.a[i].n
(* A token which may be the `[` of an optional argument.                       *)
Wrapped(target, b, under) == IF under THEN UnderOverN(target, b.sub, b.sup) ELSE SubSupN(target, b.sub, b.sup)

OpStep(m, f) ==       \* op, flop, pop, popl: b are the bounds
  LET t == f.t
      n == Len(f.a)
  IN IF n = 0 /\ ~(t.k = "op" /\ t.p = "C") THEN PushBnd(m, <<>>)
     ELSE LET b == IF n = 0 THEN NoBnd ELSE f.a[1]
              lim == Lim(b)
              c == NextClass(m, InSeq(f.as))
              sp == OpSpacing(m.sty, f.prev, c.c, t.k # "op")
              J == t.k = "op" /\ t.p = "J"
              under == CASE Trivial(b) -> FALSE
                         [] t.k = "op" -> IF lim = "" THEN J ELSE lim # "N"
                         [] t.k = "flop" -> lim # "N"
                         [] OTHER -> IF lim = "" THEN t.k = "popl" ELSE lim # "N"
              fl == CASE Trivial(b) -> {}
                      [] t.k = "op" -> (CASE lim = "D" /\ ~J -> {"ml"} [] lim = "A" /\ J -> {"mlf"} [] OTHER -> {})
                      [] t.k = "flop" -> IF lim \in {"", "D"} THEN {"ml"} ELSE {}
                      [] OTHER -> IF lim = "D" \/ (lim = "" /\ t.k = "popl") THEN {"ml"} ELSE {}
              base == IF t.k = "flop" THEN {"sym", "lo"} ELSE {}
              target == IF t.k \in {"pop", "popl"} THEN PopN(t.x, fl, sp[1], sp[2]) ELSE OpN(t.x, base \cup fl, sp[1], sp[2])
          IN IF ~OK(c.m) THEN c.m ELSE RetNode(m, Wrapped(target, b, under), "Op")

ClassSpacing(m, cls, prev, nc, inseq) ==
  CASE cls = "Op" -> OpSpacing(m.sty, prev, nc, TRUE)
    [] cls = "Bin" -> LET s == BinSpacing(m.sty, inseq, prev, nc, TRUE) IN <<s, s>>
    [] cls = "Rel" -> RelSpacing(m.sty, prev, nc, TRUE)
    [] cls = "Punct" -> PunctSpacing(m.sty, nc, TRUE)
    [] cls = "Inner" -> InnerSpacing(m.sty, prev, nc, TRUE)
    [] OTHER -> <<"0", "0">>
PadLen(s) == SpLen(s)
Padded(n, sp) ==
  ElN("mpadded", LET st == (IF sp[1] = "" THEN "" ELSE "padding-left:" \o PadLen(sp[1]) \o ";")
                           \o (IF sp[2] = "" THEN "" ELSE "padding-right:" \o PadLen(sp[2]) \o ";")
                 IN IF st = "" THEN <<>> ELSE <<<<"style", st>>>>, <<n>>)
MathClassStep(m, f) ==
  IF Len(f.a) = 0
  THEN LET n == Next(m) IN
       IF OK(n.m) THEN PushTok([n EXCEPT !.m = SetTop(n.m, [f EXCEPT !.x = <<n.tk.s, n.tk.e>>])], f.as, f.prev) ELSE n.m
  ELSE LET c == NextClass(m, InSeq(f.as))
           sp == ClassSpacing(m, f.t.p, f.prev, c.c, InSeq(f.as))
           n == Arg(f, 1)
       IN IF IsSep(n) THEN Fail(m, MsgArgSwitch, f.x[1], f.x[2])
          ELSE IF ~OK(c.m) THEN c.m
          ELSE RetNode(m, IF n.t = "op" THEN [n EXCEPT !.fl = IF "st" \in @ \/ n.sz # "" THEN @ ELSE @ \cup {"sf"}, !.l = sp[1], !.r = sp[2]]
                          ELSE IF PlainEmptyRow(n) THEN OpN(Sym.isep, {}, sp[1], sp[2])
                          ELSE Padded(n, sp), f.t.p)

(* The style of a fraction's parts.                                            *)
FracStyle(sty, p) == CASE p = "" -> Shrink(sty) [] p \in {"c", "d"} -> "T" [] p = "t" -> "S"
Parens == <<Delim("(", "A", "Z"), Delim(")", "A", "Z")>>
FracStep(m, f) ==
  LET n == Len(f.a) IN
  CASE n = 0 -> PushArg([SetTop(m, [f EXCEPT !.sv = <<m.sty>>]) EXCEPT !.sty = FracStyle(m.sty, f.t.p)], "A", "Ord")
    [] n = 1 -> PushArg(m, "A", "Ord")
    [] n = 2 -> LET fr == FracN(Arg(f, 1), Arg(f, 2), IF f.t.k = "binom" THEN "0" ELSE "", f.t.p) IN
                RetNode([m EXCEPT !.sty = f.sv[1]],
                        IF f.t.k = "binom" THEN Fenced(<<fr>>, <<Parens[1]>>, <<Parens[2]>>, "") ELSE fr, "Ord")
(* One of the two delimiters of \genfrac: [m, d].                              *)
GenDelim(m) ==
  LET r == OneOrNone(ReadArg(m, FALSE)) IN
  IF ~OK(r.m) \/ r.toks = <<>> THEN [m |-> r.m, d |-> <<>>]
  ELSE LET d == DelimOf(Mean(r.m, r.toks[1])) IN
       [m |-> IF d = <<>> THEN FailDelim(r.m, r.toks[1], "\\genfrac") ELSE r.m, d |-> d]
GenStyle == [c \in {"0", "1", "2", "3"} |-> CASE c = "0" -> "D" [] c = "1" -> "T" [] c = "2" -> "S" [] c = "3" -> "SS"]
GenfracStep(m, f) ==
  LET n == Len(f.a) IN
  CASE n = 0 ->
         LET o == GenDelim(m) IN IF ~OK(o.m) THEN o.m ELSE
         LET c == GenDelim(o.m) IN IF ~OK(c.m) THEN c.m ELSE
         LET l == Literal(c.m) IN IF ~OK(l.m) THEN l.m ELSE
         LET cs == Trim(l.cs) len == ParseLen(cs) IN
         IF cs # <<>> /\ len.st = "skip" THEN Skip(l.m)
         ELSE IF cs # <<>> /\ len.st = "no" THEN Fail(l.m, MsgLength(Str(cs)), l.s, l.e)
         ELSE LET s == OneOrNone(ReadArg(l.m, FALSE)) IN IF ~OK(s.m) THEN s.m ELSE
         LET t == IF s.toks = <<>> THEN Kind("none") ELSE Mean(s.m, s.toks[1]) IN
         IF s.toks # <<>> /\ ~(t.k = "digit" /\ t.x \in DOMAIN GenStyle)
         THEN Fail(s.m, MsgArgEoi, s.toks[1].s, s.toks[1].e)
         ELSE PushArg(SetTop(s.m, [f EXCEPT !.x = <<o.d, c.d, IF cs = <<>> THEN "" ELSE len.css,
                                                   IF s.toks = <<>> THEN "" ELSE GenStyle[t.x]>>]), "A", "Ord")
    [] n = 1 -> PushArg(m, "A", "Ord")
    [] n = 2 -> RetNode(m, Fenced(<<FracN(Arg(f, 1), Arg(f, 2), f.x[3], "")>>, f.x[1], f.x[2], f.x[4]), "Ord")

SqrtStep(m, f) ==
  LET n == Len(f.a) IN
  CASE n = 0 -> LET x == Next(m) IN
                IF ~OK(x.m) THEN x.m
                ELSE IF x.t.k = "lb" THEN PushSeq([SetTop(x.m, [f EXCEPT !.x = <<"deg">>, !.sv = <<m.sty>>]) EXCEPT !.sty = "SS"], "B", "Open", FALSE)
                ELSE PushTok(x, "A", "Ord")
    [] n = 1 /\ f.x = <<>> -> RetNode(m, ElN("msqrt", <<>>, <<Arg(f, 1)>>), "Ord")
    [] n = 1 -> PushArg([m EXCEPT !.sty = f.sv[1]], "A", "Ord")
    [] n = 2 -> RetNode(m, ElN("mroot", <<>>, <<Arg(f, 2), NodeOf(f.a[1].ns, TRUE)>>), "Ord")

AccentEl(over, attr, target, x) ==
  ElN(IF over THEN "mover" ELSE "munder", <<<<IF over THEN "accent" ELSE "accentunder", "true">>>>,
      <<target, OpN(x, CASE attr = "true" -> {"st"} [] attr = "false" -> {"sf"} [] OTHER -> {}, "", "")>>)
AccentStep(m, f) ==
  LET n == Len(f.a) over == f.t.p = "o" IN
  CASE n = 0 -> PushArg(m, "W", "Ord")
    [] n = 1 /\ f.t.k = "accent" -> RetNode(m, AccentEl(over, f.t.q, Arg(f, 1), f.t.x), "Ord")
    [] n = 1 -> LET o == f.t.q = "o" base == AccentEl(o, "", Arg(f, 1), f.t.x) IN
                IF PeekM(m).k = (IF o THEN "circ" ELSE "us")
                THEN LET x == Next(m) IN
                     IF OK(x.m) THEN PushArg([SetTop(x.m, [f EXCEPT !.sv = <<m.sty>>]) EXCEPT !.sty = Scriptify(m.sty)], "A", "Ord") ELSE x.m
                ELSE RetNode(m, base, "Ord")
    [] n = 2 -> LET o == f.t.q = "o" IN
                RetNode([m EXCEPT !.sty = f.sv[1]], ElN(IF o THEN "mover" ELSE "munder", <<>>, <<AccentEl(o, "", Arg(f, 1), f.t.x), Arg(f, 2)>>), "Ord")

OsetStep(m, f) ==
  LET n == Len(f.a) IN
  CASE n = 0 -> PushArg([SetTop(m, [f EXCEPT !.sv = <<m.sty, m.hack>>]) EXCEPT !.sty = Scriptify(m.sty)], "A", "Ord")
    [] n = 1 -> LET x == Next([m EXCEPT !.sty = f.sv[1]]) IN
                IF OK(x.m) THEN PushTok([x EXCEPT !.m = [x.m EXCEPT !.hack = TRUE]], "C", f.prev) ELSE x.m
    [] n = 2 -> RetNode([m EXCEPT !.hack = f.sv[2]],
                        ElN(IF f.t.q = "o" THEN "mover" ELSE "munder", <<>>, <<Arg(f, 2), Arg(f, 1)>>), f.a[2].cls)

OverlayStep(m, f) ==
  IF Len(f.a) = 0
  THEN LET n == Next(m) IN
       IF OK(n.m) THEN PushTok([n EXCEPT !.m = SetTop(n.m, [f EXCEPT !.x = <<n.tk.s, n.tk.e>>])], f.as, f.prev) ELSE n.m
  ELSE LET n == Arg(f, 1) cls == f.a[1].cls IN
       CASE n.t \in {"op", "mi"} -> RetNode(m, [n EXCEPT !.x = Overlaid(@, f.t.x)], cls)
         [] n.t \in {"pop", "mis"} -> RetNode(m, [n EXCEPT !.x = OverlaidStr(@, f.t.x)], cls)
         [] OTHER -> Fail(m, "Expected a relation after \\not.", f.x[1], f.x[2])

GroupStep(m, f) ==
  IF Len(f.a) = 0 THEN PushSeq(m, "G", IF f.as = "C" THEN f.prev ELSE "Open", FALSE)
  ELSE RetNode(m, NodeOf(f.a[1].ns, f.as = "A"), "Ord")
LeftStep(m, f) ==
  LET n == Next(m) dot == IsDot(n.t) d == IF dot THEN <<>> ELSE DelimOf(n.t) IN
  IF ~OK(n.m) THEN n.m
  ELSE IF ~dot /\ d = <<>> THEN FailDelim(n.m, n.tk, IF Len(f.a) = 0 THEN "\\left" ELSE "\\right")
  ELSE IF Len(f.a) = 0 THEN PushSeq(SetTop(n.m, [f EXCEPT !.x = d]), "R", "Open", FALSE)
  ELSE RetNode(n.m, Fenced(f.a[1].ns, f.x, d, ""), "Ord")
MiddleStep(m, f) ==
  LET n == Next(m) d == DelimOf(n.t) IN
  IF ~OK(n.m) THEN n.m
  ELSE IF d = <<>> THEN FailDelim(n.m, n.tk, "\\middle")
  ELSE LET s == IF d[1].sp = "Z" THEN "" ELSE "0" IN
       RetNode(n.m, OpN(d[1].x, CASE d[1].st \in {"P", "N"} -> {"st"} [] d[1].st = "Y" -> {"sym"} [] OTHER -> {}, s, s), "Open")
BigStep(m, f) ==
  LET n == Next(m) d == DelimOf(n.t) q == f.t.q IN
  IF ~OK(n.m) THEN n.m
  ELSE IF d = <<>> THEN FailDelim(n.m, n.tk, "\\big, \\Big, ...")
  ELSE LET c == NextClass(n.m, q = "m" /\ InSeq(f.as))
           st == CASE d[1].st \in {"P", "N"} -> {"st", "sym"} [] d[1].st = "Y" -> {"sym"} [] OTHER -> {}
           inf == d[1].sp = "I"
           form == IF ~inf THEN {} ELSE CASE q = "m" -> {"inf"} [] q = "l" -> {"pre"} [] q = "r" -> {"post"} [] OTHER -> {}
           sp == IF q = "m" THEN RelSpacing(m.sty, f.prev, c.c, d[1].sp \notin {"I", "R"})
                 ELSE IF q # "" /\ inf THEN <<"", "">>
                 ELSE IF d[1].sp \in {"I", "R", "O"} THEN <<"0", "0">> ELSE <<"", "">>
       IN IF ~OK(c.m) THEN c.m
          ELSE RetNode(n.m, [OpN(d[1].x, st \cup form, sp[1], sp[2]) EXCEPT !.sz = f.t.p],
                       CASE q = "l" -> "Open" [] q = "r" -> "Close" [] q = "m" -> "Rel" [] OTHER -> "Ord")

BeginStep(m, f) ==
  LET env == f.t.p arr == env \in {"array", "darray", "subarray"} IN
  IF Len(f.a) = 0
  THEN LET l == IF arr THEN Literal(m) ELSE [m |-> m, cs |-> <<>>, s |-> 0, e |-> 0] IN
       IF ~OK(l.m) THEN l.m ELSE
       LET spec == IF arr THEN ColSpec(l.cs, 1, NoSpec) ELSE [NoSpec EXCEPT !.ok = TRUE] IN
       IF ~spec.ok THEN Fail(l.m, "Expected column specification, found " \o Q(Str(l.cs)) \o ".", l.s, l.e)
       ELSE LET h == PeekM(l.m) hl == HasHlines(env) /\ h.k = "hline"
                n == IF hl THEN Next(l.m) ELSE [m |-> l.m]
            IN IF ~OK(n.m) THEN n.m
               ELSE IF ~InSeq(f.as) THEN Fail(n.m, MsgArgSwitch, f.s, f.e)
               ELSE PushSeq([SetTop(n.m, [f EXCEPT !.x = <<spec, IF hl THEN h.p ELSE "">>, !.sv = <<m.sty, m.env>>])
                             EXCEPT !.sty = EnvStyle(env), !.env = EnvState(env)], "E", "Open", TRUE)
  ELSE LET n == Next(m) IN
       IF ~OK(n.m) THEN n.m
       ELSE IF n.t.p # env
       THEN Fail(n.m, "Expected " \o Q("\\end{" \o env \o "}") \o ", but found " \o Q("\\end{" \o n.t.p \o "}") \o ".", n.tk.s, n.tk.e)
       ELSE LET r == EndRow(n.m, TRUE) IN
            RetNode([r.m EXCEPT !.sty = f.sv[1], !.env = f.sv[2]],
                    TableOf(env, f.x[1], f.x[2], r.m, r.info, f.a[1].ns), "Close")

OpnameStep(m, f) ==
  LET n == Len(f.a) IN
  CASE n = 0 -> PushText(m, "", <<>>, FALSE)
    [] n = 1 -> PushBnd(m, <<>>)
    [] n = 2 -> OpStep(m, [f EXCEPT !.t = [f.t EXCEPT !.k = IF f.t.q = "l" THEN "popl" ELSE "pop", !.x = JoinText(f.a[1].sn, 1)],
                                    !.a = <<f.a[2]>>])
TextCmdStep(m, f) ==
  IF Len(f.a) = 0
  THEN IF f.t.k = "text" THEN PushText(m, f.t.p, <<>>, TRUE)
       ELSE LET l == Literal(m) IN
            IF ~OK(l.m) THEN l.m
            ELSE LET len == ParseLen(l.cs) IN
                 IF len.st = "skip" THEN Skip(l.m)
                 ELSE IF len.st = "no" THEN Fail(l.m, MsgLength(Str(l.cs)), l.s, l.e)
                 ELSE IF IsMathUnit(len.unit) THEN Fail(l.m, MsgUnit(len.unit, FALSE), l.s, l.e)
                 ELSE PushText(l.m, "", <<len.css>>, TRUE)
  ELSE LET sn == f.a[1].sn IN
       IF SumOfOffsets(sn) THEN Skip(m)
       ELSE RetNode(m, NodeOf([i \in 1..Len(sn) |-> SnippetNode(sn[i])], FALSE), "Close")

CrampedStep(m, f) ==
  LET row(n, sty) == [RowN(<<n>>) EXCEPT !.shift = TRUE, !.sty = sty] IN
  IF Len(f.a) = 1 THEN RetNode([m EXCEPT !.sty = IF f.x = <<>> THEN @ ELSE f.sv[1]], row(Arg(f, 1), IF f.x = <<>> THEN "" ELSE f.x[1]), "Ord")
  ELSE LET n == Next(m) IN
       IF ~OK(n.m) THEN n.m
       ELSE IF n.t.k # "lb" THEN PushTok(n, "A", f.prev)
       ELSE LET s == Next(n.m) IN
            IF ~OK(s.m) THEN s.m
            ELSE IF s.t.k = "rb" THEN PushArg(s.m, "A", "Ord")
            ELSE IF s.t.k # "style"
            THEN Fail(s.m, "Expected one of `\\displaystyle`, `\\textstyle`, `\\scriptstyle`, or `\\scriptscriptstyle`", s.tk.s, s.tk.e)
            ELSE LET c == Next(s.m) IN
                 IF ~OK(c.m) THEN c.m
                 ELSE IF c.t.k # "rb" THEN Fail(c.m, "Expected at most one token as argument.", c.tk.s, c.tk.e)
                 ELSE PushArg([SetTop(c.m, [f EXCEPT !.x = <<s.t.p>>, !.sv = <<m.sty>>]) EXCEPT !.sty = s.t.p], "A", "Ord")

MsgColor(x) == "Unknown color " \o Q(x) \o "."
HexDigits == "0123456789ABCDEF"
HexVal(c) ==
  LET s == CASE c = "a" -> "A" [] c = "b" -> "B" [] c = "c" -> "C" [] c = "d" -> "D" [] c = "e" -> "E" [] c = "f" -> "F" [] OTHER -> c IN
  IF \E i \in 1..16 : SubSeq(HexDigits, i, i) = s THEN s ELSE "0"
HexOf(n) == LET a == n \div 16 b == n % 16 IN SubSeq(HexDigits, a + 1, a + 1) \o SubSeq(HexDigits, b + 1, b + 1)
RECURSIVE SplitComma(_, _, _)
SplitComma(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] = "," THEN SplitComma(cs, i + 1, Append(acc, <<>>))
  ELSE SplitComma(cs, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, cs[i])])
RECURSIVE IntOf(_, _, _)
IntOf(cs, i, acc) == IF i > Len(cs) \/ cs[i] = "." THEN acc ELSE IntOf(cs, i + 1, IF acc > 255 THEN 255 ELSE acc * 10 + DigitVal[cs[i]])
IsHex(c) == (\E i \in 1..16 : SubSeq(HexDigits, i, i) = c) \/ c \in {"a", "b", "c", "d", "e", "f"}
Clip(n) == IF n > 255 THEN 255 ELSE n
(* The whole part of a number, from 0 to 255; and 255 times a number from 0 to *)
(* 1, to the nearest number, if it has at most four places (else -1).          *)
Whole255(cs) == IF cs[1] = "-" THEN 0 ELSE Clip(IntOf(cs, 1, 0))
RECURSIVE PowTen(_)
PowTen(n) == IF n = 0 THEN 1 ELSE 10 * PowTen(n - 1)
Part255(cs) ==
  LET dots == {i \in 1..Len(cs) : cs[i] = "."}
      fs == IF dots = {} THEN <<>> ELSE SubSeq(cs, (CHOOSE i \in dots : TRUE) + 1, Len(cs))
      places == [i \in 1..Len(fs) |-> DigitVal[fs[i]] * PowTen(Len(fs) - i)]
      part == FoldSeq(LAMBDA x, y : x + y, 0, places)
  IN IF cs[1] = "-" THEN 0
     ELSE IF IntOf(cs, 1, 0) > 0 THEN 255
     ELSE IF Len(fs) > 4 THEN -1
     ELSE (510 * part + PowTen(Len(fs))) \div (2 * PowTen(Len(fs)))
(* [st, css]. What follows the third number is not looked at.                  *)
ColorIn(model, cs) ==
  LET ps == SplitComma(cs, 1, <<<<>>>>)
      p(i) == Trim(ps[i])
      no == [st |-> "no", css |-> ""]
      ok(a, b, c) == [st |-> "ok", css |-> "#" \o HexOf(a) \o HexOf(b) \o HexOf(c)]
  IN CASE model = "HTML" -> IF Len(cs) = 6 /\ \A i \in 1..6 : IsHex(cs[i])
                            THEN [st |-> "ok", css |-> "#" \o HexVal(cs[1]) \o HexVal(cs[2]) \o HexVal(cs[3])
                                                       \o HexVal(cs[4]) \o HexVal(cs[5]) \o HexVal(cs[6])] ELSE no
       [] model \in {"RGB", "rgb"} /\ Len(ps) < 3 -> no
       [] model \in {"RGB", "rgb"} /\ \E i \in 1..3 : ~IsNumber(p(i)) -> no
       [] model = "RGB" -> ok(Whole255(p(1)), Whole255(p(2)), Whole255(p(3)))
       [] model = "rgb" -> IF \E i \in 1..3 : Part255(p(i)) < 0 THEN [st |-> "skip", css |-> ""]
                           ELSE ok(Part255(p(1)), Part255(p(2)), Part255(p(3)))
RECURSIVE ModelName(_, _, _, _)
ModelName(m, acc, s, e) ==
  LET n == Next(m) IN
  IF OK(n.m) /\ n.t.k = "letter" THEN ModelName(n.m, acc \o n.t.x, s, e)
  ELSE IF OK(n.m) /\ n.t.k = "rb" THEN [m |-> n.m, x |-> acc]
  ELSE [m |-> Fail(m, MsgColor(acc), s, e), x |-> acc]
ColorStep(m, f) ==
  IF Len(f.a) = 1 THEN RetNode(m, [RowN(f.a[1].ns) EXCEPT !.color = f.x[1]], "Ord")
  ELSE LET opt == PeekM(m).k = "lb"
           n0 == IF opt THEN Next(m) ELSE [m |-> m]
       IN IF ~OK(n0.m) THEN n0.m ELSE
       LET md == IF opt THEN ModelName(n0.m, "", f.s, f.e) ELSE [m |-> m, x |-> ""] IN
       IF ~OK(md.m) THEN md.m ELSE
       LET l == Literal(md.m)
           known == ~opt \/ md.x \in {"HTML", "RGB", "rgb"}
           name == Str(l.cs)
           c == IF opt THEN (IF known THEN ColorIn(md.x, l.cs) ELSE [st |-> "no", css |-> ""])
                ELSE IF name \in DOMAIN RawVocab.colors THEN [st |-> "ok", css |-> RawVocab.colors[name]] ELSE [st |-> "no", css |-> ""]
       IN IF ~OK(l.m) THEN (IF opt /\ l.m.pc = "err" THEN Fail(m, MsgArgEoi, f.s, f.e) ELSE l.m)
          ELSE IF c.st = "skip" THEN Skip(l.m)
          ELSE IF c.st = "no" THEN Fail(l.m, MsgColor(IF known THEN name ELSE md.x), l.s, l.e)
          ELSE IF ~InSeq(f.as) THEN Fail(l.m, MsgArgSwitch, f.s, f.e)
          ELSE PushSeq(SetTop(l.m, [f EXCEPT !.x = <<c.css>>]), "any", f.prev, TRUE)
StyleStep(m, f) ==
  IF Len(f.a) = 1 THEN RetNode([m EXCEPT !.sty = f.sv[1]], [RowN(f.a[1].ns) EXCEPT !.sty = f.t.p], "Ord")
  ELSE IF ~InSeq(f.as) THEN Fail(m, MsgArgSwitch, f.s, f.e)
  ELSE PushSeq([SetTop(m, [f EXCEPT !.sv = <<m.sty>>]) EXCEPT !.sty = f.t.p], "any", f.prev, TRUE)
PhantomStep(m, f) ==
  IF Len(f.a) = 0 THEN PushArg(m, "A", "Ord")
  ELSE LET ph == ElN("mphantom", <<>>, <<Arg(f, 1)>>) IN
       RetNode(m, CASE f.t.p = "F" -> ph
                    [] f.t.p = "H" -> ElN("mpadded", <<<<"height", "0">>>>, <<ph>>)
                    [] f.t.p = "V" -> ElN("mpadded", <<<<"width", "0">>>>, <<ph>>), "Ord")
ScriptStep(m, f) ==
  IF Len(f.a) = 0 THEN PushBnd(m, <<QAt(f.t, f.s, f.e), f.t>>)
  ELSE IF f.a[1].lim # <<>> THEN FailLimits(m, f.a[1].lim)
  ELSE RetNode(m, SubSupN(EmptyRow, f.a[1].sub, f.a[1].sup), "Ord")
PrescriptStep(m, f) ==
  IF Len(f.a) = 0 THEN PushArg([SetTop(m, [f EXCEPT !.sv = <<m.sty>>]) EXCEPT !.sty = Scriptify(m.sty)], "A", "Ord")
  ELSE IF Len(f.a) = 1 THEN PushArg(m, "A", "Ord")
  ELSE IF Len(f.a) = 2 THEN PushArg([m EXCEPT !.sty = f.sv[1]], "A", "Ord")
  ELSE RetNode(m, MsN(Arg(f, 3), <<<<Arg(f, 2), Arg(f, 1)>>>>, <<>>), "Ord")

(* \sideset: x holds, for each of the two arguments that have been read, the   *)
(* scripts in it and the nodes behind them.                                    *)
SideCheck(m, b) == IF b.lim # <<>> THEN FailLimits(m, b.lim) ELSE m
SideArg(m, f) ==
  LET p == PeekTok(m) t == Unwrap(Mean(m, p)) IN
  CASE t.k = "prime" -> LET n == Next(m) IN
         IF ~OK(n.m) THEN n.m ELSE SetTop(n.m, [f EXCEPT !.x = Append(@, [b |-> [NoBnd EXCEPT !.sup = <<PlainOp(PrimeSym(t.q, t.na))>>], ns |-> <<>>])])
    [] t.k = "gb" -> LET n == Next(m) IN IF ~OK(n.m) THEN n.m ELSE PushBnd(SetTop(n.m, [f EXCEPT !.sv = <<"grp">>]), <<>>)
    [] t.k = "limits" -> LET n == Next(m) IN IF ~OK(n.m) THEN n.m ELSE FailLimits(n.m, <<t.p, p.s, p.e>>)
    [] OTHER -> PushArg(SetTop(m, [f EXCEPT !.sv = <<"arg">>]), "A", "Ord")
SideOp(m, f) ==
  LET r == ExactlyOne(ReadArg(m, FALSE)) IN
  IF ~OK(r.m) THEN r.m ELSE
  LET t == Mean(r.m, r.toks[1]) IN
  IF ~(t.k = "op" /\ t.p \in {"H", "J"}) THEN Fail(r.m, "Expected a large operator.", r.toks[1].s, r.toks[1].e)
  ELSE LET c == NextClass(r.m, InSeq(f.as))
           sp == OpSpacing(m.sty, f.prev, c.c, FALSE)
           op == OpN(t.x, If(t.p = "J", "mlf"), sp[1], sp[2])
           pre == f.x[1] post == f.x[2]
           base == IF pre.ns = <<>> THEN op ELSE RowN(Append(pre.ns, op))
           ms == MsN(base, <<<<OrEmpty(pre.b.sub), OrEmpty(pre.b.sup)>>>>, <<<<OrEmpty(post.b.sub), OrEmpty(post.b.sup)>>>>)
           node == IF post.ns = <<>> THEN ms ELSE RowN(<<ms>> \o post.ns)
       IN IF ~OK(c.m) THEN c.m ELSE PushBnd(SetTop(c.m, [f EXCEPT !.x = Append(@, node), !.sv = <<"op">>]), <<>>)
SidesetStep(m, f) ==
  LET n == Len(f.a) last == IF n = 0 THEN None ELSE f.a[n] IN
  IF f.sv = <<>> THEN IF Len(f.x) < 2 THEN SideArg(m, f) ELSE SideOp(m, f)
  ELSE CASE f.sv = <<"grp">> ->     \* the scripts have been read
              PushSeq(SetTop(m, [f EXCEPT !.sv = <<"seq">>]), "G", "Open", FALSE)
         [] f.sv = <<"seq">> ->     \* and what follows them
              LET b == f.a[n - 1] m1 == SideCheck(m, b) IN
              IF ~OK(m1) THEN m1 ELSE SetTop(m1, [f EXCEPT !.x = Append(@, [b |-> b, ns |-> last.ns]), !.sv = <<>>])
         [] f.sv = <<"arg">> -> SetTop(m, [f EXCEPT !.x = Append(@, [b |-> NoBnd, ns |-> <<last.n>>]), !.sv = <<>>])
         [] f.sv = <<"op">> ->
              LET under == Lim(last) = "A" \/ (m.sty = "D" /\ Lim(last) \in {"", "D"}) IN
              RetNode(m, IF Trivial(last) THEN f.x[3] ELSE Wrapped(f.x[3], last, under), "Ord")

XarrowStep(m, f) ==
  LET n == Len(f.a) over == f.a[n].n IN
  IF n = 0
  THEN LET m1 == [SetTop(m, [f EXCEPT !.sv = <<m.sty, m.hack>>]) EXCEPT !.sty = Scriptify(m.sty), !.hack = TRUE]
           x == Next(m1)
       IN IF ~OK(x.m) THEN x.m
          ELSE IF x.t.k = "lb" THEN PushSeq(SetTop(x.m, [Top(x.m) EXCEPT !.x = <<"under">>]), "B", "Open", FALSE)
          ELSE PushTok(x, "A", "Ord")
  ELSE IF n = 1 /\ f.x # <<>> THEN PushArg(m, "A", "Ord")
  ELSE LET m1 == [m EXCEPT !.sty = f.sv[1], !.hack = f.sv[2]]
           c == NextClass(m1, InSeq(f.as))
           pad == SpaceN("0.4286em")
           label(tag, arg) == ElN(tag, <<>>, <<RowN(<<pad, arg, pad>>), SpaceN("3.5em")>>)
           sp == RelSpacing(m1.sty, f.prev, c.c, FALSE)
           arrow == OpN(f.t.x, IF f.t.p = "A" THEN {} ELSE {"st"}, sp[1], sp[2])
           center == IF n = 2 THEN ElN("munderover", <<>>, <<arrow, label("munder", NodeOf(f.a[1].ns, FALSE)), label("mover", over)>>)
                     ELSE ElN("mover", <<>>, <<arrow, label("mover", over)>>)
           gap == SpaceN("0.2777778em")
       IN IF ~OK(c.m) THEN c.m ELSE RetNode(m1, RowN(<<gap, center, gap>>), "Rel")

CspaceStep(m, f) ==
  LET l == Literal(m) len == ParseLen(Trim(l.cs)) IN
  IF ~OK(l.m) THEN l.m
  ELSE IF len.st = "skip" THEN Skip(l.m)
  ELSE IF len.st = "no" THEN Fail(l.m, MsgLength(Str(l.cs)), l.s, l.e)
  ELSE IF IsMathUnit(len.unit) # (f.t.p = "M") THEN Fail(l.m, MsgUnit(len.unit, f.t.p = "M"), l.s, l.e)
  ELSE RetNode(l.m, SpaceL(len), "Ord")

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE KernDigits(_, _, _, _, _)
(* gives [m, x, s, e]; s < 0 if there is none yet                              *)
KernDigits(m, first, acc, s, e) ==
  LET p == IF first THEN PeekTok(m) ELSE PeekAnyTok(m)
      t == Mean(m, p)
      ch == IF t.k = "digit" THEN t.x ELSE IF IsDot(t) \/ t.mt = "," THEN "." ELSE ""
  IN IF ch = "" THEN [m |-> m, x |-> acc, s |-> s, e |-> e]
     ELSE LET n == Next(m) IN
          IF OK(n.m) THEN KernDigits(n.m, FALSE, acc \o ch, IF s < 0 THEN n.tk.s ELSE s, n.tk.e)
          ELSE [m |-> n.m, x |-> acc, s |-> s, e |-> e]
RECURSIVE KernUnit(_, _, _, _, _)
KernUnit(m, i, acc, s, e) ==
  IF i = 2 THEN [m |-> m, x |-> acc, s |-> s, e |-> e]
  ELSE LET p == IF i = 0 THEN PeekTok(m) ELSE PeekAnyTok(m)
           t == Mean(m, p)
       IN IF t.k = "letter" /\ t.mt = "" /\ t.x \in AsciiLetters
          THEN LET n == Next(m) IN
               IF OK(n.m) THEN KernUnit(n.m, i + 1, acc \o t.x, IF s < 0 THEN n.tk.s ELSE s, n.tk.e) ELSE [m |-> n.m, x |-> acc, s |-> s, e |-> e]
          ELSE LET st == IF s < 0 THEN p.s ELSE s IN
               [m |-> Fail(m, "Found invalid unit " \o Q(acc) \o ".", Min2(st, p.s), p.s), x |-> acc, s |-> s, e |-> e]
KernStep(m, f) ==
  LET pk == PeekM(m)
      sign == pk.mt \in {"+", "-"}
      n == IF sign THEN Next(m) ELSE [m |-> m, tk |-> EoiTok(0)]
  IN IF ~OK(n.m) THEN n.m ELSE
  LET d == KernDigits(n.m, TRUE, "", IF sign THEN n.tk.s ELSE -1, IF sign THEN n.tk.e ELSE f.e) IN
  IF ~OK(d.m) THEN d.m
  ELSE IF d.x = "" THEN Fail(d.m, MsgLength(""), Min2(IF d.s < 0 THEN f.e ELSE d.s, d.e), d.e)
  ELSE LET u == KernUnit(d.m, 0, "", -1, d.e)
           us == Min2(u.s, u.e)
           unit == Lower(SubSeq(u.x, 1, 1)) \o Lower(SubSeq(u.x, 2, 2))
       IN IF ~OK(u.m) THEN u.m
          ELSE IF unit \notin Units THEN Fail(u.m, "Found invalid unit " \o Q(u.x) \o ".", us, u.e)
          ELSE IF IsMathUnit(u.x) # (f.t.p = "M") THEN Fail(u.m, MsgUnit(u.x, f.t.p = "M"), us, u.e)
          ELSE IF ~IsNumber([i \in 1..Len(d.x) |-> SubSeq(d.x, i, i)]) THEN Fail(u.m, MsgLength(d.x \o u.x), Min2(d.s, u.e), u.e)
          ELSE LET len == LenOf((IF sign /\ pk.mt = "-" THEN "-" ELSE "") \o d.x, unit) IN
               IF len.st = "skip" THEN Skip(u.m) ELSE RetNode(u.m, SpaceL(len), f.prev)

(* One step of the construct on top: first it takes what has been returned.    *)
CmdStep(m0) ==
  LET f == IF m0.ret.k = "none" THEN Top(m0) ELSE [Top(m0) EXCEPT !.a = Append(@, m0.ret)]
      m == SetTop(m0, f)
      k == f.t.k
  IN CASE k \in {"op", "flop", "pop", "popl"} -> OpStep(m, f)
       [] k = "mathclass" -> MathClassStep(m, f)
       [] k = "enclose" -> IF Len(f.a) = 0 THEN PushArg(m, "W", "Ord") ELSE RetNode(m, EncloseN(f.t.p, Arg(f, 1)), "Ord")
       [] k \in {"accent", "obrace"} -> AccentStep(m, f)
       [] k = "sqrt" -> SqrtStep(m, f)
       [] k \in {"frac", "binom"} -> FracStep(m, f)
       [] k = "genfrac" -> GenfracStep(m, f)
       [] k = "oset" -> OsetStep(m, f)
       [] k = "overlay" -> OverlayStep(m, f)
       [] k = "tf" -> IF Len(f.a) = 0 THEN PushArg([SetTop(m, [f EXCEPT !.sv = <<m.tf>>]) EXCEPT !.tf = f.t.p], "A", "Ord")
                      ELSE RetNode([m EXCEPT !.tf = f.sv[1]], Arg(f, 1), "Close")
       [] k = "gb" -> GroupStep(m, f)
       [] k = "left" -> LeftStep(m, f)
       [] k = "middle" -> MiddleStep(m, f)
       [] k = "big" -> BigStep(m, f)
       [] k = "begin" -> BeginStep(m, f)
       [] k = "opname" -> OpnameStep(m, f)
       [] k \in {"text", "raisebox"} -> TextCmdStep(m, f)
       [] k = "eqref" -> LET l == Literal(m) IN IF OK(l.m) THEN RetNode(l.m, RefN(Str(l.cs)), "Ord") ELSE l.m
       [] k = "cramped" -> CrampedStep(m, f)
       [] k = "color" -> ColorStep(m, f)
       [] k = "style" -> StyleStep(m, f)
       [] k = "phantom" -> PhantomStep(m, f)
       [] k \in {"us", "circ", "prime"} -> ScriptStep(m, f)
       [] k = "prescript" -> PrescriptStep(m, f)
       [] k = "sideset" -> SidesetStep(m, f)
       [] k = "xarrow" -> XarrowStep(m, f)
       [] k = "cspace" -> CspaceStep(m, f)
       [] k = "kern" -> KernStep(m, f)
       [] OTHER -> Fail(m, "Internal parser error. Please report this bug at https://github.com/tmke8/math-core/issues", f.s, f.e)

----------------------------------------------------------------------------
(* The machine                                                                 *)
Step(m) ==
  IF Len(m.stk) = 0 THEN [m EXCEPT !.pc = "done"]
  ELSE LET k == Top(m).k IN
       CASE k = "seq" -> SeqStep(m)
         [] k = "tok" -> TokStep(m)
         [] k = "arg" -> ArgStep(m)
         [] k = "bnd" -> BndStep(m)
         [] k = "text" -> TextStep(m)
         [] k = "cmd" -> CmdStep(m)

(* The start: glob: [eq, lab, doc], cfg: commands of the configuration.        *)
Machine(toks, display, st, cfg, opt) ==
  LET m == [pc |-> "run", q |-> toks, stk |-> <<>>, ret |-> None, sty |-> IF display THEN "D" ELSE "T", tf |-> "", hack |-> FALSE,
            vld |-> "", env |-> NoEnv, exp |-> opt.max, loc |-> <<>>, doc |-> st.doc, cfg |-> cfg, eq |-> st.eq, lab |-> st.lab,
            err |-> [msg |-> "", s |-> 0, e |-> 0], opt |-> opt]
      m1 == Load(m)
  IN IF OK(m1) THEN PushSeq(m1, "I", "Open", TRUE) ELSE m1
Result(m) == m.ret.ns
=============================================================================
