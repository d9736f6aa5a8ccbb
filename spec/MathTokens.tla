----------------------------- MODULE MathTokens -----------------------------
(* Tokens of the input language: what a command name means, the TeX class that *)
(* a token has when it is looked at from the token in front of it, and the     *)
(* spacing which follows from the classes of the neighbours.                   *)
(*                                                                             *)
(* The vocabulary (name -> meaning) is data, in vocab.json.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

SpecDir == IF "SPEC_DIR" \in DOMAIN IOEnv THEN IOEnv.SPEC_DIR ELSE "."
RawVocab == JsonDeserialize(SpecDir \o "/vocab.json")

(* A meaning. k: category; x: the characters it stands for; p, q: parameters;  *)
(* mt: the character in text mode, if the token stands for a different token   *)
(* in each of the two modes; na: a number (of arguments); cls: the class of a  *)
(* command with a body; body: a sequence of queue tokens.                      *)
M0 == [k |-> "none", x |-> "", p |-> "", q |-> "", mt |-> "", na |-> 0, cls |-> "", body |-> <<>>]
Kind(k) == [M0 EXCEPT !.k = k]
KindX(k, x) == [M0 EXCEPT !.k = k, !.x = x]

(* A token in the queue: either the name of a command (nm), which gets its     *)
(* meaning when it is looked at, or a fixed meaning (t). u: it has been read   *)
(* in math mode already, so a meaning for both modes has lost its text side.   *)
QTok(t, nm, s, e, u) == [t |-> t, nm |-> nm, s |-> s, e |-> e, u |-> u]
QFix(t) == QTok(t, "", 0, 0, FALSE)
QAt(t, s, e) == QTok(t, "", s, e, FALSE)
EoiTok(pos) == QAt(Kind("eoi"), pos, pos)

RECURSIVE MkMeaning(_)
MkMeaning(r) ==
  LET d == DOMAIN r IN
  [k |-> r.k,
   x |-> IF "x" \in d THEN r.x ELSE "",
   p |-> IF "p" \in d THEN r.p ELSE "",
   q |-> IF "q" \in d THEN r.q ELSE "",
   mt |-> IF "mt" \in d THEN r.mt ELSE "",
   na |-> IF "na" \in d THEN r.na ELSE 0,
   cls |-> IF "cls" \in d THEN r.cls ELSE "",
   body |-> IF "body" \in d THEN [i \in 1..Len(r.body) |-> QFix(MkMeaning(r.body[i]))] ELSE <<>>]

Cmds == [n \in DOMAIN RawVocab.cmds |-> MkMeaning(RawVocab.cmds[n])]
CmdNames == DOMAIN Cmds
(* Commands which are there only with unreliable rendering, and those which    *)
(* are a single character if the configuration substitutes them.               *)
UnrelCmds == [n \in DOMAIN RawVocab.unrel |-> MkMeaning(RawVocab.unrel[n])]
UniCmds == [n \in DOMAIN RawVocab.uni |-> MkMeaning(RawVocab.uni[n])]
IsBuiltin(opt, nm) == nm \in CmdNames \/ (opt.unrel /\ nm \in DOMAIN UnrelCmds)
Builtin(opt, nm) ==
  IF opt.unrel /\ nm \in DOMAIN UnrelCmds THEN UnrelCmds[nm]
  ELSE IF opt.uni /\ nm \in DOMAIN UniCmds THEN UniCmds[nm]
  ELSE Cmds[nm]
Chars == [n \in DOMAIN RawVocab.chars |-> MkMeaning(RawVocab.chars[n])]
CharNames == DOMAIN Chars

Unwrap(t) == [t EXCEPT !.mt = ""]

(* The class of a meaning; "" for those which are looked through.              *)
RECURSIVE ClassOf(_)
RECURSIVE FirstClass(_, _)
ClassOf(t) ==
  CASE t.k \in {"rel", "frel", "xarrow"} -> "Rel"
    [] t.k \in {"punct", "fpunct"} -> "Punct"
    [] t.k \in {"open", "left", "lb", "fopen", "begin", "gb"} -> "Open"
    [] t.k \in {"close", "rb", "fclose", "right", "middle"} -> "Close"
    [] t.k \in {"bin", "fbin"} -> "Bin"
    [] t.k \in {"op", "flop", "pop", "popl", "opname"} -> "Op"
    [] t.k \in {"end", "newline", "newcol", "ge", "eoi"} -> "End"
    [] t.k \in {"inner", "finner", "dots"} -> "Inner"
    [] t.k = "big" -> (CASE t.q = "l" -> "Open" [] t.q = "r" -> "Close" [] t.q = "m" -> "Rel" [] OTHER -> "Ord")
    [] t.k = "mathclass" -> t.p
    [] t.k = "bcmd" -> FirstClass(t.body, 1)
    [] t.k \in {"cref", "mci"} -> t.cls
    [] t.k \in {"mathchoice", "relax", "ws", "space", "overlay", "tfsw", "nonum", "tag", "cspace",
                "kern", "limits", "nbsp", "label", "eqref", "hline", "newcmd", "let", "def",
                "global", "vld", "param", "carg"} -> ""
    [] OTHER -> "Ord"
FirstClass(body, i) ==
  IF i > Len(body) THEN ""
  ELSE LET c == ClassOf(body[i].t) IN IF c # "" THEN c ELSE FirstClass(body, i + 1)

Letterish == {"letter", "upletter", "digit"}

Shrink(s) == CASE s = "D" -> "T" [] s = "T" -> "S" [] OTHER -> "SS"
Scriptify(s) == IF s \in {"D", "T"} THEN "S" ELSE "SS"
Small(s) == s \in {"S", "SS"}

(* Spacing: "" is the default of the operator, "0", "3", "4" and "5" are       *)
(* multiples of a mu. Each operator gives <<left, right>>.                     *)
RelSpacing(sty, prev, next, force) ==
  << IF prev \in {"Rel", "Open", "Punct"} \/ Small(sty) THEN "0" ELSE IF force THEN "5" ELSE "",
     IF next \in {"Rel", "Punct", "Close", "End"} \/ Small(sty) THEN "0" ELSE IF force THEN "5" ELSE "" >>
BinSpacing(sty, inseq, prev, next, force) ==
  IF ~inseq THEN ""
  ELSE IF prev \in {"Rel", "Punct", "Bin", "Op", "Open"} \/ next \in {"Rel", "Punct", "Close", "End"} \/ Small(sty)
  THEN "0" ELSE IF force THEN "4" ELSE ""
PunctSpacing(sty, next, force) ==
  << IF force THEN "0" ELSE "",
     IF next = "End" \/ Small(sty) THEN "0" ELSE IF force THEN "3" ELSE "" >>
InnerSpacing(sty, prev, next, force) ==
  << IF prev \in {"Rel", "Punct", "Op", "Bin", "Open"} \/ Small(sty) THEN "0" ELSE IF force THEN "3" ELSE "",
     IF next \in {"Rel", "Bin", "Close", "End"} \/ (Small(sty) /\ next # "Op") THEN "0" ELSE IF force THEN "3" ELSE "" >>
OpSpacing(sty, prev, next, explicit) ==
  << IF prev \in {"Rel", "Punct", "Op", "Inner", "Bin", "Open"} THEN "0" ELSE IF explicit THEN "3" ELSE "",
     IF next \in {"Rel", "Punct", "Open", "Close", "End"} \/ (Small(sty) /\ next = "Inner") THEN "0" ELSE IF explicit THEN "3" ELSE "" >>
=============================================================================
