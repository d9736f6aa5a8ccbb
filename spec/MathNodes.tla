----------------------------- MODULE MathNodes ------------------------------
(* What a snippet means: a tree of nodes, and the MathML element which each    *)
(* node is written as. Nodes are records with a field t; Render gives elements *)
(* [n: tag, a: sequence of <<attribute, value>>, x: text, c: children].        *)
EXTENDS MathTokens

----------------------------------------------------------------------------
(* Nodes                                                                       *)
OpN(x, fl, l, r) == [t |-> "op", x |-> x, fl |-> fl, l |-> l, r |-> r, sz |-> ""]
PopN(x, fl, l, r) == [t |-> "pop", x |-> x, fl |-> fl, l |-> l, r |-> r]
MiN(x, up) == [t |-> "mi", x |-> x, up |-> up]
MisN(x) == [t |-> "mis", x |-> x]
MnN(x) == [t |-> "mn", x |-> x]
ElN(tag, attrs, c) == [t |-> "el", n |-> tag, a |-> attrs, c |-> c]
RowN(c) == [t |-> "row", c |-> c, color |-> "", shift |-> FALSE, sty |-> ""]
EmptyRow == RowN(<<>>)
SpaceN(x) == [t |-> "space", x |-> x]
MsN(base, pre, post) == [t |-> "ms", base |-> base, pre |-> pre, post |-> post]
FracN(num, den, lt, attr) == [t |-> "frac", c |-> <<num, den>>, lt |-> lt, attr |-> attr]
TextN(x, st, size) == [t |-> "text", x |-> x, st |-> st, size |-> size]
RefN(x) == [t |-> "ref", x |-> x]
UnkN(x) == [t |-> "unk", x |-> x]
EncloseN(kind, c) == [t |-> "enclose", p |-> kind, c |-> <<c>>]
ColSep == [t |-> "col"]
RowSep(info, border) == [t |-> "rowsep", info |-> info, border |-> border]
(* A table: how its cells are made (gen: "C"entered, "A"lternating, ca"S"es,   *)
(* "M"ultline with n rows, or "X" with a column specification), the numbers of *)
(* its rows (num: "" none, "W"ide, "N"arrow) and the information of the last.  *)
TableN(sty, gen, spec, n, num, bleft, btop, last, c) ==
  [t |-> "table", sty |-> sty, gen |-> gen, spec |-> spec, n |-> n, num |-> num,
   bleft |-> bleft, btop |-> btop, last |-> last, c |-> c]
NoInfo == [has |-> FALSE, tag |-> "", paren |-> TRUE, lab |-> FALSE, label |-> ""]

IsSep(n) == n.t \in {"col", "rowsep"}
PlainEmptyRow(n) == n.t = "row" /\ n.c = <<>> /\ n.color = "" /\ ~n.shift /\ n.sty = ""

(* Several nodes become a row. In an argument whose spacing means nothing, a   *)
(* lone operator loses it.                                                     *)
NodeOf(nodes, reset) ==
  IF Len(nodes) = 1
  THEN IF reset /\ nodes[1].t = "op" THEN [nodes[1] EXCEPT !.l = "", !.r = ""] ELSE nodes[1]
  ELSE RowN(nodes)

SubSupN(target, sub, sup) ==
  IF sub # <<>> /\ sup # <<>> THEN ElN("msubsup", <<>>, <<target, sub[1], sup[1]>>)
  ELSE IF sub # <<>> THEN ElN("msub", <<>>, <<target, sub[1]>>)
  ELSE IF sup # <<>> THEN ElN("msup", <<>>, <<target, sup[1]>>)
  ELSE target
UnderOverN(target, sub, sup) ==
  IF sub # <<>> /\ sup # <<>> THEN ElN("munderover", <<>>, <<target, sub[1], sup[1]>>)
  ELSE IF sub # <<>> THEN ElN("munder", <<>>, <<target, sub[1]>>)
  ELSE IF sup # <<>> THEN ElN("mover", <<>>, <<target, sup[1]>>)
  ELSE target
OrEmpty(s) == IF s = <<>> THEN EmptyRow ELSE s[1]

(* A delimiter: [x, st (A/P/Y/N: when it stretches), sp (Z/I/R/O: its kind)].  *)
Delim(x, st, sp) == [x |-> x, st |-> st, sp |-> sp]
FenceOp(d) ==
  IF d = <<>> THEN OpN(RawVocab.sym.isep, {}, "", "")     \* an invisible separator
  ELSE OpN(d[1].x, IF d[1].st = "N" THEN {"st"} ELSE {},
           IF d[1].sp \in {"R", "O"} THEN "0" ELSE "", IF d[1].sp \in {"R", "O"} THEN "0" ELSE "")
Fenced(nodes, open, close, sty) == [RowN(<<FenceOp(open)>> \o nodes \o <<FenceOp(close)>>) EXCEPT !.sty = sty]

----------------------------------------------------------------------------
(* Elements                                                                    *)
El(tag, a, x, c) == [n |-> tag, a |-> a, x |-> x, c |-> c]
StyleAttrs(sty) ==
  CASE sty = "" -> <<>>
    [] sty = "D" -> <<<<"displaystyle", "true">>, <<"scriptlevel", "0">>>>
    [] sty = "T" -> <<<<"displaystyle", "false">>, <<"scriptlevel", "0">>>>
    [] sty = "S" -> <<<<"displaystyle", "false">>, <<"scriptlevel", "1">>>>
    [] sty = "SS" -> <<<<"displaystyle", "false">>, <<"scriptlevel", "2">>>>
FlagAttrs == << <<"sf", "stretchy", "false">>, <<"st", "stretchy", "true">>,
                <<"mlf", "movablelimits", "false">>, <<"ml", "movablelimits", "true">>,
                <<"pre", "form", "prefix">>, <<"inf", "form", "infix">>, <<"post", "form", "postfix">>,
                <<"sym", "symmetric", "true">>, <<"lo", "largeop", "true">> >>
RECURSIVE FlagSeq(_, _)
FlagSeq(fl, i) ==
  IF i > Len(FlagAttrs) THEN <<>>
  ELSE (IF FlagAttrs[i][1] \in fl THEN <<<<FlagAttrs[i][2], FlagAttrs[i][3]>>>> ELSE <<>>) \o FlagSeq(fl, i + 1)
SpLen(s) == CASE s = "0" -> "0" [] s = "3" -> "0.1667em" [] s = "4" -> "0.2222em" [] s = "5" -> "0.2778em"
SpAttr(nm, s) == IF s = "" THEN <<>> ELSE <<<<nm, SpLen(s)>>>>
FracAttrs(p) ==
  CASE p = "" -> <<>>
    [] p = "d" -> <<<<"displaystyle", "true">>>>
    [] p = "t" -> <<<<"displaystyle", "false">>>>
    [] p = "c" -> <<<<"displaystyle", "true">>, <<"scriptlevel", "0">>, <<"style", "padding-top: 0.1667em">>>>
IsNegative(len) == len # "" /\ SubSeq(len, 1, 1) = "-"
IsRem(len) == Len(len) > 3 /\ SubSeq(len, Len(len) - 2, Len(len)) = "rem"
(* A length of zero has no unit; "0rem" stands for one that was absolute.      *)
SpaceEl(len) ==
  IF len \in {"0rem", "-0rem", "-0"}
  THEN LET z == IF len = "0rem" THEN "0" ELSE "-0" IN
       El("mspace", IF len = "-0" THEN <<<<"width", z>>>> ELSE <<<<"width", z>>, <<"style", "width:" \o z>>>>, "", <<>>)
  ELSE IF IsNegative(len) THEN El("mspace", <<<<"style", "margin-left:" \o len \o ";">>>>, "", <<>>)
  ELSE El("mspace", IF IsRem(len) THEN <<<<"width", len>>, <<"style", "width:" \o len>>>> ELSE <<<<"width", len>>>>, "", <<>>)
(* More than one code point; strings count UTF-16 units.                       *)
MultiChar(x) == Len(x) > 1 /\ ~(Len(x) = 2 /\ x \in DOMAIN RawVocab.u8)

BorderTop(b) == CASE b = "" -> "" [] b = "Solid" -> "border-top: 0.05em solid currentcolor;"
                  [] b = "Dashed" -> "border-top: 0.05em dashed currentcolor;"
BorderLeft(b) == CASE b = "" -> "" [] b = "Solid" -> "border-left: 0.05em solid currentcolor;"
                   [] b = "Dashed" -> "border-left: 0.05em dashed currentcolor;"
BorderRight(b) == CASE b = "" -> "" [] b = "Solid" -> "border-right: 0.05em solid currentcolor;"
                    [] b = "Dashed" -> "border-right: 0.05em dashed currentcolor;"
LeftAlign == "text-align: left;justify-items: start;"
RightAlign == "text-align: right;justify-items: end;"
Styled(s) == IF s = "" THEN <<>> ELSE <<<<"style", s>>>>

(* The attributes of the cell in column ci (from 0) of row ri, and the cells   *)
(* for nothing but a rule in front of it; gives <<extra cells, attributes, next*)
(* column>>.                                                                   *)
RECURSIVE SpecCell(_, _, _, _, _)
SpecCell(tb, bt, ci, entry, extra) ==
  IF entry.only
  THEN LET e == IF ci < Len(tb.spec.cols) THEN tb.spec.cols[ci + 1] ELSE [only |-> FALSE, al |-> "c", line |-> ""] IN
       SpecCell(tb, bt, ci + 1, e,
         Append(extra, El("mtd", Styled(bt \o BorderRight(entry.line)
           \o (IF tb.spec.sub THEN "padding-top: 0;padding-bottom: 0;" ELSE "")
           \o "padding-left: 0.1em;padding-right: 0.1em;"), "", <<>>)))
  ELSE <<extra,
         IF entry.al = "c" /\ entry.line = "" /\ ~tb.spec.sub THEN Styled(bt)
         ELSE <<<<"style", bt \o (CASE entry.al = "l" -> LeftAlign [] entry.al = "r" -> RightAlign [] OTHER -> "")
                 \o BorderRight(entry.line) \o (IF tb.spec.sub THEN "padding-top: 0;padding-bottom: 0;" ELSE "")>>>>,
         ci>>
Cell(tb, ci, ri, border) ==
  LET bt == BorderTop(border) even == ci % 2 = 0 IN
  CASE tb.gen = "C" -> <<<<>>, Styled(bt), ci + 1>>
    [] tb.gen = "S" -> <<<<>>, <<<<"style", bt \o LeftAlign \o "padding-right: 0;" \o (IF even THEN "" ELSE "padding-left:1em;")>>>>, ci + 1>>
    [] tb.gen = "A" -> <<<<>>, <<<<"style", bt \o (IF even THEN RightAlign \o "padding-right: 0;" ELSE LeftAlign \o "padding-left: 0;")>>>>, ci + 1>>
    [] tb.gen = "M" -> <<<<>>, IF ri = 0 THEN <<<<"style", bt \o LeftAlign>>>>
                               ELSE IF ri + 1 = tb.n THEN <<<<"style", bt \o RightAlign>>>> ELSE Styled(bt), ci + 1>>
    [] tb.gen = "X" -> SpecCell(tb, bt, ci + 1, IF ci < Len(tb.spec.cols) THEN tb.spec.cols[ci + 1] ELSE [only |-> FALSE, al |-> "c", line |-> ""], <<>>)

NumWidth(num) == IF num = "W" THEN "width: 50%" ELSE "width: 7.5%"
LeadCell(num) == IF num = "" THEN <<>> ELSE <<El("mtd", <<<<"style", NumWidth(num)>>>>, "", <<>>)>>
(* labels: a function from the known labels to their tags; pre: the id prefix. *)
RECURSIVE PctEnc(_, _)
PctEnc(s, i) == IF i > Len(s) THEN ""
  ELSE LET c == SubSeq(s, i, i) IN (IF c \in DOMAIN RawVocab.pct THEN RawVocab.pct[c] ELSE c) \o PctEnc(s, i + 1)
TagText(info) == IF info.paren THEN "(" \o info.tag \o ")" ELSE info.tag
NumCell(num, info, pre) ==
  IF num = "" THEN <<>>
  ELSE IF ~info.has THEN <<El("mtd", <<<<"style", NumWidth(num)>>>>, "", <<>>)>>
  ELSE <<El("mtd", (IF info.lab THEN <<<<"id", pre \o PctEnc(info.label, 1)>>>> ELSE <<>>)
              \o <<<<"style", NumWidth(num) \o ";" \o RightAlign>>>>, "",
            <<El("mtext", <<>>, TagText(info), <<>>)>>)>>

TextWrap(st, x) ==
  CASE st = "" -> El("mtext", <<>>, x, <<>>)
    [] st = "Bold" -> El("mtext", <<>>, "", <<El("b", <<>>, x, <<>>)>>)
    [] st = "Italic" -> El("mtext", <<>>, "", <<El("i", <<>>, x, <<>>)>>)
    [] st = "BoldItalic" -> El("mtext", <<>>, "", <<El("b", <<>>, "", <<El("i", <<>>, x, <<>>)>>)>>)
    [] st = "Emphasis" -> El("mtext", <<>>, "", <<El("em", <<>>, x, <<>>)>>)
    [] st = "Typewriter" -> El("mtext", <<>>, "", <<El("code", <<>>, x, <<>>)>>)
    [] st = "SmallCaps" -> El("mtext", <<>>, "", <<El("span", <<<<"style", "font-variant-caps: small-caps">>>>, x, <<>>)>>)
    [] st = "SansSerif" -> El("mtext", <<>>, "", <<El("span", <<<<"class", "math-core-sans-serif-font">>>>, x, <<>>)>>)
    [] st = "Serif" -> El("mtext", <<>>, "", <<El("span", <<<<"class", "math-core-serif-font">>>>, x, <<>>)>>)
    [] st = "Strikethrough" -> El("mtext", <<>>, "", <<El("s", <<>>, x, <<>>)>>)
    [] st = "Underline" -> El("mtext", <<>>, "", <<El("u", <<>>, x, <<>>)>>)

(* en: [labels, pre (prefix of ids), ucls (class of unknown commands)]         *)
RECURSIVE Render(_, _)
RECURSIVE RenderAll(_, _)
RECURSIVE TableRows(_, _, _, _, _, _, _, _, _)
RenderAll(nodes, en) == [i \in 1..Len(nodes) |-> Render(nodes[i], en)]
RECURSIVE RenderPairs(_, _, _)
RenderPairs(ps, i, en) == IF i > Len(ps) THEN <<>>
  ELSE <<Render(ps[i][1], en), Render(ps[i][2], en)>> \o RenderPairs(ps, i + 1, en)
(* i: next node; ci, ri: column and row; border: of this row; cells: finished  *)
(* cells of this row; cur: <<attributes, contents>> of the open cell; rows     *)
TableRows(tb, en, i, ci, ri, border, cells, cur, rows) ==
  IF i > Len(tb.c) \/ tb.c[i].t = "rowsep"
  THEN LET info == IF i > Len(tb.c) THEN tb.last ELSE tb.c[i].info
           row == El("mtr", <<>>, "", cells \o <<El("mtd", cur[1], "", cur[2])>> \o NumCell(tb.num, info, en.pre)) IN
       IF i > Len(tb.c) THEN Append(rows, row)
       ELSE LET g == Cell(tb, 0, ri + 1, tb.c[i].border) IN
            TableRows(tb, en, i + 1, g[3], ri + 1, tb.c[i].border, LeadCell(tb.num) \o g[1], <<g[2], <<>>>>, Append(rows, row))
  ELSE IF tb.c[i].t = "col"
  THEN LET g == Cell(tb, ci, ri, border) IN
       TableRows(tb, en, i + 1, g[3], ri, border, Append(cells, El("mtd", cur[1], "", cur[2])) \o g[1], <<g[2], <<>>>>, rows)
  ELSE TableRows(tb, en, i + 1, ci, ri, border, cells, <<cur[1], Append(cur[2], Render(tb.c[i], en))>>, rows)

Render(n, en) ==
  CASE n.t = "op" -> El("mo", FlagSeq(n.fl, 1) \o SpAttr("lspace", n.l) \o SpAttr("rspace", n.r)
                          \o (IF n.sz = "" THEN <<>> ELSE <<<<"minsize", n.sz>>, <<"maxsize", n.sz>>>>), n.x, <<>>)
    [] n.t = "pop" -> El("mo", FlagSeq(n.fl, 1) \o SpAttr("lspace", n.l) \o SpAttr("rspace", n.r), n.x, <<>>)
    [] n.t = "mi" -> IF n.up THEN El("mrow", <<>>, "", <<El("mspace", <<>>, "", <<>>), El("mi", <<<<"mathvariant", "normal">>>>, n.x, <<>>)>>)
                     ELSE IF MultiChar(n.x) THEN El("mrow", <<>>, "", <<El("mspace", <<>>, "", <<>>), El("mi", <<>>, n.x, <<>>)>>)
                     ELSE El("mi", <<>>, n.x, <<>>)
    [] n.t = "mis" -> El("mrow", <<>>, "", <<El("mspace", <<>>, "", <<>>), El("mi", <<>>, n.x, <<>>)>>)
    [] n.t = "mn" -> El("mn", <<>>, n.x, <<>>)
    [] n.t = "space" -> SpaceEl(n.x)
    [] n.t = "el" -> El(n.n, n.a, "", RenderAll(n.c, en))
    [] n.t = "row" -> El("mrow",
         (IF n.color # "" \/ n.shift THEN <<<<"style", (IF n.color # "" THEN "color:" \o n.color \o ";" ELSE "")
              \o (IF n.shift THEN "math-shift:compact;" ELSE "")>>>> ELSE <<>>) \o StyleAttrs(n.sty), "", RenderAll(n.c, en))
    [] n.t = "ms" -> El("mmultiscripts", <<>>, "", <<Render(n.base, en)>> \o RenderPairs(n.post, 1, en)
         \o (IF n.pre = <<>> THEN <<>> ELSE <<El("mprescripts", <<>>, "", <<>>)>> \o RenderPairs(n.pre, 1, en)))
    [] n.t = "frac" -> El("mfrac", (IF n.lt = "" THEN <<>> ELSE <<<<"linethickness", n.lt>>>>) \o FracAttrs(n.attr), "", RenderAll(n.c, en))
    [] n.t = "text" -> [TextWrap(n.st, n.x) EXCEPT !.a = IF n.size = "" THEN <<>> ELSE <<<<"style", "font-size:" \o n.size>>>>]
    [] n.t = "ref" -> El("mtext", <<>>, "", <<El("a", <<<<"href", "#" \o en.pre \o PctEnc(n.x, 1)>>>>,
                          "(" \o (IF n.x \in DOMAIN en.labels THEN en.labels[n.x] ELSE "??") \o ")", <<>>)>>)
    [] n.t = "unk" -> El("merror", <<<<"class", en.ucls>>>>, "", <<El("mtext", <<>>, "\\" \o n.x, <<>>)>>)
    [] n.t = "enclose" -> LET cls(x) == El("mrow", <<<<"class", "menclose-" \o x>>>>, "", <<>>) IN
         (CASE n.p = "U" -> El("menclose", <<<<"notation", "updiagonalstrike">>>>, "", RenderAll(n.c, en) \o <<cls("updiagonalstrike")>>)
           [] n.p = "D" -> El("menclose", <<<<"notation", "downdiagonalstrike">>>>, "", RenderAll(n.c, en) \o <<cls("downdiagonalstrike")>>)
           [] n.p = "X" -> El("menclose", <<<<"notation", "updiagonalstrike downdiagonalstrike">>>>, "",
                              RenderAll(n.c, en) \o <<cls("updiagonalstrike"), cls("downdiagonalstrike")>>)
           [] n.p = "B" -> El("menclose", <<<<"notation", "box">>>>, "", RenderAll(n.c, en))
           [] n.p = "A" -> El("menclose", <<<<"notation", "actuarial">>>>, "", RenderAll(n.c, en))
           [] n.p = "P" -> El("menclose", <<<<"notation", "phasorangle">>>>, "", RenderAll(n.c, en) \o <<cls("phasorangle")>>))
    [] n.t = "table" ->
         LET g == Cell(n, 0, 0, "") b == BorderLeft(n.bleft) \o BorderTop(n.btop) IN
         El("mtable", IF n.num # "" THEN <<<<"displaystyle", "true">>, <<"scriptlevel", "0">>, <<"style", "width: 100%">>>>
                      ELSE Styled(b) \o StyleAttrs(n.sty), "",
            TableRows(n, en, 1, g[3], 0, "", LeadCell(n.num) \o g[1], <<g[2], <<>>>>, <<>>))
    [] OTHER -> Assert(FALSE, <<"cannot render", n>>)

(* The warnings which rendering gives: kinds of nodes that occur.              *)
RECURSIVE Kids(_)
Kids(n) ==
  CASE n.t \in {"el", "row", "frac", "enclose", "table"} -> n.c
    [] n.t = "ms" -> <<n.base>> \o FlattenSeq(n.pre) \o FlattenSeq(n.post)
    [] OTHER -> <<>>
RECURSIVE Refs(_)
Refs(n) == (IF n.t = "ref" THEN {n.x} ELSE {}) \cup UNION {Refs(Kids(n)[i]) : i \in 1..Len(Kids(n))}
RECURSIVE HasUnk(_)
HasUnk(n) == n.t = "unk" \/ \E i \in 1..Len(Kids(n)) : HasUnk(Kids(n)[i])
=============================================================================
