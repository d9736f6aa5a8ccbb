------------------------------- MODULE Markup --------------------------------
(* The shape which MathML requires of the output: what each element may        *)
(* contain, how many children it must have, which attributes it may carry.     *)
EXTENDS Naturals, Sequences, FiniteSets

Leafs == {"mi", "mn", "mo", "annotation"}                    \* text and nothing else
Html == {"a", "span", "b", "i", "em", "code", "s", "u"}      \* text, and each other
Void == {"mspace", "mprescripts"}
Rows == {"math", "mrow", "msqrt", "mphantom", "mpadded", "merror", "menclose", "mtd"}      \* any number of children
Two == {"mfrac", "mroot", "msub", "msup", "munder", "mover"}
Three == {"msubsup", "munderover"}
Others == {"mtext", "mtable", "mtr", "mmultiscripts", "semantics"}
Elements == Leafs \cup Html \cup Void \cup Rows \cup Two \cup Three \cup Others
(* What may stand where a formula may.                                         *)
Formulas == (Elements \ Html) \ {"math", "mtd", "mtr", "mprescripts", "annotation", "semantics"}

MayContain(parent, child, k, pre) ==      \* child becomes the k-th; pre: where mprescripts was, or 0
  CASE parent = "" -> child = "math" /\ k = 1
    [] parent = "math" -> child \in Formulas \/ (child = "semantics" /\ k = 1)
    [] parent = "mtable" -> child = "mtr"
    [] parent = "mtr" -> child = "mtd"
    [] parent = "mmultiscripts" -> child \in Formulas \/ (child = "mprescripts" /\ pre = 0 /\ k > 1)
    [] parent = "semantics" -> IF k = 1 THEN child \in Formulas ELSE k = 2 /\ child = "annotation"
    [] parent = "mtext" \/ parent \in Html -> child \in Html
    [] parent \in Rows \cup Two \cup Three -> child \in Formulas
    [] OTHER -> FALSE
MayHoldText(parent) == parent \in Leafs \cup Html \cup {"mtext"}
(* With k children, an element may be closed.                                  *)
Complete(n, k, pre) ==
  CASE n \in Two -> k = 2
    [] n \in Three -> k = 3
    [] n = "semantics" -> k = 2
    [] n = "mmultiscripts" -> IF pre = 0 THEN k % 2 = 1 ELSE pre % 2 = 0 /\ (k - pre) % 2 = 0
    [] n = "mtable" \/ n = "mtr" -> k >= 1
    [] OTHER -> TRUE

Attributes(n) ==
  CASE n = "math" -> {"display", "xmlns"}
    [] n = "mi" -> {"mathvariant"}
    [] n = "mo" -> {"form", "lspace", "rspace", "stretchy", "symmetric", "movablelimits", "minsize", "maxsize", "largeop", "separator", "fence", "style"}
    [] n = "mspace" -> {"width", "style"}
    [] n = "mtext" -> {"style"}
    [] n = "mfrac" -> {"linethickness", "displaystyle", "scriptlevel", "style"}
    [] n = "mrow" -> {"class", "displaystyle", "scriptlevel", "style"}
    [] n = "mpadded" -> {"width", "height", "depth", "voffset", "lspace", "style"}
    [] n = "mtable" -> {"displaystyle", "scriptlevel", "style", "class"}
    [] n = "mtd" -> {"id", "style", "class"}
    [] n = "mover" -> {"accent"}
    [] n = "munder" -> {"accentunder"}
    [] n = "munderover" -> {"accent", "accentunder"}
    [] n = "menclose" -> {"notation"}
    [] n = "merror" -> {"class"}
    [] n = "a" -> {"href"}
    [] n = "span" -> {"class", "style"}
    [] n = "annotation" -> {"encoding"}
    [] OTHER -> {}
AttributesOK(n, as) == /\ \A i \in 1..Len(as) : as[i] \in Attributes(n)
                       /\ Cardinality({as[i] : i \in 1..Len(as)}) = Len(as)

(* A tree as the specification makes them: [n, a, x, c].                       *)
RECURSIVE TreeOK(_)
TreeOK(e) ==
  LET p == {i \in 1..Len(e.c) : e.c[i].n = "mprescripts"}
      pre == IF p = {} THEN 0 ELSE CHOOSE i \in p : \A j \in p : i <= j IN
  /\ e.n \in Elements
  /\ AttributesOK(e.n, [i \in 1..Len(e.a) |-> e.a[i][1]])
  /\ e.x # "" => MayHoldText(e.n)
  /\ e.n \in Void \cup Leafs => e.c = <<>>
  /\ Complete(e.n, Len(e.c), pre)
  /\ \A i \in 1..Len(e.c) : MayContain(e.n, e.c[i].n, i, IF pre > 0 /\ pre < i THEN pre ELSE 0) /\ TreeOK(e.c[i])
=============================================================================
