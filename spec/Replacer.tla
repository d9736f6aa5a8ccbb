------------------------------ MODULE Replacer -------------------------------
(* A document, its formulas between delimiters, and what becomes of it. The    *)
(* scanner of the mathcore tool as a machine which reads one character at a    *)
(* time; the properties of its result are stated on the document alone.        *)
(* A document is a sequence of cells [c, w]: a character, or a run of w        *)
(* ordinary characters which is never part of a delimiter.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Scopes == JsonDeserialize(IOEnv.JOBS)
  \* [id, io, ic, bo, bc (delimiters, as sequences), esc, pre, post, words (sequences of cells), max]
VARIABLES scope, ws, phase, pos, start, open, out, res
vars == <<scope, ws, phase, pos, start, open, out, res>>
S == Scopes[scope]
RECURSIVE Join(_, _)
Join(k, acc) == IF k > Len(ws) THEN acc ELSE Join(k + 1, acc \o S.words[ws[k]])
Doc == Join(1, S.pre) \o S.post

Opening(kind) == IF kind = "inline" THEN S.io ELSE S.bo
Closing(kind) == IF kind = "inline" THEN S.ic ELSE S.bc
At(doc, i, d) == i + Len(d) - 1 <= Len(doc) /\ \A k \in 1..Len(d) : doc[i + k - 1].c = d[k]
(* An occurrence at i counts, where the search began at j.                     *)
Free(doc, i, j) == ~(S.esc /\ i > j /\ doc[i - 1].c = "\\")
(* What is at i: "block", "inline" or "no"; the block delimiter wins.          *)
Which(doc, i, j, D(_)) ==
  IF ~Free(doc, i, j) THEN "no"
  ELSE IF At(doc, i, D("block")) THEN "block"
  ELSE IF At(doc, i, D("inline")) THEN "inline" ELSE "no"

RECURSIVE Line(_, _, _)
Line(doc, i, n) == IF i = 0 THEN n ELSE Line(doc, i - 1, IF doc[i].c = "\n" THEN n + 1 ELSE n)
RECURSIVE Column(_, _, _)
Column(doc, i, n) == IF i = 0 \/ doc[i].c = "\n" THEN n ELSE Column(doc, i - 1, n + doc[i].w)
Place(doc, i) == <<Line(doc, i - 1, 1), Column(doc, i - 1, 1)>>

Chars(doc, i, j) == [k \in 1..j - i |-> doc[i + k - 1].c]          \* from i, before j
Entity(name) ==
  CASE name \in {<<"#", "3", "4">>, <<"q", "u", "o", "t">>} -> "\""
    [] name \in {<<"#", "3", "8">>, <<"a", "m", "p">>} -> "&"
    [] name \in {<<"#", "3", "9">>, <<"a", "p", "o", "s">>} -> "'"
    [] name \in {<<"#", "6", "0">>, <<"l", "t">>} -> "<"
    [] name \in {<<"#", "6", "2">>, <<"g", "t">>} -> ">"
    [] OTHER -> ""
(* The next entity goes from & to the next semicolon, whatever is between.     *)
RECURSIVE Decoded(_, _)
Decoded(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] # "&" THEN <<t[i]>> \o Decoded(t, i + 1)
  ELSE LET E == {k \in i + 1..Len(t) : t[k] = ";"} IN
       IF E = {} THEN SubSeq(t, i, Len(t))
       ELSE LET e == CHOOSE k \in E : \A l \in E : k <= l
                x == Entity(SubSeq(t, i + 1, e - 1)) IN
            (IF x = "" THEN SubSeq(t, i, e) ELSE <<x>>) \o Decoded(t, e + 1)

Nothing == [err |-> "", at |-> <<>>, to |-> <<>>]
Init == /\ scope \in 1..Len(Scopes) /\ ws = <<>> /\ phase = "write" /\ pos = 1 /\ start = 1
        /\ open = [kind |-> "", at |-> 0, nested |-> 0] /\ out = <<>> /\ res = Nothing
Write == /\ phase = "write" /\ Len(ws) < S.max
         /\ \E w \in 1..Len(S.words) : ws' = Append(ws, w)
         /\ UNCHANGED <<scope, phase, pos, start, open, out, res>>
Written == /\ phase = "write" /\ phase' = "text" /\ UNCHANGED <<scope, ws, pos, start, open, out, res>>
TextPiece(doc, i) == IF i > start THEN <<[kind |-> "text", x |-> Chars(doc, start, i)]>> ELSE <<>>
(* Outside of formulas.                                                        *)
InText ==
  /\ phase = "text"
  /\ LET doc == Doc w == IF pos > Len(doc) THEN "no" ELSE Which(doc, pos, start, Opening) IN
     IF pos > Len(doc)
     THEN /\ phase' = "done" /\ out' = out \o TextPiece(doc, pos) /\ UNCHANGED <<pos, start, open, res>>
     ELSE IF w = "no" THEN pos' = pos + 1 /\ UNCHANGED <<phase, start, open, out, res>>
     ELSE /\ phase' = "formula" /\ out' = out \o TextPiece(doc, pos)
          /\ open' = [kind |-> w, at |-> pos, nested |-> 0]
          /\ pos' = pos + Len(Opening(w)) /\ start' = pos'
          /\ UNCHANGED res
  /\ UNCHANGED <<scope, ws>>
Fail(e, at, to) == /\ phase' = "done" /\ res' = [err |-> e, at |-> Place(Doc, at), to |-> IF to = 0 THEN <<>> ELSE Place(Doc, to)]
                   /\ UNCHANGED <<pos, start, open, out>>
(* Within a formula: to the next closing delimiter of either kind.             *)
InFormula ==
  /\ phase = "formula"
  /\ LET doc == Doc
         w == IF pos > Len(doc) THEN "no" ELSE Which(doc, pos, start, Closing)
         Nested == {i \in start..pos - 1 : LET o == Which(doc, i, start, Opening) IN
                      /\ o # "no" 
                      /\ \E k \in {"inline", "block"} : At(doc, i, Opening(k)) /\ i + Len(Opening(k)) <= pos} IN
     IF pos > Len(doc) THEN Fail("unclosed", open.at, 0)
     ELSE IF w = "no" THEN pos' = pos + 1 /\ UNCHANGED <<phase, start, open, out, res>>
     ELSE IF w # open.kind /\ S.ic # S.bc THEN Fail("mismatched", open.at, pos)
     ELSE IF Nested # {} THEN Fail("nested", CHOOSE i \in Nested : \A j \in Nested : i <= j, 0)
     ELSE /\ phase' = "text" /\ out' = Append(out, [kind |-> open.kind, x |-> Decoded(Chars(doc, start, pos), 1)])
          /\ pos' = pos + Len(Closing(w)) /\ start' = pos'
          /\ UNCHANGED <<open, res>>
  /\ UNCHANGED <<scope, ws>>
Printed == /\ phase = "done" /\ phase' = "printed"
         /\ PrintT("@@" \o ToJson([id |-> S.id, ws |-> ws, out |-> out, res |-> res]))
         /\ UNCHANGED <<scope, ws, pos, start, open, out, res>>
Next == Write \/ Written \/ InText \/ InFormula \/ Printed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties, without the machine. A reading of a document cuts it into   *)
(* texts and formulas; a piece of a reading is [kind, a, b, e]: the content is *)
(* from a to before b, the next piece begins at e.                             *)
RECURSIVE Reading(_, _, _)
NextDelimiter(doc, j, D(_)) == LET I == {i \in j..Len(doc) : Which(doc, i, j, D) # "no"} IN
                               IF I = {} THEN 0 ELSE CHOOSE i \in I : \A k \in I : i <= k
Reading(doc, j, acc) ==
  LET o == NextDelimiter(doc, j, Opening) IN
  IF o = 0 THEN [pieces |-> IF j > Len(doc) THEN acc ELSE Append(acc, [kind |-> "text", a |-> j, b |-> Len(doc) + 1]), err |-> ""]
  ELSE LET kind == Which(doc, o, j, Opening) a == o + Len(Opening(kind)) c == NextDelimiter(doc, a, Closing)
           with == IF o > j THEN Append(acc, [kind |-> "text", a |-> j, b |-> o]) ELSE acc IN
       IF c = 0 THEN [pieces |-> with, err |-> "unclosed"]
       ELSE LET ck == Which(doc, c, a, Closing) inner == SubSeq(doc, a, c - 1)
                n == {i \in 1..Len(inner) : Which(inner, i, 1, Opening) # "no"} IN
            IF ck # kind /\ S.ic # S.bc THEN [pieces |-> with, err |-> "mismatched"]
            ELSE IF n # {} THEN [pieces |-> with, err |-> "nested"]
            ELSE Reading(doc, c + Len(Closing(ck)), Append(with, [kind |-> kind, a |-> a, b |-> c]))
(* The machine reads a document so.                                            *)
ReadsWell ==
  phase = "done" =>
    LET r == Reading(Doc, 1, <<>>) IN
    /\ res.err = r.err
    /\ Len(out) = Len(r.pieces)
    /\ \A i \in 1..Len(out) : out[i].kind = r.pieces[i].kind
                              /\ out[i].x = LET t == Chars(Doc, r.pieces[i].a, r.pieces[i].b) IN IF out[i].kind = "text" THEN t ELSE Decoded(t, 1)
(* Texts and formulas with their delimiters make up the document.              *)
RECURSIVE Covers(_, _, _)
Covers(doc, r, i) == IF i > Len(r) THEN TRUE
                     ELSE LET next == IF i = Len(r) THEN Len(doc) + 1 ELSE (IF r[i + 1].kind = "text" THEN r[i + 1].a ELSE r[i + 1].a - Len(Opening(r[i + 1].kind))) IN
                          (IF r[i].kind = "text" THEN next = r[i].b
                           ELSE next \in {r[i].b + Len(Closing(k)) : k \in {x \in {"inline", "block"} : At(doc, r[i].b, Closing(x)) /\ (x = r[i].kind \/ S.ic = S.bc)}})
                          /\ Covers(doc, r, i + 1)
NothingLost == phase = "done" /\ res.err = "" => Covers(Doc, Reading(Doc, 1, <<>>).pieces, 1)
(* No text holds an opening delimiter which counts, no formula any delimiter;  *)
(* what is escaped is never a delimiter.                                       *)
Clean(doc, p) == LET t == SubSeq(doc, p.a, p.b - 1) IN
                 \A i \in 1..Len(t) : Which(t, i, 1, Opening) = "no" /\ (p.kind # "text" => Which(t, i, 1, Closing) = "no")
Delimited == phase = "done" => LET r == Reading(Doc, 1, <<>>) IN \A i \in 1..Len(r.pieces) : Clean(Doc, r.pieces[i])
=============================================================================
