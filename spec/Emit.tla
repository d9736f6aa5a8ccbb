-------------------------------- MODULE Emit ---------------------------------
(* What the options of the output do: the tags which come out under some       *)
(* options are those which come out without any, changed like this.            *)
(* A token is <<kind, name or text, attributes, is it closed at once>>.        *)
EXTENDS Markup, TLC, Json, IOUtils

Jobs == JsonDeserialize(IOEnv.JOBS)    \* [id, block, src, plain (tokens), seen (tokens), opt]
VARIABLES job, done
vars == <<job, done>>
J == Jobs[job]
Opt == J.opt                           \* [pretty, ns, ann, css, tab, unit (one indentation), pre]
Pretty == Opt.pretty = "always" \/ (Opt.pretty = "auto" /\ J.block)

Open(n, as) == <<"<", n, as, FALSE>>
Close(n) == <<">", n, <<>>, FALSE>>
Text(x) == <<"t", x, <<>>, FALSE>>
MathAttributes == (IF Opt.ns THEN << <<"xmlns", "http://www.w3.org/1998/Math/MathML">> >> ELSE <<>>)
                  \o (IF J.block THEN << <<"display", "block">> >> ELSE <<>>)
(* Ids and what links to them get the prefix, unknown commands their class.    *)
Marked(t) ==
  IF t[1] # "<" THEN t
  ELSE <<"<", t[2], [i \in 1..Len(t[3]) |->
         LET a == t[3][i] IN
         IF a[1] = "id" THEN <<"id", Opt.pre \o a[2]>>
         ELSE IF t[2] = "a" /\ a[1] = "href" /\ Len(a[2]) > 0 /\ SubSeq(a[2], 1, 1) = "#" THEN <<"href", "#" \o Opt.pre \o SubSeq(a[2], 2, Len(a[2]))>>
         ELSE IF t[2] = "merror" /\ a[1] = "class" THEN <<"class", Opt.css>>
         ELSE a], t[4]>>
Inner == [i \in 1..Len(J.plain) - 2 |-> Marked(J.plain[i + 1])]
RECURSIVE Children(_, _, _, _)
(* How many elements there are at the outermost level.                         *)
Children(ts, i, depth, n) ==
  IF i > Len(ts) THEN n
  ELSE IF ts[i][1] = "<" THEN Children(ts, i + 1, IF ts[i][4] THEN depth ELSE depth + 1, IF depth = 0 THEN n + 1 ELSE n)
  ELSE IF ts[i][1] = ">" THEN Children(ts, i + 1, depth - 1, n)
  ELSE Children(ts, i + 1, depth, n)
One(ts) == IF Children(ts, 1, 0, 0) = 1 THEN ts ELSE <<Open("mrow", <<>>)>> \o ts \o <<Close("mrow")>>
Annotated == <<Open("semantics", <<>>)>> \o One(Inner) \o <<Open("annotation", << <<"encoding", "application/x-tex">> >>)>>
             \o (IF J.src = "" THEN <<>> ELSE <<Text(J.src)>>) \o <<Close("annotation"), Close("semantics")>>
Expected == <<Open("math", MathAttributes)>> \o (IF Opt.ann THEN Annotated ELSE Inner) \o <<Close("math")>>

(* White space between elements: a new line and indentation.                   *)
RECURSIVE Units(_)
Units(x) == IF x = "" THEN TRUE
            ELSE Opt.unit # "" /\ Len(x) >= Len(Opt.unit) /\ SubSeq(x, 1, Len(Opt.unit)) = Opt.unit /\ Units(SubSeq(x, Len(Opt.unit) + 1, Len(x)))
IsLayout(x) == Pretty /\ Len(x) > 0 /\ SubSeq(x, 1, 1) = "\n" /\ Units(SubSeq(x, 2, Len(x)))
RECURSIVE Strip(_, _, _)
Strip(ts, i, stk) ==
  IF i > Len(ts) THEN <<>>
  ELSE LET t == ts[i] IN
       CASE t[1] = "<" -> <<t>> \o Strip(ts, i + 1, IF t[4] THEN stk ELSE Append(stk, t[2]))
         [] t[1] = ">" -> <<t>> \o Strip(ts, i + 1, IF stk = <<>> THEN stk ELSE SubSeq(stk, 1, Len(stk) - 1))
         [] OTHER -> (IF t[1] = "t" /\ stk # <<>> /\ ~MayHoldText(stk[Len(stk)]) /\ IsLayout(t[2]) THEN <<>> ELSE <<t>>)
                     \o Strip(ts, i + 1, stk)
Seen == Strip(J.seen, 1, <<>>)
RECURSIVE FirstDifference(_, _, _)
FirstDifference(a, b, i) == IF i > Len(a) \/ i > Len(b) \/ a[i] # b[i] THEN i ELSE FirstDifference(a, b, i + 1)
At(s, i) == IF i <= Len(s) THEN ToString(s[i]) ELSE "the end"

Init == job \in 1..Len(Jobs) /\ done = FALSE
Judge == /\ ~done /\ done' = TRUE /\ UNCHANGED job
         /\ LET a == Expected b == Seen IN
            a # b => LET i == FirstDifference(a, b, 1) IN PrintT("@@" \o ToJson([id |-> J.id, want |-> At(a, i), got |-> At(b, i)]))
Spec == Init /\ [][Judge]_vars
=============================================================================
