----------------------------- MODULE MathLexer ------------------------------
(* From characters to tokens. A source is a sequence of strings of one         *)
(* character each; positions count the bytes of its UTF-8 form. The tokens end *)
(* with an "eoi" token, or with a "lexerr" token which holds the message of    *)
(* the error that is raised once the token is looked at.                       *)
EXTENDS MathTokens

CLen(c) == IF c \in DOMAIN RawVocab.u8 THEN RawVocab.u8[c] ELSE 1
WsChars == {" ", "\n", "\t", "\r", "\f"}
AsciiDigits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AsciiLetters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
                 "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
DigitVal == [d \in AsciiDigits |->
  CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
    [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
EnvNames == {"array", "subarray", "align", "align*", "aligned", "darray", "equation", "equation*", "gather", "gather*",
             "gathered", "multline", "bmatrix", "Bmatrix", "cases", "rcases", "dcases", "drcases", "matrix", "pmatrix",
             "vmatrix", "Vmatrix"}

LexErr(msg, s, e) == QAt([Kind("lexerr") EXCEPT !.x = msg], s, e)
CharMeaning(c) == IF c \in CharNames THEN Chars[c] ELSE [KindX("letter", c) EXCEPT !.q = "t"]

(* A position: index and number of bytes in front of it.                       *)
RECURSIVE SkipWs(_, _, _)
SkipWs(src, i, p) == IF i <= Len(src) /\ src[i] \in WsChars THEN SkipWs(src, i + 1, p + 1) ELSE <<i, p>>
RECURSIVE SkipLine(_, _, _)
SkipLine(src, i, p) ==
  IF i > Len(src) THEN <<i, p>>
  ELSE IF src[i] = "\n" THEN <<i + 1, p + 1>>
  ELSE SkipLine(src, i + 1, p + CLen(src[i]))
RECURSIVE SkipGap(_, _, _)
SkipGap(src, i, p) ==                        \* white space and comments
  LET w == SkipWs(src, i, p) IN
  IF w[1] <= Len(src) /\ src[w[1]] = "%" THEN LET l == SkipLine(src, w[1], w[2]) IN SkipGap(src, l[1], l[2]) ELSE w
RECURSIVE WhileIn(_, _, _)
WhileIn(src, i, set) == IF i <= Len(src) /\ src[i] \in set THEN WhileIn(src, i + 1, set) ELSE i
RECURSIVE Cat(_, _, _)
Cat(src, i, j) == IF i >= j THEN "" ELSE src[i] \o Cat(src, i + 1, j)

RECURSIVE LexFrom(_, _, _, _)
(* i: index after the backslash *)
LexCommand(src, i, p, acc) ==
  LET j0 == WhileIn(src, i, AsciiLetters)
      j1 == IF j0 <= Len(src) /\ src[j0] = "*" THEN j0 + 1 ELSE j0
      j == IF j1 = i /\ i <= Len(src) THEN i + 1 ELSE j1
      name == Cat(src, i, j)
      e == p + 1 + (IF j = i THEN 0 ELSE IF j1 = i THEN CLen(src[i]) ELSE j - i)
      w == IF name \in {"#", "$", "%", "&", "_", "{", "}"} THEN <<j, e>>     \* a space after them is one in text
           ELSE IF name \in {"begin", "end"} THEN SkipGap(src, j, e)
           ELSE SkipWs(src, j, e)
  IN IF name \notin {"begin", "end"}
     THEN LexFrom(src, w[1], w[2], Append(acc, IF name = "" THEN QAt(KindX("unres", ""), p, e) ELSE QTok(Kind("none"), name, p, e, FALSE)))
     ELSE IF w[1] > Len(src)
     THEN Append(acc, LexErr("Expected closing token \"}\", but reached end of input.", w[2], w[2]))
     ELSE LET c == src[w[1]]
              n2 == WhileIn(src, w[1] + 1, AsciiLetters \cup WsChars \cup {"*"})
              env == IF c = "{" THEN Cat(src, w[1] + 1, n2) ELSE c
              b2 == w[2] + 1 + (n2 - w[1] - 1)
              after == IF c = "{" THEN <<n2 + 1, b2 + 1>> ELSE <<w[1] + 1, w[2] + 1>>
          IN IF c # "{" /\ c \notin AsciiLetters \cup {"*"}
             THEN Append(acc, LexErr("Disallowed character in text group: '" \o c \o "'.", w[2], w[2] + CLen(c)))
             ELSE IF c = "{" /\ n2 > Len(src)
             THEN Append(acc, LexErr("Expected closing token \"}\", but reached end of input.", b2, b2))
             ELSE IF c = "{" /\ src[n2] # "}"
             THEN Append(acc, LexErr("Disallowed character in text group: '" \o src[n2] \o "'.", b2, b2 + CLen(src[n2])))
             ELSE IF env \notin EnvNames
             THEN Append(acc, LexErr("Unknown environment \"" \o env \o "\".", w[2], after[2]))
             ELSE LexFrom(src, after[1], after[2], Append(acc, QAt([Kind(name) EXCEPT !.p = env], p, after[2])))

LexFrom(src, i, p, acc) ==
  IF i > Len(src) THEN Append(acc, EoiTok(p))
  ELSE LET c == src[i] n == CLen(c) IN
    IF c \in WsChars
    THEN LET w == SkipWs(src, i, p) IN LexFrom(src, w[1], w[2], Append(acc, QAt(Kind("ws"), p, p + 1)))
    ELSE IF c = "%"
    THEN LET l == SkipLine(src, i, p) w == SkipWs(src, l[1], l[2]) IN LexFrom(src, w[1], w[2], acc)
    ELSE IF c = "\\" THEN LexCommand(src, i + 1, p, acc)
    ELSE IF c = "#"
    THEN IF i + 1 > Len(src)
         THEN Append(acc, LexErr("Expected parameter number after '#', but reached end of input.", p + 1, p + 1))
         ELSE IF src[i + 1] \in AsciiDigits \ {"0"}
         THEN LexFrom(src, i + 2, p + 2, Append(acc, QAt([Kind("param") EXCEPT !.na = DigitVal[src[i + 1]] - 1], p, p + 2)))
         ELSE Append(acc, LexErr("Invalid parameter number. Must be 1-9.", p + 1, p + 1 + CLen(src[i + 1])))
    ELSE LexFrom(src, i + 1, p + n, Append(acc, QAt(CharMeaning(c), p, p + n)))

Lex(src) == LexFrom(src, 1, 0, <<>>)
=============================================================================
