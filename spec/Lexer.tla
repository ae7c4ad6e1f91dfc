------------------------------- MODULE Lexer -------------------------------
(* The words of a source text. A text is a sequence of one-character strings.*)
(* Tokens(src) is the sequence of its tokens, comments included:             *)
(*   [k |-> kind, s |-> text, a |-> first position, z |-> last position]     *)
(* with the kinds  id  num  str  doc (a /// comment)  note (any other        *)
(* comment)  bad (a character that starts no token)  and, for keywords,      *)
(* operators and punctuation, the text itself.                               *)
EXTENDS Naturals, Integers, Sequences, TLC

CharSet(s) == {s[i] : i \in 1..Len(s)}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Letters == Lower \union Upper \union {"_"}
HexDigits == Digits \union {"a","b","c","d","e","f","A","B","C","D","E","F"}
Blanks == {" ", "\t", "\r", "\n"}
Keywords == {"if", "enum", "case", "else", "true", "self", "false", "struct", "packet", "switch", "default"}
Pairs == {"==", "!=", "&&", "||", ">=", ">>", "<=", "<<"}
Singles == {"{", "}", "[", "]", "(", ")", ";", ":", ",", "@", "=", "!", "&", "|", "^", "~", ">", "<", ".", "+", "-", "*", "/", "%"}

\* the text src[a..z]
RECURSIVE TextOf(_, _, _)
TextOf(src, a, z) == IF a > z THEN "" ELSE src[a] \o TextOf(src, a + 1, z)

At(src, i) == IF i \in 1..Len(src) THEN src[i] ELSE ""
\* the first position from i on whose character is not in the set; in the set
RECURSIVE SkipOver(_, _, _)
SkipOver(src, i, set) == IF At(src, i) \in set THEN SkipOver(src, i + 1, set) ELSE i
RECURSIVE SkipTo(_, _, _)
SkipTo(src, i, set) == IF i > Len(src) \/ src[i] \in set THEN i ELSE SkipTo(src, i + 1, set)
RECURSIVE EndOfComment(_, _)     \* the position after */ or the end of the text
EndOfComment(src, i) == IF i > Len(src) THEN i
                        ELSE IF src[i] = "*" /\ At(src, i + 1) = "/" THEN i + 2 ELSE EndOfComment(src, i + 1)

\* a number starts with a digit; the sign is a token of its own
EndOfNumber(src, i) ==
  IF src[i] = "0" /\ At(src, i + 1) \in {"x", "X"} /\ At(src, i + 2) \in HexDigits THEN SkipOver(src, i + 2, HexDigits)
  ELSE LET j == SkipOver(src, i, Digits) IN
       IF At(src, j) = "." /\ At(src, j + 1) \in Digits THEN SkipOver(src, j + 1, Digits) ELSE j

Token(src, i) ==     \* the token that starts at i
  LET c == src[i]
      Tok(k, z) == [k |-> k, s |-> TextOf(src, i, z), a |-> i, z |-> z]
  IN
  CASE c = "/" /\ At(src, i + 1) = "/" /\ At(src, i + 2) = "/" -> Tok("doc", SkipTo(src, i, {"\n", "\r"}) - 1)
    [] c = "/" /\ At(src, i + 1) = "/" /\ At(src, i + 2) # "/" -> Tok("note", SkipTo(src, i, {"\n"}) - 1)
    [] c = "/" /\ At(src, i + 1) = "*" -> Tok("note", EndOfComment(src, i + 2) - 1)
    [] c \in Letters -> LET z == SkipOver(src, i, Letters \union Digits) - 1  t == TextOf(src, i, z) IN
                        Tok(IF t \in Keywords THEN t ELSE "id", z)
    [] c \in Digits -> Tok("num", EndOfNumber(src, i) - 1)
    [] c = "\"" -> LET e == SkipTo(src, i + 1, {"\""}) IN
                   [k |-> "str", s |-> TextOf(src, i + 1, e - 1), a |-> i, z |-> IF e > Len(src) THEN Len(src) ELSE e]
    [] OTHER -> LET two == c \o At(src, i + 1) IN
                IF two \in Pairs THEN Tok(two, i + 1) ELSE IF c \in Singles THEN Tok(c, i) ELSE Tok("bad", i)

RECURSIVE TokensFrom(_, _, _)
TokensFrom(src, i, acc) ==
  LET j == SkipOver(src, i, Blanks) IN
  IF j > Len(src) THEN acc
  ELSE LET t == Token(src, j) IN TokensFrom(src, t.z + 1, Append(acc, t))
Tokens(src) == TokensFrom(src, 1, <<>>)

\* what the grammar gets to see: no comments but documentation, and an end mark
Significant(toks) == Append(SelectSeq(toks, LAMBDA t : t.k # "note"), [k |-> "eof", s |-> "", a |-> 0, z |-> 0])
=============================================================================
