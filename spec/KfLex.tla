------------------------------- MODULE KfLex -------------------------------
(***************************************************************************)
(* The lexical level of Kuneiform: how a character sequence is split into  *)
(* tokens.  A source is a TLA+ string; a token is                          *)
(*     [k |-> kind, t |-> text, p |-> index of its first character,         *)
(*      e |-> index behind its last character]                             *)
(* where the kind of a keyword, an operator or a punctuation mark is its   *)
(* text, and the other kinds are                                           *)
(*   ID  HASHID (#id)  VAR ($id)  AT (@id)  NUM  STR  SQL  DML (a bare SQL *)
(*   keyword) and LEXERR (no token starts here).                           *)
(* Maximal munch; spaces, line ends and comments separate tokens and are   *)
(* otherwise invisible (except inside SQL and string tokens).              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

(* F(x); TLC then evaluates x just once. *)
Bind(x, F(_)) == CHOOSE y \in {F(v) : v \in {x}} : TRUE

LOCAL Lowers == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
                 "q","r","s","t","u","v","w","x","y","z"}
LOCAL Uppers == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
                 "Q","R","S","T","U","V","W","X","Y","Z"}
Letters == Lowers \cup Uppers
Digits == {"0","1","2","3","4","5","6","7","8","9"}
WordChars == Letters \cup Digits \cup {"_"}
Blanks == {" ", "\t"}
Newlines == {"\n", "\r"}
Spaces == Blanks \cup Newlines

LOCAL Up2Low == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f",
  G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m",
  N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t",
  U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]

LowerCh(c) == IF c \in Uppers THEN Up2Low[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowerCh(SubSeq(s, 1, 1)) \o Lower(SubSeq(s, 2, Len(s)))

Keywords == {"database", "use", "as", "table", "action", "init", "public", "private",
  "view", "owner", "int", "text", "blob", "min", "max", "minlen", "maxlen", "notnull",
  "primary", "default", "unique", "index", "foreign_key", "fk", "references", "ref",
  "on_update", "on_delete", "do", "no_action", "cascade", "set_null", "set_default",
  "restrict", "not", "and", "or"}

SqlWords == {"select", "insert", "update", "delete", "with"}

(* The scanners work on the characters of the source, cs, a tuple of one-character strings. *)
Chars(s) == TLCEval([i \in 1..Len(s) |-> SubSeq(s, i, i)])

Ch(cs, i) == IF i > Len(cs) THEN "" ELSE cs[i]

(* The first position >= i whose character satisfies Test (Len(cs)+1 if none). *)
First(cs, i, Test(_)) ==
  LET r == SelectInSeq(SubSeq(cs, i, Len(cs)), Test) IN IF r = 0 THEN Len(cs) + 1 ELSE i + r - 1
Skip(cs, i, S)   == First(cs, i, LAMBDA c : c \notin S)
SkipTo(cs, i, S) == First(cs, i, LAMBDA c : c \in S)

(* Position behind the closing quote of a string whose opening quote is    *)
(* before i; 0 if it is not closed.  A backslash protects any character.   *)
LOCAL StrStops == {"'", "\\", "\n", "\r"}
RECURSIVE StrEnd(_, _)
StrEnd(cs, i) ==
  LET j == SkipTo(cs, i, StrStops) IN
  IF j > Len(cs) \/ cs[j] \in Newlines THEN 0
  ELSE IF cs[j] = "'" THEN j + 1
  ELSE IF j + 1 > Len(cs) THEN 0 ELSE StrEnd(cs, j + 2)

(* Position behind the first star-slash at or after i; 0 if there is none. *)
RECURSIVE CommentEnd(_, _)
CommentEnd(cs, i) ==
  LET j == SkipTo(cs, i, {"*"}) IN
  IF j + 1 > Len(cs) THEN 0 ELSE IF cs[j + 1] = "/" THEN j + 2 ELSE CommentEnd(cs, j + 1)

Puncts1 == {":", ";", "(", "{", ")", "}", ",", "$", "#", "@", ".", "=", "+", "-", "*",
            "/", "%", "~", "&", "|", "<", ">"}
Puncts2 == {"||", "<<", ">>", "==", "<=", ">=", "!=", "<>"}
LOCAL Punct2Start == {"|", "<", ">", "=", "!", "/"}

HID == "HIDDEN"

Word(k, s, i, e) == [k |-> k, t |-> SubSeq(s, i, e - 1), p |-> i, e |-> e]

(* The token of s (characters cs) starting at position i <= Len(s); e is the position behind it. *)
TokenAt(s, cs, i) ==
  LET c == cs[i] IN
  IF c \in Blanks THEN [k |-> HID, t |-> "", p |-> i, e |-> Skip(cs, i + 1, Blanks)]
  ELSE IF c \in Letters THEN
    LET e  == Skip(cs, i + 1, WordChars)
        w  == SubSeq(s, i, e - 1)
    IN IF w \in Keywords THEN Word(w, s, i, e)
       ELSE IF e - i \in {4, 6} /\ Lower(w) \in SqlWords
       THEN LET b == Skip(cs, e, Spaces)     \* blanks behind the keyword
                f == SkipTo(cs, e, {";", "}"})
            IN IF b > e /\ f > e + 1 THEN Word("SQL", s, i, f) ELSE Word("DML", s, i, e)
       ELSE [k |-> "ID", t |-> w, p |-> i, e |-> e]
  ELSE IF c \in Newlines THEN [k |-> HID, t |-> "", p |-> i, e |-> Skip(cs, i + 1, Newlines)]
  ELSE IF c \in Digits THEN Word("NUM", s, i, Skip(cs, i + 1, Digits))
  ELSE IF c = "'" THEN
    LET e == StrEnd(cs, i + 1) IN IF e = 0 THEN Word("LEXERR", s, i, i + 1) ELSE Word("STR", s, i, e)
  ELSE IF c \in {"#", "$", "@"} /\ Ch(cs, i + 1) \in Letters THEN
    Word(IF c = "#" THEN "HASHID" ELSE IF c = "$" THEN "VAR" ELSE "AT", s, i, Skip(cs, i + 1, WordChars))
  ELSE IF c \in Punct2Start /\ i < Len(cs) THEN
    LET c2 == SubSeq(s, i, i + 1) IN
    IF c2 = "//" THEN [k |-> HID, t |-> "", p |-> i, e |-> SkipTo(cs, i + 2, Newlines)]
    ELSE IF c2 = "/*" /\ CommentEnd(cs, i + 2) # 0
         THEN [k |-> HID, t |-> "", p |-> i, e |-> CommentEnd(cs, i + 2)]
    ELSE IF c2 \in Puncts2 THEN Word(c2, s, i, i + 2)
    ELSE IF c \in Puncts1 THEN Word(c, s, i, i + 1) ELSE Word("LEXERR", s, i, i + 1)
  ELSE IF c \in Puncts1 THEN Word(c, s, i, i + 1)
  ELSE Word("LEXERR", s, i, i + 1)

(* All visible tokens.  LEXERR tokens are kept. *)
Lex(s) ==
  LET cs == Chars(s)
      Read(st, i) == IF i # st.at THEN st
                     ELSE LET r == TokenAt(s, cs, i) IN
                          [at |-> r.e, ts |-> IF r.k = HID THEN st.ts ELSE Append(st.ts, r)]
  IN FoldLeftDomain(Read, [at |-> 1, ts |-> << >>], cs).ts

(* Line (from 1) and column (from 0) of position i. Only LF starts a line. *)
LineCol(s, i) ==
  LET before == SubSeq(Chars(s), 1, i - 1)
      last   == SelectLastInSeq(before, LAMBDA c : c = "\n")
  IN <<1 + Len(SelectSeq(before, LAMBDA c : c = "\n")), i - 1 - last>>

-----------------------------------------------------------------------------
(* Separation: what may stand between two adjacent tokens so that the      *)
(* character sequence splits into just these tokens again.                 *)
(*   0 nothing (layout behind SQL text would become part of it)            *)
(*   1 anything or nothing        2 at least some layout                   *)
LOCAL WordKinds == Keywords \cup {"ID", "HASHID", "VAR", "AT", "DML"}
LOCAL Sticky == {"<", ">", "=", "|", "/", "*", "&"}
Sep(a, b) ==
  IF a.k = "SQL" THEN 0
  ELSE IF a.k \in WordKinds /\ (b.k \in Keywords \cup {"ID", "NUM", "SQL", "DML"}) THEN 2
  ELSE IF a.k = "NUM" /\ b.k = "NUM" THEN 2
  ELSE IF a.k \in {"#", "$", "@"} /\ b.k \in WordKinds \cup {"SQL"} THEN 2
  ELSE IF a.k \in Sticky \cup Puncts2 /\ b.k \in Sticky \cup Puncts2 THEN 2
  ELSE 1
=============================================================================
