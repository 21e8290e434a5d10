-------------------------------- MODULE Lexer --------------------------------
(* The lexical rules.  A text is a sequence of Unicode code points.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* Code points of the ASCII characters the rules mention *)
TAB == 9   LF == 10   CR == 13   QUOTE == 34   TICK == 39   BACKSLASH == 92
LPAR == 40   RPAR == 41   STAR == 42   PLUS == 43   MINUS == 45   COLON == 58
LESS == 60   EQUALS == 61   GREATER == 62   UNDERSCORE == 95   ZERO == 48

IsDigit(ch) == ch \in 48..57
IsLower(ch) == ch \in 97..122
IsUpper(ch) == ch \in 65..90
IsHexDigit(ch) == IsDigit(ch) \/ ch \in 65..70 \/ ch \in 97..102
IsWord(ch) == IsDigit(ch) \/ IsLower(ch) \/ IsUpper(ch) \/ ch = UNDERSCORE

(* Beyond ASCII: white space, and the letters and numbers the texts under   *)
(* test may contain; Known tells that a character is classified here.       *)
WideWhite == {133, 160, 5760} \cup 8192..8202 \cup {8232, 8233, 8239, 8287, 12288}
WideNumber == {178, 189, 1632, 8544, 65297}          \* superscript 2, 1/2, Arabic 0, Roman 1, fullwidth 1
WideLetter == {170, 223, 233, 246, 945, 1046, 20013, 65313, 119964}
WideOther == {128, 173, 768, 8203, 8230, 8364, 65279, 65533, 128512, 127}
Known(ch) == ch \in 0..127 \/ ch \in WideWhite \cup WideNumber \cup WideLetter \cup WideOther

IsWhite(ch) == ch \in 9..13 \/ ch = 32 \/ ch \in WideWhite
(* Letters, numbers and underscores: the extent of a word for keywords *)
IsWordWide(ch) == IsWord(ch) \/ ch \in WideLetter \/ ch \in WideNumber
IsNumberWide(ch) == IsDigit(ch) \/ ch \in WideNumber

Bytes(ch) == IF ch < 128 THEN 1 ELSE IF ch < 2048 THEN 2 ELSE IF ch < 65536 THEN 3 ELSE 4

Letters == [ch \in 32..126 |->
  SubSeq(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~",
         ch - 31, ch - 31)]

----------------------------------------------------------------------------
(* Character p of the text, -1 beyond the end *)
Ch(tx, p) == IF p \in 1..Len(tx) THEN tx[p] ELSE -1

(* The first position from p on whose character is not of the class *)
RECURSIVE RunWord(_, _), RunWordWide(_, _), RunDigits(_, _), RunHexPairs(_, _)
RunWord(tx, p) == IF IsWord(Ch(tx, p)) THEN RunWord(tx, p + 1) ELSE p
RunWordWide(tx, p) == IF IsWordWide(Ch(tx, p)) THEN RunWordWide(tx, p + 1) ELSE p
RunDigits(tx, p) == IF IsDigit(Ch(tx, p)) THEN RunDigits(tx, p + 1) ELSE p
RunHexPairs(tx, p) == IF IsHexDigit(Ch(tx, p)) /\ IsHexDigit(Ch(tx, p + 1))
                      THEN RunHexPairs(tx, p + 2) ELSE p

(* Behind the first unescaped quote from p on, 0 if there is none *)
RECURSIVE StringEnd(_, _)
StringEnd(tx, p) ==
  CASE p > Len(tx)        -> 0
    [] tx[p] = QUOTE      -> p + 1
    [] tx[p] = BACKSLASH  -> IF p + 1 > Len(tx) THEN 0 ELSE StringEnd(tx, p + 2)
    [] OTHER              -> StringEnd(tx, p + 1)

(* Behind the first closing mark from p on, 0 if there is none *)
RECURSIVE CommentEnd(_, _)
CommentEnd(tx, p) ==
  CASE p + 1 > Len(tx)                           -> 0
    [] tx[p] = STAR /\ tx[p + 1] = RPAR          -> p + 2
    [] OTHER                                     -> CommentEnd(tx, p + 1)

OpensComment(tx, p) == Ch(tx, p) = LPAR /\ Ch(tx, p + 1) = STAR

(* Behind the white space and the closed comments that begin at p *)
RECURSIVE GapEnd(_, _)
GapEnd(tx, p) ==
  IF p > Len(tx) THEN p
  ELSE IF IsWhite(tx[p]) THEN GapEnd(tx, p + 1)
  ELSE IF OpensComment(tx, p) /\ CommentEnd(tx, p + 2) # 0 THEN GapEnd(tx, CommentEnd(tx, p + 2))
  ELSE p

----------------------------------------------------------------------------
KeywordTexts == {"forall", "builtin", "library", "import", "let", "in", "match",
  "with", "end", "fun", "tfun", "contract", "transition", "send", "event", "Event",
  "field", "accept", "exists", "delete", "throw", "Map", "scilla_version", "type",
  "of", "as", "procedure", "Emp", "ByStr"}
SingleSymbols == {"+", "*", ";", ".", "|", "[", "]", "(", ")", "{", "}", ",", "&", "@"}

RECURSIVE Spell(_, _, _)
Spell(tx, p, stop) == IF p >= stop THEN "" ELSE Letters[tx[p]] \o Spell(tx, p + 1, stop)

(* The token that begins at p, which is neither white space nor the start   *)
(* of a closed comment: its kind, the position behind it, and the position  *)
(* where reading goes on.  An unknown token is empty.                       *)
Tok(kind, stop) == [kind |-> kind, stop |-> stop, next |-> stop]
Unknown(p, next) == [kind |-> "unknown", stop |-> p, next |-> next]

Word(tx, p) ==
  LET ch == tx[p]
      ascii == RunWord(tx, p)
      whole == ascii = RunWordWide(tx, p)
      text == IF ascii - p <= 14 THEN Spell(tx, p, ascii) ELSE ""
      sized == ascii - p > 5 /\ Spell(tx, p, p + 5) = "ByStr" /\ RunDigits(tx, p + 5) = ascii
  IN  CASE whole /\ text \in KeywordTexts           -> Tok(text, ascii)
        [] whole /\ sized                           -> Tok("bystrn", ascii)
        [] IsLower(ch)                              -> Tok("id", ascii)
        [] IsUpper(ch)                              -> Tok("cid", ascii)
        [] OTHER                                    -> Tok("sid", ascii)

TokenAt(tx, p) ==
  LET ch == tx[p]
      nx == Ch(tx, p + 1)
  IN CASE ch = EQUALS  -> IF nx = GREATER THEN Tok("=>", p + 2) ELSE Tok("=", p + 1)
       [] ch = COLON   -> IF nx = EQUALS THEN Tok(":=", p + 2) ELSE Tok(":", p + 1)
       [] ch = LESS    -> IF nx = MINUS THEN Tok("<-", p + 2) ELSE Unknown(p, p + 1)
       [] ch = MINUS   -> IF nx = GREATER THEN Tok("->", p + 2)
                          ELSE IF IsDigit(nx) THEN Tok("num", RunDigits(tx, p + 1))
                          ELSE IF IsNumberWide(nx) THEN Unknown(p, p + 1)
                          ELSE Tok("-", p + 1)
       [] ch = UNDERSCORE /\ ~IsWordWide(nx) -> Tok("_", p + 1)
       [] ch = ZERO /\ nx \in {88, 120}      -> Tok("hex", RunHexPairs(tx, p + 2))
       [] IsDigit(ch)  -> Tok("num", RunDigits(tx, p))
       [] ch = QUOTE   -> LET stop == StringEnd(tx, p + 1)
                          IN  IF stop = 0 THEN Unknown(p, p + 1) ELSE Tok("str", stop)
       [] ch = TICK    -> IF IsUpper(nx) THEN Tok("tid", RunWord(tx, p + 1)) ELSE Unknown(p, p + 1)
       [] IsWord(ch)   -> Word(tx, p)
       [] OpensComment(tx, p)                -> Unknown(p, Len(tx) + 1)
       [] ch \in 33..126 /\ Letters[ch] \in SingleSymbols -> Tok(Letters[ch], p + 1)
       [] OTHER        -> Unknown(p, p + 1)

----------------------------------------------------------------------------
(* Positions: byte offset, zero-based line and byte column of character p   *)
Start == [byte |-> 0, line |-> 0, col |-> 0]
RECURSIVE Advance(_, _, _, _)
Advance(tx, at, from, to) ==
  IF from >= to THEN at
  ELSE LET ch == tx[from]
           now == IF ch = LF THEN [byte |-> at.byte + 1, line |-> at.line + 1, col |-> 0]
                  ELSE [byte |-> at.byte + Bytes(ch), line |-> at.line, col |-> at.col + Bytes(ch)]
       IN  Advance(tx, now, from + 1, to)
=============================================================================
