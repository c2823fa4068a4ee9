-------------------------------- MODULE Chars --------------------------------
(* Characters are bytes, 0..255.  Named characters of the pattern syntax and  *)
(* the character classes of README.md.                                        *)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

NUL == 0    BEL == 7    TAB == 9    LF == 10    FF == 12    CR == 13
ESC == 27   SPACE == 32
DOLLAR == 36   LPAR == 40   RPAR == 41   STAR == 42   PLUS == 43
COMMA == 44    DASH == 45   DOT == 46    COLON == 58  QMARK == 63
LSQ == 91      BSLASH == 92 RSQ == 93    CARET == 94
LBRACE == 123  PIPE == 124  RBRACE == 125

Digit == 48..57
Upper == 65..90
Lower == 97..122
Word  == Digit \cup Upper \cup Lower \cup {95}
Space == {TAB, LF, FF, CR, SPACE}
Any   == Byte \ {LF}

Octal == 48..55
Hex   == Digit \cup (65..70) \cup (97..102)

HexValue(c) == IF c \in Digit THEN c - 48
               ELSE IF c \in Upper THEN c - 55 ELSE c - 87

(* Meaning of the escape sequence "\c" as a set of characters. *)
(* a=97 d=100 e=101 f=102 n=110 r=114 s=115 t=116 w=119        *)
(* D=68 N=78 S=83 W=87                                         *)
EscapeSet(c) ==
  CASE c = 100 -> Digit
    [] c = 68  -> Byte \ Digit
    [] c = 119 -> Word
    [] c = 87  -> Byte \ Word
    [] c = 115 -> Space
    [] c = 83  -> Byte \ Space
    [] c = 110 -> {LF}
    [] c = 78  -> Byte \ {LF}
    [] c = 97  -> {BEL}
    [] c = 101 -> {ESC}
    [] c = 102 -> {FF}
    [] c = 114 -> {CR}
    [] c = 116 -> {TAB}
    [] OTHER   -> {c}
=============================================================================
