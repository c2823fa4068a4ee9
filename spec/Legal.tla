-------------------------------- MODULE Legal --------------------------------
(* What the compiler must take and what it must refuse, read from left to right. *)
(*                                                                               *)
(* A text is "legal" (documented syntax), "illegal" (it cannot mean anything: an  *)
(* unclosed bracket, empty brackets or an empty alternative, a quantifier with    *)
(* nothing to repeat, a range whose ends are reversed, something that is no digit *)
(* in a braced number) or "unspecified" (everything else).  An illegal text       *)
(* remains illegal whatever follows.                                              *)
EXTENDS Chars

(* The state of the reader: mode, depth of brackets, and a character or number    *)
(* it has to remember.  Modes:                                                    *)
(*   start, open     beginning of an alternative (open: right after a bracket)    *)
(*   inner           after "(?"                                                   *)
(*   atom            something that can be repeated                               *)
(*   quant, policy   after a quantifier, after its policy                         *)
(*   bol, eol        after an anchor                                              *)
(*   class0, class1  after "[", "[^"; class, dash, classEsc: inside               *)
(*   esc, x0, x1, xb, ob, oct1, oct2   numeric escapes                            *)
(*   b0, b1, b2, b3  inside braces                                                *)
(*   illegal, unspecified                                                         *)
State(m, d, n, k) == [m |-> m, d |-> d, n |-> n, k |-> k]
Beginning == State("start", 0, 0, 0)

Digits8 == Octal
Special == {BSLASH, CARET, DOLLAR, DOT, PIPE, QMARK, STAR, PLUS, LPAR, RPAR, LSQ, RSQ, LBRACE, RBRACE}
\* a d e f n r s t w D S W: letters with a meaning after a backslash
Letters == {97, 100, 101, 102, 110, 114, 115, 116, 119, 68, 87}
InBrackets == {100, 115, 119, 110, 116}

Illegal     == State("illegal", 0, 0, 0)
Unspecified == State("unspecified", 0, 0, 0)

To(s, m) == [s EXCEPT !.m = m, !.n = 0, !.k = 0]

\* c where an atom may begin
Begin(s, c) ==
  CASE c = LPAR   -> [To(s, "open") EXCEPT !.d = s.d + 1]
    [] c = LSQ    -> To(s, "class0")
    [] c = BSLASH -> To(s, "esc")
    [] c = DOLLAR -> To(s, "eol")
    [] c \in {CARET, RSQ, RBRACE} -> Unspecified
    [] OTHER      -> To(s, "atom")

\* c after something complete
EndOrBegin(s, c) ==
  CASE c = PIPE -> To(s, "start")
    [] c = RPAR -> IF s.d = 0 THEN Unspecified ELSE [To(s, "atom") EXCEPT !.d = s.d - 1]
    [] OTHER    -> Begin(s, c)

Digit10(s, c) == [s EXCEPT !.n = IF s.n > 9999 THEN s.n ELSE s.n * 10 + c - 48]

Step(s, c) ==
  CASE s.m \in {"illegal", "unspecified"} -> s
    [] s.m \in {"start", "open"} ->
         IF c = QMARK /\ s.m = "open" THEN To(s, "inner")
         ELSE IF c \in {STAR, PLUS, QMARK, LBRACE, PIPE} THEN Illegal
         ELSE IF c = RPAR THEN (IF s.d = 0 THEN Unspecified ELSE Illegal)
         ELSE IF c = CARET THEN To(s, "bol")
         ELSE Begin(s, c)
    [] s.m = "inner"  -> IF c = COLON THEN To(s, "start") ELSE Illegal
    [] s.m = "atom"   -> IF c \in {STAR, PLUS, QMARK} THEN To(s, "quant")
                         ELSE IF c = LBRACE THEN To(s, "b0")
                         ELSE EndOrBegin(s, c)
    [] s.m = "quant"  -> IF c \in {PLUS, QMARK} THEN To(s, "policy")
                         ELSE IF c \in {STAR, LBRACE} THEN Unspecified
                         ELSE EndOrBegin(s, c)
    [] s.m \in {"policy", "bol"} -> IF c \in {STAR, PLUS, QMARK, LBRACE} THEN Unspecified
                                    ELSE EndOrBegin(s, c)
    [] s.m = "eol"    -> IF c \in {PIPE, RPAR} THEN EndOrBegin(s, c) ELSE Unspecified
    \* square brackets; n: 1 + the character a range may begin with
    [] s.m \in {"class0", "class1", "class"} ->
         CASE c = RSQ -> IF s.m = "class" THEN To(s, "atom") ELSE Illegal
           [] c = CARET /\ s.m = "class0" -> To(s, "class1")
           [] c = BSLASH -> To(s, "classEsc")
           [] c = DASH -> IF s.m = "class" /\ s.n # 0 THEN [s EXCEPT !.m = "dash"] ELSE Unspecified
           [] OTHER -> [To(s, "class") EXCEPT !.n = c + 1]
    \* (whether the bytes from 128 on come first or last depends on the platform)
    [] s.m = "dash"   -> IF c \in {RSQ, BSLASH} \/ (c < 128) # (s.n <= 128) THEN Unspecified
                         ELSE IF c < s.n - 1 THEN Illegal ELSE To(s, "class")
    [] s.m = "classEsc" -> IF c \in InBrackets \cup Special \cup {DASH} THEN To(s, "class") ELSE Unspecified
    \* escapes
    [] s.m = "esc"    -> CASE c = 120 -> To(s, "x0")
                           [] c = 111 -> To(s, "o0")
                           [] c \in 48..51 -> To(s, "oct1")
                           [] c \in Letters \cup Special -> To(s, "atom")
                           [] OTHER -> Unspecified
    [] s.m = "x0"     -> IF c = LBRACE THEN To(s, "xb") ELSE IF c \in Hex THEN To(s, "x1") ELSE Unspecified
    [] s.m = "x1"     -> IF c \in Hex THEN To(s, "atom")
                         ELSE IF c \in {STAR, PLUS, QMARK} THEN To(s, "quant")
                         ELSE IF c = LBRACE THEN To(s, "b0")
                         ELSE EndOrBegin(s, c)
    [] s.m = "xb"     -> IF c = RBRACE THEN (IF s.n = 0 THEN Illegal ELSE IF s.n % 2 = 1 THEN Unspecified ELSE To(s, "atom"))
                         ELSE IF c \in Hex THEN [s EXCEPT !.n = s.n + 1] ELSE Illegal
    [] s.m = "o0"     -> IF c = LBRACE THEN To(s, "ob") ELSE Unspecified
    [] s.m = "ob"     -> IF c = RBRACE THEN (IF s.n = 0 THEN Illegal ELSE IF s.n % 3 # 0 \/ s.k = 1 THEN Unspecified ELSE To(s, "atom"))
                         ELSE IF c \in Octal THEN [s EXCEPT !.n = s.n + 1, !.k = IF s.n % 3 = 0 /\ c > 51 THEN 1 ELSE s.k]
                         ELSE Illegal
    [] s.m = "oct1"   -> IF c \in Octal THEN To(s, "oct2") ELSE Unspecified
    [] s.m = "oct2"   -> IF c \in Octal THEN To(s, "atom") ELSE Unspecified
    \* braces; n: the number being read, k: the first one
    [] s.m = "b0"     -> IF c \in Digit THEN Digit10([s EXCEPT !.m = "b1"], c) ELSE Unspecified
    [] s.m = "b1"     -> IF c \in Digit THEN Digit10(s, c)
                         ELSE IF c = RBRACE THEN To(s, "quant")
                         ELSE IF c = COMMA THEN [s EXCEPT !.m = "b2", !.k = s.n, !.n = 0] ELSE Unspecified
    [] s.m = "b2"     -> IF c = RBRACE THEN To(s, "quant")
                         ELSE IF c \in Digit THEN Digit10([s EXCEPT !.m = "b3"], c) ELSE Unspecified
    [] s.m = "b3"     -> IF c \in Digit THEN Digit10(s, c)
                         ELSE IF c = RBRACE /\ s.n >= s.k THEN To(s, "quant") ELSE Unspecified

\* what a text that ends here is
Final(s) ==
  CASE s.m \in {"illegal", "unspecified"} -> s.m
    [] s.m \in {"atom", "quant", "policy", "bol", "eol", "x1"} -> IF s.d = 0 THEN "legal" ELSE "illegal"
    \* an alternative without anything, square brackets or braces of a number left open
    [] s.m \in {"start", "open", "inner", "class0", "class1", "class", "dash", "classEsc", "xb", "ob"} -> "illegal"
    [] OTHER -> IF s.d = 0 THEN "unspecified" ELSE "illegal"

RECURSIVE Reading(_, _, _)
Reading(s, p, i) == IF i > Len(p) THEN s ELSE Reading(Step(s, p[i]), p, i + 1)
Verdict(p) == Final(Reading(Beginning, p, 1))
=============================================================================
