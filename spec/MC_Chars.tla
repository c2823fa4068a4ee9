------------------------------- MODULE MC_Chars -------------------------------
(* Every way to write each of the 256 characters, and the classes.              *)
EXTENDS Integers, Sequences
P == INSTANCE Pattern

VARIABLE c
Init == c \in P!Byte
Spec == Init /\ [][UNCHANGED c]_c

Lower(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UpperHex(n) == IF n < 10 THEN 48 + n ELSE 55 + n
OctalOf(n) == <<48 + n \div 64, 48 + ((n \div 8) % 8), 48 + (n % 8)>>

One == P!SetN({c})
Two == P!SeqN(<<One, P!SetN({255 - c})>>)

HexForms ==
  /\ P!Parse(<<92, 120, Lower(c \div 16), Lower(c % 16)>>) = One
  /\ P!Parse(<<92, 120, UpperHex(c \div 16), UpperHex(c % 16)>>) = One
  /\ c < 16 => P!Parse(<<92, 120, Lower(c)>>) = One
  /\ P!Parse(<<92, 120, 123, UpperHex(c \div 16), Lower(c % 16),
               Lower((255 - c) \div 16), UpperHex((255 - c) % 16), 125>>) = Two
OctalForms ==
  /\ P!Parse(<<92>> \o OctalOf(c)) = One
  /\ P!Parse(<<92, 111, 123>> \o OctalOf(c) \o OctalOf(255 - c) \o <<125>>) = Two

Escaped == c \in P!Meta => P!Parse(<<92, c>>) = One
Literal == c \notin P!Meta => P!Parse(<<97, c>>) = P!SeqN(<<P!SetN({97}), One>>)

\* a class and its negation share no character, and leave none out
Opposite(p, n) == LET s == P!Parse(p).s  t == P!Parse(n).s IN
                  s \cap t = {} /\ s \cup t = P!Byte
Classes ==
  /\ Opposite(<<92, 100>>, <<92, 68>>) /\ Opposite(<<92, 119>>, <<92, 87>>)
  /\ Opposite(<<92, 115>>, <<92, 83>>) /\ Opposite(<<92, 110>>, <<92, 78>>)
  /\ c \notin P!Meta \cup {45} => Opposite(<<91, c, 93>>, <<91, 94, c, 93>>)
  /\ c \in (48..90) \ (P!Meta \cup {45}) =>
       Opposite(<<91, 48, 45, c, 93>>, <<91, 94, 48, 45, c, 93>>)
  /\ P!Parse(<<46>>).s = P!Byte \ {10}
  /\ P!Parse(<<92, 100>>).s = P!Parse(<<91, 48, 45, 57, 93>>).s
  /\ P!Parse(<<92, 119>>).s = P!Parse(<<91, 65, 45, 90, 97, 45, 122, 48, 45, 57, 95, 93>>).s
=============================================================================
