-------------------------------- MODULE MC_Api --------------------------------
(* Every history of operations on two results, over every short query and a few *)
(* regexes: with groups, empty matches, anchors, lazy and possessive parts.     *)
EXTENDS Integers, Sequences
CONSTANTS Length

P == INSTANCE Pattern
VARIABLES obj, last, steps

a == 97  b == 98
Patterns == << <<a, 42>>,                               \* a*
               <<40, a, 41, 124, b, 40, a, 63, 41>>,    \* (a)|b(a?)
               <<40, a, 124, a, b, 41, b, 63, 63>>,     \* (a|ab)b??
               <<94, b, 124, a, 36>>,                   \* ^b|a$
               <<40, a, 123, 49, 44, 50, 125, 43, 41, b>> >>  \* (a{1,2}+)b

MCRegex == [n \in 1..Len(Patterns) |-> P!Parsed(Patterns[n])]
MCQueries == UNION {[1..n -> {a, b, 10}] : n \in 0..Length}

A == INSTANCE MatchApi WITH Regex <- MCRegex, Handles <- {1, 2}, Commit <- FALSE

vars == <<obj, last, steps>>
Init == A!Init /\ steps = 0
Next == /\ steps < Length + 4
        /\ steps' = steps + 1
        /\ \/ \E r \in 1..Len(Patterns), q \in MCQueries : ~A!Live(1) /\ A!Match(1, r, q)
           \/ \E h \in {1, 2} : A!Next(h) \/ A!Increment(h)
           \/ A!Copy(2, 1) \/ A!Begin(2, 1) \/ A!End(2, 1) \/ A!Range(1)
Spec == Init /\ [][Next]_vars
View == <<obj, last>>
Confined == A!Confined
RejectedIsEmpty == A!RejectedIsEmpty
Progress == A!Progress
EndIsFinal == A!EndIsFinal
Isolated == A!Isolated
\* at most one match more than there are characters
Bounded == \A h \in {1, 2} : A!Live(h) => Len(A!Visited(obj[h])) <= Len(obj[h].q) + 1
=============================================================================
