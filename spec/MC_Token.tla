------------------------------- MODULE MC_Token -------------------------------
(* Every history of operations on two iterators, over every short input and a   *)
(* few tokenizers: overlapping definitions, alternatives, separators that are   *)
(* prefixes of each other, definitions that can be empty.                       *)
EXTENDS Integers, Sequences
CONSTANTS Length

P == INSTANCE Pattern
VARIABLES it, last, steps

a == 97  b == 98  s == 32
Token(type, p) == [sep |-> FALSE, type |-> type, x |-> P!Parse(p), groups |-> P!Groups(p)]
Separator(p)   == [sep |-> TRUE, type |-> -1, x |-> P!Parse(p), groups |-> P!Groups(p)]

MCTokenizers ==
  << <<Token(0, <<a, 43>>), Token(1, <<a, b>>), Separator(<<s>>)>>,            \* a+  ab
     <<Token(0, <<a, 124, a, b>>), Token(1, <<b, 42>>), Separator(<<s, 43>>)>>, \* a|ab  b*
     <<Separator(<<s>>), Token(1, <<97, 98, 63>>), Token(0, <<97, 98>>),
       Separator(<<s, b>>)>> >>                                                 \* ab?  ab

MCInputs == UNION {[1..n -> {a, b, s}] : n \in 0..Length}

T == INSTANCE TokenIter WITH Tokenizer <- MCTokenizers, Handles <- {1, 2}, Commit <- TRUE

vars == <<it, last, steps>>
Init == T!Init /\ steps = 0
Next == /\ steps < Length + 4
        /\ steps' = steps + 1
        /\ \/ \E t \in 1..Len(MCTokenizers), in \in MCInputs : ~T!Live(1) /\ T!Tokenize(1, t, in)
           \/ \E h \in {1, 2} : T!Increment(h)
           \/ T!Copy(2, 1) \/ T!Begin(2, 1) \/ T!End(2, 1) \/ T!Range(1) \/ T!Equal(1, 2)
Spec == Init /\ [][Next]_vars
View == <<it, last>>
TokensInInput == T!TokensInInput
MaximalMunch == T!MaximalMunch
NoGaps == T!NoGaps
EndIsFinal == T!EndIsFinal
Isolated == T!Isolated
\* an iterator is exhausted after at most as many tokens as characters
Terminates == \A h \in {1, 2} : T!Live(h) => Len(T!TokensFrom(it[h])) <= Len(it[h].in)
=============================================================================
