-------------------------------- MODULE Scripts --------------------------------
(* Histories of operations, for the library to be put through: random walks of   *)
(* MatchApi (or, for token iterators, of TokenIter, which has Equal besides)     *)
(* over an arbitrary regex, printed when they are Length operations long.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Length, Tokens

VARIABLES obj, last, hist
P == INSTANCE Pattern
Api == INSTANCE MatchApi WITH Regex <- <<P!Parsed(<<97>>)>>, Handles <- 0..2, Commit <- FALSE

Queries == << <<>>, <<97>>, <<97, 97>> >>   \* stand for three queries

Add(kind, a, b) == hist' = Append(hist, <<kind, a, b>>)
H == 0..2

Init == Api!Init /\ hist = <<>>
\* a history is complete, another one begins
Complete ==
  /\ Len(hist) = Length
  /\ PrintT("SCRIPT " \o ToJson(hist))
  /\ hist' = <<>> /\ obj' = [h \in H |-> Api!NoResult] /\ last' = <<"init">>

Go ==
  /\ Len(hist) < Length
  /\ \/ \E h \in H, n \in 1..3 : Api!Match(h, 1, Queries[n]) /\ Add("M", h, n - 1)
     \/ \E h \in H : Api!Increment(h) /\ Add("I", h, 0)
     \/ \E h \in H : ~Tokens /\ Api!Next(h) /\ Add("N", h, 0)
     \/ \E h \in H : Api!Next(h) /\ Add(IF Tokens THEN "I" ELSE "N", h, 0)
     \/ \E h, k \in H : h # k /\ Api!Copy(h, k) /\ Add("C", h, k)
     \/ \E h, k \in H : h # k /\ Api!Copy(h, k) /\ Add("A", h, k)
     \/ \E h, k \in H : h # k /\ Api!Begin(h, k) /\ Add("B", h, k)
     \/ \E h \in H, k \in H : h = (k + 1) % 3 /\ Api!End(h, k) /\ Add("E", h, k)
     \/ \E h \in H : Api!Range(h) /\ Add("R", h, 0)
     \/ \E h, k \in H : Tokens /\ Api!Live(h) /\ Api!Live(k) /\ UNCHANGED <<obj, last>>
                        /\ Add("Q", h, k)
Next == Go \/ Complete
Spec == Init /\ [][Next]_<<obj, last, hist>>
=============================================================================
