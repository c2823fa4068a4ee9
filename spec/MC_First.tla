------------------------------- MODULE MC_First -------------------------------
(* The attributes that decide independence and optimizations are exact: First   *)
(* holds precisely the characters that begin some match, Nullable and FixedSize *)
(* tell the sizes of matches.  Anchors and possessive parts can only make them  *)
(* approximations, on the safe side.                                            *)
EXTENDS Integers, Sequences
CONSTANTS Size, Length, Exactly

P == INSTANCE Pattern
a == 97  b == 98
MCAtoms == IF Exactly THEN {P!SetN({a}), P!SetN({b})}
           ELSE {P!SetN({a}), P!SetN({b, 10}), P!BolN, P!EolN}
MCQuantifiers == {<<0, -1, "g">>, <<1, -1, "l">>, <<0, 1, "l">>, <<0, 1, "g">>,
                  <<2, 2, "g">>, <<1, 2, "g">>}
                 \cup IF Exactly THEN {} ELSE {<<0, -1, "p">>, <<1, 2, "p">>}
T == INSTANCE Trees WITH Atoms <- MCAtoms, Quantifiers <- MCQuantifiers
S == INSTANCE Semantics WITH Commit <- FALSE

MCQueries == UNION {[1..n -> IF Exactly THEN {a, b} ELSE {a, b, 10}] : n \in 0..Length}

VARIABLE x
Init == x \in T!TreesUpTo(Size)
Spec == Init /\ [][UNCHANGED x]_x

Ends(q) == LET r == S!Results(x, q, 0, S!NoCaptures(S!GroupCount(x))) IN {r[j][1] : j \in 1..Len(r)}
Starts == UNION {IF Ends(q) \ {0} # {} THEN {q[1]} ELSE {} : q \in MCQueries}
Sizes  == UNION {Ends(q) : q \in MCQueries}

FirstIsRight    == IF Exactly THEN S!First(x) = Starts ELSE Starts \subseteq S!First(x)
NullableIsRight == IF Exactly THEN S!Nullable(x) = (0 \in Sizes) ELSE (0 \in Sizes) => S!Nullable(x)
SizeIsRight     == S!FixedSize(x) # -1 => Sizes \subseteq {S!FixedSize(x)}
=============================================================================
