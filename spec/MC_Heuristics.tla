---------------------------- MODULE MC_Heuristics ----------------------------
EXTENDS Integers, Sequences
CONSTANTS Size, Length, Deviating

P == INSTANCE Pattern
a == 97  b == 98
MCAtoms == {P!SetN({a}), P!SetN({b})}
MCQuantifiers == {<<0, -1, "g">>, <<0, -1, "l">>, <<1, -1, "g">>, <<1, -1, "l">>,
                  <<0, 1, "g">>, <<0, 1, "l">>, <<0, -1, "p">>, <<1, 2, "g">>, <<2, 2, "g">>}
T == INSTANCE Trees WITH Atoms <- MCAtoms, Quantifiers <- MCQuantifiers

\* what is left out could not be rewritten in more than one way
MCTrees == T!TreesUpTo(Size)
MCQueries == UNION {[1..n -> {a, b}] : n \in 0..Length}

VARIABLES original, tree
H == INSTANCE Heuristics WITH Trees <- MCTrees, Queries <- MCQueries, Commit <- Deviating
Spec == H!Spec
SameMatches == H!SameMatches
SameAttributes == H!SameAttributes
Finishes == H!Finishes
=============================================================================
