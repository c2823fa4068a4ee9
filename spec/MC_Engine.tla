------------------------------ MODULE MC_Engine ------------------------------
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, Length, Deviating, Alphabet, AtomKind

P == INSTANCE Pattern
a == 97  b == 98

MCAtoms == CASE AtomKind = "chars"   -> {P!SetN({a}), P!SetN({b})}
             [] AtomKind = "overlap" -> {P!SetN({a}), P!SetN({a, b})}
             [] AtomKind = "anchors" -> {P!SetN({a}), P!SetN({a, 10}), P!BolN, P!EolN}

MCQuantifiers == {<<0, -1, "g">>, <<0, -1, "l">>, <<0, -1, "p">>,
                  <<1, -1, "g">>, <<1, -1, "l">>,
                  <<0, 1, "g">>, <<0, 1, "l">>, <<0, 1, "p">>,
                  <<1, 2, "g">>, <<1, 2, "l">>, <<2, 2, "g">>, <<2, -1, "p">>}

T == INSTANCE Trees WITH Atoms <- MCAtoms, Quantifiers <- MCQuantifiers

MCTrees   == T!TreesUpTo(Size)
MCQueries == UNION {[1..n -> Alphabet] : n \in 0..Length}

VARIABLES x, q, start, thread, stack, status
E == INSTANCE Engine WITH Trees <- MCTrees, Queries <- MCQueries, Commit <- Deviating

Spec == E!Spec
CursorInQuery == E!CursorInQuery
MarksAreValid == E!MarksAreValid
RightResult == E!RightResult
CleanStart == E!CleanStart
Ends == E!Ends
=============================================================================
