------------------------------- MODULE MC_Parse -------------------------------
(* Patterns and trees are the same language: every tree of a bounded space is   *)
(* what its pattern means, and its groups are numbered as they are counted.     *)
(* Also prints the patterns, when asked to: they are compiled and compared with *)
(* the specification by the checks.                                             *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Size, Printing, AtomKind

P == INSTANCE Pattern
L == INSTANCE Legal
a == 97  b == 98
MCAtoms == CASE AtomKind = "chars"   -> {P!SetN({a}), P!SetN({b})}
             [] AtomKind = "anchors" -> {P!SetN({a}), P!SetN({a, 10}), P!BolN, P!EolN}
             [] AtomKind = "classes" -> {P!SetN({a}), P!SetN({42}), P!SetN(P!Any), P!SetN(P!Digit),
                                         P!SetN(P!Byte \ {a, 93})}
MCQuantifiers == {<<0, -1, "g">>, <<0, -1, "l">>, <<1, -1, "p">>, <<0, 1, "g">>,
                  <<2, 2, "g">>, <<1, 3, "l">>, <<0, 2, "g">>, <<12, -1, "g">>}
T == INSTANCE Trees WITH Atoms <- MCAtoms, Quantifiers <- MCQuantifiers

VARIABLE x
Init == x \in T!TreesUpTo(Size)
        /\ (Printing => PrintT("PATTERN " \o ToJson(P!Render(x))))
Spec == Init /\ [][UNCHANGED x]_x

RECURSIVE GroupsOf(_)
GroupsOf(y) == CASE y.k = "grp" -> <<y.n>> \o GroupsOf(y.x)
                 [] y.k = "rep" -> GroupsOf(y.x)
                 [] y.k \in {"seq", "alt"} -> P!Concat([j \in 1..Len(y.xs) |-> GroupsOf(y.xs[j])])
                 [] OTHER -> <<>>

SameTree   == P!Parse(P!Render(x)) = x
WellFormed == P!Valid(P!Render(x))
Accepted   == L!Verdict(P!Render(x)) = "legal"
Numbering  == /\ GroupsOf(x) = [n \in 1..P!GroupCount(x) |-> n]
              /\ P!Groups(P!Render(x)) = P!GroupCount(x)
=============================================================================
