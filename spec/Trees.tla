-------------------------------- MODULE Trees --------------------------------
(* All the trees of a size, and random ones: the space the models explore and *)
(* the source of patterns generated from the specification.                   *)
EXTENDS Pattern

CONSTANTS Atoms,        \* set of trees
          Quantifiers   \* set of <<least, most, policy>>

RECURSIVE Shapes(_)
Shapes(n) ==            \* trees of n nodes; groups have no number yet
  IF n = 1 THEN Atoms
  ELSE {GrpN(0, x) : x \in Shapes(n - 1)}
       \cup {RepN(x, k[1], k[2], k[3]) : x \in Shapes(n - 1), k \in Quantifiers}
       \cup UNION {UNION {{[k |-> "seq", xs |-> <<x, y>>], [k |-> "alt", xs |-> <<x, y>>]} :
                            x \in Shapes(l), y \in Shapes(n - 1 - l)} : l \in 1..(n - 2)}

\* Groups in the order of their opening brackets; <<tree, next number>>
RECURSIVE NumberTree(_, _), NumberAll(_, _, _)
NumberAll(xs, n, acc) == IF xs = <<>> THEN <<acc, n>>
                         ELSE LET r == NumberTree(Head(xs), n)
                              IN NumberAll(Tail(xs), r[2], Append(acc, r[1]))
NumberTree(x, n) ==
  CASE x.k = "grp" -> LET r == NumberTree(x.x, n + 1) IN <<GrpN(n, r[1]), r[2]>>
    [] x.k = "rep" -> LET r == NumberTree(x.x, n) IN
                      <<RepN(r[1], x.lo, x.hi, x.m), r[2]>>
    [] x.k \in {"seq", "alt"} -> LET r == NumberAll(x.xs, n, <<>>) IN
                      <<[k |-> x.k, xs |-> r[1]], r[2]>>
    [] OTHER -> <<x, n>>

\* nested sequences and alternatives of one branch are the same as flat ones
RECURSIVE Flatten(_)
Flatten(x) ==
  CASE x.k = "seq" -> [k |-> "seq", xs |-> Concat([j \in 1..Len(x.xs) |->
                         LET y == Flatten(x.xs[j]) IN IF y.k = "seq" THEN y.xs ELSE <<y>>])]
    [] x.k = "alt" -> [k |-> "alt", xs |-> [j \in 1..Len(x.xs) |-> Flatten(x.xs[j])]]
    [] x.k = "grp" -> GrpN(x.n, Flatten(x.x))
    [] x.k = "rep" -> RepN(Flatten(x.x), x.lo, x.hi, x.m)
    [] OTHER -> x

Tree(shape) == NumberTree(shape, 1)[1]

TreesOf(n)   == {Tree(s) : s \in Shapes(n)}
TreesUpTo(n) == UNION {TreesOf(m) : m \in 1..n}
=============================================================================
