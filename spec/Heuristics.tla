------------------------------ MODULE Heuristics ------------------------------
(* The optimizer as a rewriting system: any greedy or lazy repetition that     *)
(* meets the condition may become possessive, one at a time, in any order.     *)
(* TLC checks that no rewriting of any tree of a bounded space changes what is *)
(* matched or captured in any query.                                           *)
(*                                                                             *)
(* Condition: all the matches of what is repeated have the same size, and what *)
(* follows cannot be empty and cannot begin like what is repeated; or nothing  *)
(* follows and the repetition is greedy.  Nothing follows what is repeated,    *)
(* because repetitions commit (see Semantics); with Commit = FALSE the         *)
(* invariant is violated, which MC_Heuristics demonstrates.                    *)
EXTENDS Integers, Sequences

CONSTANTS Trees, Queries, Commit

Sem == INSTANCE Semantics

VARIABLES original, tree

(* --- what follows a part of a tree -------------------------------------------- *)
Nothing == [none |-> TRUE, first |-> {}, empty |-> TRUE]

\* xs, then f
RECURSIVE Before(_, _)
Before(xs, f) ==
  IF xs = <<>> THEN f
  ELSE LET t == Before(Tail(xs), f) IN
       [none  |-> FALSE,
        first |-> Sem!First(Head(xs)) \cup (IF Sem!Nullable(Head(xs)) THEN t.first ELSE {}),
        empty |-> Sem!Nullable(Head(xs)) /\ t.empty]

Useless(x, f) ==
  /\ Sem!FixedSize(x.x) # -1
  /\ IF f.none THEN x.m = "g"
     ELSE ~f.empty /\ Sem!First(x.x) \cap f.first = {}

(* --- trees one rewriting away ---------------------------------------------------- *)
RECURSIVE Rewritten(_, _)
Rewritten(x, f) ==
  CASE x.k \in {"set", "bol", "eol"} -> {}
    [] x.k = "grp" -> {[x EXCEPT !.x = y] : y \in Rewritten(x.x, f)}
    [] x.k = "seq" -> UNION {{[x EXCEPT !.xs[j] = y] :
                               y \in Rewritten(x.xs[j], Before(SubSeq(x.xs, j + 1, Len(x.xs)), f))} :
                             j \in 1..Len(x.xs)}
    [] x.k = "alt" -> UNION {{[x EXCEPT !.xs[j] = y] : y \in Rewritten(x.xs[j], f)} :
                             j \in 1..Len(x.xs)}
    [] x.k = "rep" ->
         (IF x.m # "p" /\ Useless(x, f) THEN {[x EXCEPT !.m = "p"]} ELSE {})
         \cup {[x EXCEPT !.x = y] :
                 y \in Rewritten(x.x, IF x.lo = 0 /\ x.hi = 1 /\ x.m # "p" THEN f ELSE Nothing)}

Init == original \in Trees /\ tree = original
Rewrite == tree' \in Rewritten(tree, Nothing) /\ UNCHANGED original
Spec == Init /\ [][Rewrite]_<<original, tree>> /\ WF_<<original, tree>>(Rewrite)

(* --- properties -------------------------------------------------------------------- *)
Groups == Sem!GroupCount(original)

SameMatches ==
  tree = original
  \/ \A q \in Queries : Sem!Search(tree, Groups, q, 0) = Sem!Search(original, Groups, q, 0)

\* attributes the condition is made of are not affected
SameAttributes == /\ Sem!First(tree) = Sem!First(original)
                  /\ Sem!Nullable(tree) = Sem!Nullable(original)
                  /\ Sem!FixedSize(tree) = Sem!FixedSize(original)

\* fully optimized trees are reached
Finishes == <>[](Rewritten(tree, Nothing) = {})

RECURSIVE Possessives(_)
Possessives(x) ==
  CASE x.k \in {"set", "bol", "eol"} -> 0
    [] x.k = "grp" -> Possessives(x.x)
    [] x.k = "rep" -> (IF x.m = "p" THEN 1 ELSE 0) + Possessives(x.x)
    [] OTHER -> LET sum[j \in 0..Len(x.xs)] ==
                      IF j = 0 THEN 0 ELSE sum[j-1] + Possessives(x.xs[j]) IN sum[Len(x.xs)]
=============================================================================
