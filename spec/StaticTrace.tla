------------------------------ MODULE StaticTrace ------------------------------
(* What the library says about its regexes, checked against the specification.  *)
(*   kind "count":  pattern p, groups (list of every way to read the number)    *)
(*   kind "text":   pattern p, x: what get_expression returned, queries qs;     *)
(*                  poss = 1: a possessive form must be shown                   *)
(*   kind "pair":   patterns p and x, answers (list) of is_independent          *)
(*   kind "compiles": text p, yes: whether the compiler takes it                *)
(*   kind "reads":  pattern p, whether group n can be read (every way to do it) *)
(*   kind "splits": pattern p, whether a result can be decomposed into n parts  *)
(*   kind "types":  types: enumeration of the type of each token, yes           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES rec, done
P == INSTANCE Pattern
L == INSTANCE Legal
Code == INSTANCE Semantics WITH Commit <- TRUE
Recs == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Possessives(_)
Possessives(x) ==
  CASE x.k \in {"set", "bol", "eol"} -> 0
    [] x.k = "grp" -> Possessives(x.x)
    [] x.k = "rep" -> (IF x.m = "p" THEN 1 ELSE 0) + Possessives(x.x)
    [] OTHER -> LET sum[j \in 0..Len(x.xs)] ==
                      IF j = 0 THEN 0 ELSE sum[j-1] + Possessives(x.xs[j]) IN sum[Len(x.xs)]

Ran(l) == {l[j] : j \in 1..Len(l)}

Different(r) ==     \* queries that tell x from p
  LET x == P!Parsed(r.p)  y == P!Parsed(r.x) IN
  {j \in 1..Len(r.qs) : Code!Search(x.x, x.groups, r.qs[j], 0)
                          # Code!Search(y.x, y.groups, r.qs[j], 0)}

Said(r) ==
  CASE r.kind = "count" -> IF Ran(r.groups) = {P!Groups(r.p)} THEN "" ELSE "count"
    [] r.kind = "pair"  ->
         IF Ran(r.answers) = {IF P!First(P!Parse(r.p)) \cap P!First(P!Parse(r.x)) = {} THEN 1 ELSE 0}
         THEN "" ELSE "independence"
    [] r.kind = "text"  ->
         IF ~P!Valid(r.x) THEN "malformed"
         ELSE IF P!Groups(r.x) # P!Groups(r.p) THEN "count"
         ELSE IF Different(r) # {} THEN "meaning"
         ELSE IF r.poss = 1 /\ Possessives(P!Parse(r.x)) = 0 THEN "optimization"
         ELSE ""

Taken(r, b) == IF Ran(r.yes) = {IF b THEN 1 ELSE 0} THEN "" ELSE IF b THEN "rejected" ELSE "compiled"

Verdict(r) ==
  CASE r.kind = "compiles" -> LET v == L!Verdict(r.p) IN
                              IF v = "unspecified" THEN "" ELSE Taken(r, v = "legal")
    [] r.kind = "reads"  -> Taken(r, r.n <= P!Groups(r.p))
    [] r.kind = "splits" -> Taken(r, r.n = P!Groups(r.p) + 1)
    [] r.kind = "types"  -> Taken(r, Cardinality(Ran(r.types)) = 1)
    [] OTHER -> Said(r)

Init == rec \in 1..Len(Recs) /\ done = FALSE
Check == /\ ~done /\ done' = TRUE /\ rec' = rec
         /\ LET v == Verdict(Recs[rec]) IN
            v # "" => PrintT("REPORT " \o ToJson([kind |-> v, known |-> FALSE, i |-> rec]))
Spec == Init /\ [][Check]_<<rec, done>>
=============================================================================
