------------------------------ MODULE Semantics ------------------------------
(* What it means for a tree to match a query at a position.                   *)
(*                                                                            *)
(* Positions are 0..Len(q): position i is between characters i and i+1.       *)
(* Captures are a tuple with a pair <<begin, end>> for each group, NoCapture  *)
(* for a group that took no part in the match.                                *)
(*                                                                            *)
(* Results is the meaning: every way to match, best first.  Run computes the  *)
(* first one only, and Engine.tla is a machine that computes it in small      *)
(* steps; TLC checks that the three agree (MC_Engine).                        *)
(*                                                                            *)
(* Commit is FALSE for the meaning of the pattern language.  The library      *)
(* deviates from it in one way, a known finding described in DESIGN.md: when  *)
(* one repetition of an expression is matched, the repetition commits to the  *)
(* preferred way to match it ("?" excepted).  Commit = TRUE is the language   *)
(* with that deviation.                                                       *)
EXTENDS Pattern

CONSTANT Commit

NoCapture   == <<-1, -1>>
NoCaptures(g) == [n \in 1..g |-> NoCapture]

(* --- every way to match, in order of preference ------------------------------ *)

RECURSIVE Results(_, _, _, _), SeqResults(_, _, _), RepResults(_, _, _, _, _), Cat(_)

Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

\* rs: ways so far, <<position, captures>>
SeqResults(xs, q, rs) ==
  IF xs = <<>> THEN rs
  ELSE SeqResults(Tail(xs), q,
         Cat([j \in 1..Len(rs) |-> Results(Head(xs), q, rs[j][1], rs[j][2])]))

\* One more repetition that consumes nothing would be repeated forever: it is
\* the last one
Commits(x) == Commit /\ ~(x.lo = 0 /\ x.hi = 1)

RepResults(x, q, i, cp, n) ==
  LET ways == Results(x.x, q, i, cp)
      once == IF Commits(x) /\ ways # <<>> THEN <<ways[1]>> ELSE ways
      more == IF n = x.hi THEN <<>>
              ELSE Cat([j \in 1..Len(once) |->
                     IF n >= x.lo /\ once[j][1] = i THEN <<once[j]>>
                     ELSE RepResults(x, q, once[j][1], once[j][2], n + 1)])
  IN IF n < x.lo THEN more
     ELSE IF x.m = "l" THEN << <<i, cp>> >> \o more
     ELSE more \o << <<i, cp>> >>

Results(x, q, i, cp) ==
  CASE x.k = "set" -> IF i < Len(q) /\ q[i+1] \in x.s THEN << <<i + 1, cp>> >> ELSE <<>>
    [] x.k = "bol" -> IF i = 0 \/ q[i] = LF THEN << <<i, cp>> >> ELSE <<>>
    [] x.k = "eol" -> IF i = Len(q) THEN << <<i, cp>> >>
                      ELSE IF q[i+1] = LF THEN << <<i + 1, cp>> >> ELSE <<>>
    [] x.k = "seq" -> SeqResults(x.xs, q, << <<i, cp>> >>)
    [] x.k = "alt" -> Cat([j \in 1..Len(x.xs) |-> Results(x.xs[j], q, i, cp)])
    [] x.k = "grp" -> LET r == Results(x.x, q, i, cp) IN
                      [j \in 1..Len(r) |->
                         <<r[j][1], [r[j][2] EXCEPT ![x.n] = <<i, r[j][1]>>]>>]
    [] x.k = "rep" -> LET r == RepResults(x, q, i, cp, 0) IN
                      IF x.m = "p" /\ r # <<>> THEN <<r[1]>> ELSE r

(* --- the preferred way only ----------------------------------------------------- *)
(* ag is what is still to be matched, in order.  Besides trees it contains         *)
(*   close  end of a group opened at position "from"                              *)
(*   again  end of repetition n of x, that began at position "from"               *)
Failed == [ok |-> FALSE, i |-> -1, cp |-> <<>>]

Close(n, from)       == [k |-> "close", n |-> n, from |-> from]
Again(x, n, from)    == [k |-> "again", x |-> x, n |-> n, from |-> from]

RECURSIVE Run(_, _, _, _), RunAlt(_, _, _, _, _, _), RunRep(_, _, _, _, _, _),
          RunOnce(_, _, _, _, _, _)

RunAlt(xs, j, rest, q, i, cp) ==
  IF j > Len(xs) THEN Failed
  ELSE LET r == Run(<<xs[j]>> \o rest, q, i, cp) IN
       IF r.ok \/ j = Len(xs) THEN r ELSE RunAlt(xs, j + 1, rest, q, i, cp)

\* repetition n of x, then the others
RunOnce(x, n, rest, q, i, cp) ==
  IF Commits(x)
  THEN LET r == Run(<<x.x>>, q, i, cp) IN
       IF r.ok THEN Run(<<Again(x, n, i)>> \o rest, q, r.i, r.cp) ELSE Failed
  ELSE Run(<<x.x, Again(x, n, i)>> \o rest, q, i, cp)

RunRep(x, n, rest, q, i, cp) ==
  IF n < x.lo THEN RunOnce(x, n, rest, q, i, cp)
  ELSE IF n = x.hi THEN Run(rest, q, i, cp)
  ELSE IF x.m = "l"
  THEN LET r == Run(rest, q, i, cp) IN
       IF r.ok THEN r ELSE RunOnce(x, n, rest, q, i, cp)
  ELSE LET r == RunOnce(x, n, rest, q, i, cp) IN
       IF r.ok THEN r ELSE Run(rest, q, i, cp)

Run(ag, q, i, cp) ==
  IF ag = <<>> THEN [ok |-> TRUE, i |-> i, cp |-> cp]
  ELSE LET x == Head(ag)  rest == Tail(ag) IN
  CASE x.k = "set" -> IF i < Len(q) /\ q[i+1] \in x.s THEN Run(rest, q, i + 1, cp) ELSE Failed
    [] x.k = "bol" -> IF i = 0 \/ q[i] = LF THEN Run(rest, q, i, cp) ELSE Failed
    [] x.k = "eol" -> IF i = Len(q) THEN Run(rest, q, i, cp)
                      ELSE IF q[i+1] = LF THEN Run(rest, q, i + 1, cp) ELSE Failed
    [] x.k = "seq" -> Run(x.xs \o rest, q, i, cp)
    [] x.k = "alt" -> RunAlt(x.xs, 1, rest, q, i, cp)
    [] x.k = "grp" -> Run(<<x.x, Close(x.n, i)>> \o rest, q, i, cp)
    [] x.k = "close" -> Run(rest, q, i, [cp EXCEPT ![x.n] = <<x.from, i>>])
    [] x.k = "again" -> IF x.n >= x.x.lo /\ i = x.from THEN Run(rest, q, i, cp)
                        ELSE RunRep(x.x, x.n + 1, rest, q, i, cp)
    [] x.k = "rep" -> IF x.m # "p" THEN RunRep(x, 0, rest, q, i, cp)
                      ELSE LET r == RunRep([x EXCEPT !.m = "g"], 0, <<>>, q, i, cp) IN
                           IF r.ok THEN Run(rest, q, r.i, r.cp) ELSE Failed

(* --- searching -------------------------------------------------------------------- *)
(* First match that starts at position i or later *)
NoMatch(g) == [ok |-> FALSE, s |-> -1, e |-> -1, cp |-> NoCaptures(g)]

RECURSIVE Search(_, _, _, _)
Search(x, g, q, i) ==
  IF i > Len(q) THEN NoMatch(g)
  ELSE LET r == Run(<<x>>, q, i, NoCaptures(g)) IN
       IF r.ok THEN [ok |-> TRUE, s |-> i, e |-> r.i, cp |-> r.cp]
       ELSE Search(x, g, q, i + 1)

(* The same, from the meaning *)
SearchSpec(x, g, q, i) ==
  LET starts == {j \in i..Len(q) : Results(x, q, j, NoCaptures(g)) # <<>>} IN
  IF starts = {} THEN NoMatch(g)
  ELSE LET s == CHOOSE j \in starts : \A l \in starts : j <= l
           r == Results(x, q, s, NoCaptures(g))[1]
       IN [ok |-> TRUE, s |-> s, e |-> r[1], cp |-> r[2]]

(* Match after a match *)
SearchAfter(x, g, q, m) ==
  IF ~m.ok THEN m
  ELSE Search(x, g, q, IF m.e > m.s THEN m.e ELSE m.e + 1)
=============================================================================
