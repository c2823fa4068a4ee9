------------------------------ MODULE RegexTrace ------------------------------
(* Histories recorded from the library, checked against MatchApi.              *)
(*                                                                             *)
(* Every record is one regex: its pattern p, and its cases t.  A case is a     *)
(* query q and the observations o made after match and after every next() on   *)
(* one result: <<returned, accepted, begin, end, group 1 begin, ...>>, or      *)
(* <<-1>>: crashed, <<-2>>: did not end.  d # 0: accessors disagreed.          *)
(* Init chooses the record; every case of it is then replayed, one action of   *)
(* MatchApi for each observation.  What does not conform is reported and the   *)
(* rest of the case is left.                                                   *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLES rec, cas, pos, obj, last

Recs == ndJsonDeserialize(IOEnv.TRACE)

P == INSTANCE Pattern
Regexes == TLCEval([r \in 1..Len(Recs) |-> P!Parsed(Recs[r].p)])

Book == INSTANCE MatchApi WITH Regex <- Regexes, Handles <- {1}, Commit <- FALSE
Code == INSTANCE MatchApi WITH Regex <- Regexes, Handles <- {1}, Commit <- TRUE

vars == <<rec, cas, pos, obj, last>>

(* --- does an observation show a match? ----------------------------------------- *)
Empty(a, b) == a = b /\ a # -9

SameGroups(o, m) ==
  \A n \in 1..Len(m.cp) :
    LET a == o[3 + 2 * n]  b == o[4 + 2 * n]  c == m.cp[n] IN
    IF c[1] = c[2] THEN Empty(a, b) ELSE a = c[1] /\ b = c[2]

Difference(o, m, ret) ==   \* "" if there is none
  IF Len(o) < 4 THEN IF o[1] = -2 THEN "hang" ELSE "crash"
  ELSE IF Len(o) # 4 + 2 * Len(m.cp) THEN "groupcount"
  ELSE IF (o[2] = 1) # m.ok THEN "accepted"
  ELSE IF (o[1] = 1) # ret THEN "returned"
  ELSE IF m.ok /\ (o[3] # m.s \/ o[4] # m.e) THEN "match"
  ELSE IF ~m.ok /\ ~(/\ Empty(o[3], o[4])
                     /\ \A n \in 1..Len(m.cp) : Empty(o[3 + 2*n], o[4 + 2*n]))
  THEN "rejected"
  ELSE IF m.ok /\ ~SameGroups(o, m) THEN "groups"
  ELSE ""

Flat(m) == <<m.ok, m.s, m.e, m.cp>>

Report(kind, known, m, c) ==
  PrintT("REPORT " \o ToJson([kind |-> kind, known |-> known, r |-> Recs[rec].r, c |-> cas,
                              e |-> pos + 1, expected |-> Flat(m), got |-> c.o[pos + 1]]))

Init == /\ rec \in 1..Len(Recs)
        /\ cas = 1
        /\ pos = 0
        /\ Book!Init

Case == Recs[rec].t[cas]

GoOn == IF pos + 1 = Len(Case.o) THEN cas' = cas + 1 /\ pos' = 0
        ELSE cas' = cas /\ pos' = pos + 1
GiveUp == cas' = cas + 1 /\ pos' = 0 /\ obj' = [obj EXCEPT ![1] = Book!NoResult]

\* the event: observation pos + 1 of the case
Event ==
  /\ cas <= Len(Recs[rec].t)
  /\ rec' = rec
  /\ last' = last
  /\ LET c == Case
         o == c.o[pos + 1]
         b == IF pos = 0 THEN Book!Matched(rec, c.q) ELSE Book!Advanced(obj[1])
         d == Difference(o, b.m, b.m.ok)
     IN IF d = "" /\ c.d = 0
        THEN obj' = [obj EXCEPT ![1] = b] /\ GoOn
        ELSE IF d = "" THEN Report("accessors", FALSE, b.m, c) /\ GiveUp
        ELSE LET k == IF pos = 0 THEN Code!Matched(rec, c.q) ELSE Code!Advanced(obj[1]) IN
             \* the known deviation, see Semantics
             IF Difference(o, k.m, k.m.ok) = "" /\ c.d = 0
             THEN Report(d, TRUE, b.m, c) /\ obj' = [obj EXCEPT ![1] = k] /\ GoOn
             ELSE Report(d, FALSE, b.m, c) /\ GiveUp

Spec == Init /\ [][Event]_vars

\* every result the trace went through
Confined == Book!Confined
RejectedIsEmpty == Book!RejectedIsEmpty
Progress == Book!Progress
=============================================================================
