------------------------------- MODULE MatchApi -------------------------------
(* Result objects: what a user can do with them, and what must come out.       *)
(*                                                                             *)
(* A result is a value: the regex and the query it came from, and the match it *)
(* shows now (ok = FALSE: it is rejected).  Actions are the public operations; *)
(* each changes one object only.  last is what the operation returned.         *)
EXTENDS Integers, Sequences

CONSTANTS Regex,      \* tuple of regexes, [x |-> tree, groups |-> number]
          Handles,    \* names of objects
          Commit      \* see Semantics

VARIABLES obj, last

Sem == INSTANCE Semantics

api == <<obj, last>>

(* --- values ---------------------------------------------------------------- *)
NoResult == [r |-> 0, q |-> <<>>, m |-> [ok |-> FALSE, s |-> -1, e |-> -1, cp |-> <<>>]]

Result(r, q, m) == [r |-> r, q |-> q, m |-> m]

Matched(r, q) ==
  Result(r, q, Sem!Search(Regex[r].x, Regex[r].groups, q, 0))

Advanced(o) ==
  [o EXCEPT !.m = Sem!SearchAfter(Regex[o.r].x, Regex[o.r].groups, o.q, o.m)]

Ended(o) == [o EXCEPT !.m = Sem!NoMatch(Regex[o.r].groups)]

\* What a range-based for over a result visits: all the matches of its query
RECURSIVE VisitedFrom(_)
VisitedFrom(o) == IF ~o.m.ok THEN <<>>
                  ELSE << <<o.m.s, o.m.e>> >> \o VisitedFrom(Advanced(o))
Visited(o) == VisitedFrom(Matched(o.r, o.q))

(* --- operations -------------------------------------------------------------- *)
Init == obj = [h \in Handles |-> NoResult] /\ last = <<"init">>

Live(h) == obj[h].r # 0

Match(h, r, q) == /\ obj' = [obj EXCEPT ![h] = Matched(r, q)]
                  /\ last' = <<"match">>
Next(h)        == /\ Live(h)
                  /\ obj' = [obj EXCEPT ![h] = Advanced(obj[h])]
                  /\ last' = <<"next", obj'[h].m.ok>>
Increment(h)   == /\ Live(h)
                  /\ obj' = [obj EXCEPT ![h] = Advanced(obj[h])]
                  /\ last' = <<"increment">>
Copy(h, k)     == /\ Live(k)
                  /\ obj' = [obj EXCEPT ![h] = obj[k]]
                  /\ last' = <<"copy">>
Begin(h, k)    == /\ Live(k)
                  /\ obj' = [obj EXCEPT ![h] = Matched(obj[k].r, obj[k].q)]
                  /\ last' = <<"begin">>
End(h, k)      == /\ Live(k)
                  /\ obj' = [obj EXCEPT ![h] = Ended(obj[k])]
                  /\ last' = <<"end">>
Range(h)       == /\ Live(h)
                  /\ UNCHANGED obj
                  /\ last' = <<"range", Visited(obj[h])>>

(* --- properties ---------------------------------------------------------------- *)
\* matches, and groups in them, are parts of the query
Confined ==
  \A h \in Handles : LET m == obj[h].m IN
    /\ m.ok => 0 <= m.s /\ m.s <= m.e /\ m.e <= Len(obj[h].q)
    /\ \A n \in DOMAIN m.cp :
         \/ m.cp[n] = Sem!NoCapture
         \/ m.ok /\ m.s <= m.cp[n][1] /\ m.cp[n][1] <= m.cp[n][2] /\ m.cp[n][2] <= m.e
\* a rejected result shows nothing
RejectedIsEmpty ==
  \A h \in Handles : ~obj[h].m.ok =>
    /\ obj[h].m.s = obj[h].m.e
    /\ \A n \in DOMAIN obj[h].m.cp : obj[h].m.cp[n] = Sem!NoCapture
\* next never goes back, never finds the same match again, and what it finds
\* does not overlap what it found before
Progress ==
  [][\A h \in Handles :
       (last'[1] \in {"next", "increment"} /\ obj'[h] # obj[h] /\ obj[h].m.ok /\ obj'[h].m.ok)
         => /\ obj'[h].m.s >= obj[h].m.e
            /\ obj'[h].m.s > obj[h].m.s]_api
\* once rejected, always rejected
EndIsFinal ==
  [][\A h \in Handles : (last'[1] \in {"next", "increment"} /\ Live(h) /\ ~obj[h].m.ok)
       => ~obj'[h].m.ok]_api
\* an operation changes the object it is called on only
Isolated ==
  [][\A h, k \in Handles : (h # k /\ obj'[h] # obj[h]) => obj'[k] = obj[k]]_api
=============================================================================
