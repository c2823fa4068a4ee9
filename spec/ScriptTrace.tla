------------------------------ MODULE ScriptTrace ------------------------------
(* Histories of operations on three results, checked against MatchApi.           *)
(*                                                                               *)
(* A case has queries qs and events e; an event is                               *)
(*   <<operation, extra, result 1, result 2, result 3>>                          *)
(* where operation is <<kind, a, b, returned, accessors that disagreed>> and the *)
(* rest shows every object after it.  Objects are numbered from 0.               *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLES rec, cas, pos, obj, last

Recs == ndJsonDeserialize(IOEnv.TRACE)
P == INSTANCE Pattern
Regexes == TLCEval([r \in 1..Len(Recs) |-> P!Parsed(Recs[r].p)])
Api == INSTANCE MatchApi WITH Regex <- Regexes, Handles <- 0..2, Commit <- TRUE

vars == <<rec, cas, pos, obj, last>>

Case == Recs[rec].t[cas]
Now  == Case.e[pos + 1]
Op   == Now[1]

Empty(a, b) == a = b /\ a # -9
Shows(o, m) ==
  IF m.cp = <<>> /\ Len(o) = 0 THEN ~m.ok      \* not used yet
  ELSE /\ Len(o) = 4 + 2 * Len(m.cp)
       /\ (o[2] = 1) = m.ok
       /\ IF m.ok THEN o[3] = m.s /\ o[4] = m.e ELSE Empty(o[3], o[4])
       /\ \A n \in 1..Len(m.cp) :
            LET a == o[3 + 2 * n]  b == o[4 + 2 * n]  c == m.cp[n] IN
            IF c[1] = c[2] THEN Empty(a, b) ELSE a = c[1] /\ b = c[2]

Flattened(vs) == [j \in 1..(2 * Len(vs)) |-> vs[(j + 1) \div 2][2 - (j % 2)]]

\* M 77  N 78  I 73  C 67  A 65  B 66  E 69  R 82
Pending == cas <= Len(Recs[rec].t)
Kind(k) == Pending /\ pos < Len(Case.e) /\ Len(Op) = 5 /\ Op[1] = k

Matches    == Kind(77) /\ Api!Match(Op[2], rec, Case.qs[Op[3] + 1])
Nexts      == Kind(78) /\ Api!Next(Op[2])
Increments == Kind(73) /\ Api!Increment(Op[2])
Copies     == Kind(67) /\ Api!Copy(Op[2], Op[3])
Assigns    == Kind(65) /\ Api!Copy(Op[2], Op[3])
Begins     == Kind(66) /\ Api!Begin(Op[2], Op[3])
Ends       == Kind(69) /\ Api!End(Op[2], Op[3])
Ranges     == Kind(82) /\ Api!Range(Op[2])

Conforms == LET d == \* "" if it does
  CASE Op[5] # 0 -> "accessors"
    [] last'[1] = "next" /\ last'[2] # (Op[4] = 1) -> "returned"
    [] last'[1] = "range" /\ Flattened(last'[2]) # Now[2] -> "range"
    [] \E h \in 0..2 : ~Shows(Now[3 + h], obj'[h].m) ->
         IF \A h \in 0..2 : ~Shows(Now[3 + h], obj'[h].m) => h = Op[2] THEN "object" ELSE "others"
    [] OTHER -> ""
  IN d

Report(kind) ==
  PrintT("REPORT " \o ToJson([kind |-> kind, known |-> FALSE, r |-> Recs[rec].r, c |-> cas,
                              e |-> pos + 1, expected |-> <<obj', last'>>, got |-> Now]))
ReportFailure ==
  PrintT("REPORT " \o ToJson([kind |-> IF Op[1] = -2 THEN "hang" ELSE "crash", known |-> FALSE,
                              r |-> Recs[rec].r, c |-> cas, e |-> pos + 1,
                              expected |-> <<>>, got |-> Now]))

Idle == [h \in 0..2 |-> Api!NoResult]

Init == rec \in 1..Len(Recs) /\ cas = 1 /\ pos = 0 /\ Api!Init

Step == /\ rec' = rec
        /\ \/ Matches \/ Nexts \/ Increments \/ Copies \/ Assigns \/ Begins \/ Ends \/ Ranges
        /\ cas' = cas /\ pos' = pos + 1
        /\ Conforms # "" => Report(Conforms)

\* the driver's operation did not come back
Failure == /\ Pending /\ pos < Len(Case.e) /\ Len(Op) = 1
           /\ ReportFailure
           /\ rec' = rec /\ cas' = cas /\ pos' = Len(Case.e)
           /\ UNCHANGED <<obj, last>>

\* the next history begins with new objects
NewCase == /\ Pending /\ pos = Len(Case.e)
           /\ rec' = rec /\ cas' = cas + 1 /\ pos' = 0
           /\ obj' = Idle /\ last' = <<"init">>

Next == Step \/ Failure \/ NewCase
Spec == Init /\ [][Next]_vars

Confined == Api!Confined
RejectedIsEmpty == Api!RejectedIsEmpty
Progress == Api!Progress
EndIsFinal == Api!EndIsFinal
Isolated == [][cas' = cas => \A h, k \in 0..2 : (h # k /\ obj'[h] # obj[h]) => obj'[k] = obj[k]]_vars
=============================================================================
