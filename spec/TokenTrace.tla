------------------------------- MODULE TokenTrace -------------------------------
(* Histories of token iterators recorded from the library, checked against        *)
(* TokenIter.  A record is a tokenizer: its definitions defs (sep, type, p) and    *)
(* cases t.  A case with o is one iterator: what it shows after construction and   *)
(* after every ++, <<holds, type, begin, end, the same through ->, == end(),       *)
(* != end()>>.  A case with e is a history of operations on three iterators, as in *)
(* ScriptTrace.                                                                    *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils

VARIABLES rec, cas, pos, it, last

Recs == ndJsonDeserialize(IOEnv.TRACE)
P == INSTANCE Pattern
Definition(d) == [sep |-> d.sep = 1, type |-> d.type, x |-> P!Parse(d.p), groups |-> P!Groups(d.p)]
Tokenizers == TLCEval([r \in 1..Len(Recs) |->
                         [d \in 1..Len(Recs[r].defs) |-> Definition(Recs[r].defs[d])]])
\* the known deviation (see Semantics) is the library's meaning of a definition
Tok == INSTANCE TokenIter WITH Tokenizer <- Tokenizers, Handles <- 0..2, Commit <- TRUE

vars == <<rec, cas, pos, it, last>>

Pending == cas <= Len(Recs[rec].t)
Case == Recs[rec].t[cas]
IsScript == "e" \in DOMAIN Case
Events == IF IsScript THEN Case.e ELSE Case.o
Running == Pending /\ pos < Len(Events)
Now == Events[pos + 1]

Shows(o, i) == \* o: <<holds, type, s, e, type, s, e>>
  IF Tok!Holds(i)
  THEN /\ o[1] = 1
       /\ o[2] = i.tok.type /\ o[3] = i.tok.s /\ o[4] = i.tok.e
       /\ o[5] = i.tok.type /\ o[6] = i.tok.s /\ o[7] = i.tok.e
  ELSE o[1] = 0 /\ o[3] = o[4] /\ o[6] = o[7]

Report(kind) ==
  PrintT("REPORT " \o ToJson([kind |-> kind, known |-> FALSE, r |-> Recs[rec].r, c |-> cas,
                              e |-> pos + 1, expected |-> <<it', last'>>, got |-> Now]))

GoOn == cas' = cas /\ pos' = pos + 1
GiveUp == cas' = cas /\ pos' = Len(Events)

Init == rec \in 1..Len(Recs) /\ cas = 1 /\ pos = 0 /\ Tok!Init

(* --- one iterator ------------------------------------------------------------------ *)
Verdict(o, i) ==
  IF (o[1] = 1) # Tok!Holds(i) THEN (IF o[1] = 1 THEN "goeson" ELSE "stops")
  ELSE IF ~Shows(o, i)
  THEN (IF o[2] # i.tok.type /\ o[3] = i.tok.s /\ o[4] = i.tok.e THEN "type" ELSE "token")
  ELSE IF (o[8] = 1) = Tok!Holds(i) \/ (o[9] = 1) # Tok!Holds(i) THEN "end"
  ELSE ""

Single ==
  /\ Running /\ ~IsScript /\ Len(Now) = 9
  /\ rec' = rec
  /\ IF pos = 0 THEN Tok!Tokenize(0, rec, Case.q) ELSE Tok!Increment(0)
  /\ LET v == Verdict(Now, it'[0]) IN
     IF v = "" THEN GoOn ELSE Report(v) /\ GiveUp

Failure ==
  /\ Running
  /\ IF IsScript THEN Len(Now[1]) = 1 ELSE Len(Now) = 1
  /\ rec' = rec /\ GiveUp
  /\ UNCHANGED <<it, last>>
  /\ Report(IF (IF IsScript THEN Now[1][1] ELSE Now[1]) = -2 THEN "hang" ELSE "crash")

(* --- several iterators --------------------------------------------------------------- *)
\* M 77  I 73  C 67  A 65  B 66  E 69  R 82  Q 81
Op == Now[1]
Kind(k) == Running /\ IsScript /\ Len(Op) = 4 /\ Op[1] = k
Makes      == Kind(77) /\ Tok!Tokenize(Op[2], rec, Case.qs[Op[3] + 1])
Increments == Kind(73) /\ Tok!Increment(Op[2])
Copies     == Kind(67) /\ Tok!Copy(Op[2], Op[3])
Assigns    == Kind(65) /\ Tok!Copy(Op[2], Op[3])
Begins     == Kind(66) /\ Tok!Begin(Op[2], Op[3])
Ends       == Kind(69) /\ Tok!End(Op[2], Op[3])
Ranges     == Kind(82) /\ Tok!Range(Op[2])
Equals     == Kind(81) /\ Tok!Equal(Op[2], Op[3])
NotCompared == Kind(81) /\ ~Tok!Comparable(Op[2], Op[3]) /\ UNCHANGED <<it>> /\ last' = <<"none">>

Flattened(ts) == [j \in 1..(3 * Len(ts)) |->
                    LET t == ts[(j + 2) \div 3] IN
                    CASE j % 3 = 1 -> t.type [] j % 3 = 2 -> t.s [] OTHER -> t.e]

Conforms ==
  CASE last'[1] = "equal" /\ Op[4] # (IF last'[2] THEN 1 ELSE 2) -> "equal"
    [] last'[1] = "range" /\ Flattened(last'[2]) # Now[2] -> "range"
    [] \E h \in 0..2 : it'[h].t # 0 /\ ~Shows(Now[3 + h], it'[h]) ->
         IF \A h \in 0..2 : (it'[h].t # 0 /\ ~Shows(Now[3 + h], it'[h])) => h = Op[2]
         THEN "object" ELSE "others"
    [] OTHER -> ""

Script ==
  /\ rec' = rec
  /\ \/ Makes \/ Increments \/ Copies \/ Assigns \/ Begins \/ Ends \/ Ranges \/ Equals
     \/ NotCompared
  /\ GoOn
  /\ Conforms # "" => Report(Conforms)

\* the next case begins with new iterators
NewCase ==
  /\ Pending /\ pos = Len(Events)
  /\ rec' = rec /\ cas' = cas + 1 /\ pos' = 0
  /\ it' = [h \in 0..2 |-> Tok!NoIterator] /\ last' = <<"init">>

Next == Single \/ Script \/ Failure \/ NewCase
Spec == Init /\ [][Next]_vars

TokensInInput == Tok!TokensInInput
MaximalMunch == Tok!MaximalMunch
NoGaps == [][cas' = cas =>
            \A h \in 0..2 : (last'[1] = "increment" /\ Tok!Live(h) /\ it'[h] # it[h]
                               /\ Tok!Holds(it[h]) /\ Tok!Holds(it'[h]) /\ it'[h].in = it[h].in)
                             => it'[h].tok.s > it[h].tok.e]_vars
=============================================================================
