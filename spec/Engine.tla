-------------------------------- MODULE Engine --------------------------------
(* A backtracking machine that searches a query for a tree.                    *)
(*                                                                             *)
(* A thread is what is still to be matched (an agenda of trees and marks), the *)
(* cursor and the captures so far.  Choices push the less preferred threads on *)
(* a stack; a failure resumes the topmost one, and when there are none the     *)
(* search moves to the next start position with nothing left of the attempt.   *)
(* Marks: close (end of a group), again (end of a repetition), cut (the        *)
(* choices made since are final: possessive, or a committed repetition).       *)
(*                                                                             *)
(* TLC checks, for every tree and query of a bounded space, that the machine   *)
(* always stops, with the result that Semantics prescribes.                    *)
EXTENDS Integers, Sequences

CONSTANTS Trees,    \* set of trees
          Queries,  \* set of queries
          Commit    \* see Semantics

Sem == INSTANCE Semantics

VARIABLES x, q,       \* the tree and the query
          start,      \* start position of this attempt
          thread,     \* current thread
          stack,      \* less preferred threads
          status      \* "run", "fail", "accept", "reject"

vars == <<x, q, start, thread, stack, status>>

Groups == Sem!GroupCount(x)
Thread(ag, i, cp) == [ag |-> ag, i |-> i, cp |-> cp]
CutAt(h) == [k |-> "cut", h |-> h]

Attempt(i) == Thread(<<x>>, i, Sem!NoCaptures(Groups))

Init == /\ x \in Trees
        /\ q \in Queries
        /\ start = 0
        /\ thread = Attempt(0)
        /\ stack = <<>>
        /\ status = "run"

Running == status = "run" /\ thread.ag # <<>>
HeadItem == Head(thread.ag)
Rest == Tail(thread.ag)
Is(kind) == Running /\ HeadItem.k = kind

Become(t)  == thread' = t /\ UNCHANGED <<stack, status>>
Choose(ts) == thread' = ts[1] /\ stack' = Tail(ts) \o stack /\ status' = status
Fail       == status' = "fail" /\ UNCHANGED <<thread, stack>>
Same       == UNCHANGED <<x, q, start>>

With(ag) == Thread(ag \o Rest, thread.i, thread.cp)

\* Consume a character of the set
Consume ==
  /\ Is("set") /\ Same
  /\ IF thread.i < Len(q) /\ q[thread.i + 1] \in HeadItem.s
     THEN Become(Thread(Rest, thread.i + 1, thread.cp)) ELSE Fail

LineStart ==
  /\ Is("bol") /\ Same
  /\ IF thread.i = 0 \/ q[thread.i] = Sem!LF
     THEN Become(Thread(Rest, thread.i, thread.cp)) ELSE Fail

LineEnd ==
  /\ Is("eol") /\ Same
  /\ IF thread.i = Len(q) THEN Become(Thread(Rest, thread.i, thread.cp))
     ELSE IF q[thread.i + 1] = Sem!LF
     THEN Become(Thread(Rest, thread.i + 1, thread.cp)) ELSE Fail

Sequence == Is("seq") /\ Same /\ Become(With(HeadItem.xs))

Alternatives ==
  /\ Is("alt") /\ Same
  /\ Choose([j \in 1..Len(HeadItem.xs) |-> With(<<HeadItem.xs[j]>>)])

OpenGroup ==
  /\ Is("grp") /\ Same
  /\ Become(With(<<HeadItem.x, Sem!Close(HeadItem.n, thread.i)>>))

CloseGroup ==
  /\ Is("close") /\ Same
  /\ Become(Thread(Rest, thread.i,
                   [thread.cp EXCEPT ![HeadItem.n] = <<HeadItem.from, thread.i>>]))

\* Repetition n of r begins, or the repetitions end
Iteration(r, n) ==
  LET once == Thread((IF Sem!Commits(r) THEN <<r.x, CutAt(Len(stack)), Sem!Again(r, n, thread.i)>>
                      ELSE <<r.x, Sem!Again(r, n, thread.i)>>) \o Rest, thread.i, thread.cp)
      \* the cut keeps the choice between repeating and stopping
      once1 == Thread((IF Sem!Commits(r) THEN <<r.x, CutAt(Len(stack) + 1), Sem!Again(r, n, thread.i)>>
                      ELSE <<r.x, Sem!Again(r, n, thread.i)>>) \o Rest, thread.i, thread.cp)
      stop == Thread(Rest, thread.i, thread.cp)
  IN IF n < r.lo THEN Become(once)
     ELSE IF n = r.hi THEN Become(stop)
     ELSE IF r.m = "l" THEN Choose(<<stop, once>>)
     ELSE Choose(<<once1, stop>>)

BeginRepetition ==
  /\ Is("rep") /\ Same
  /\ IF HeadItem.m = "p"
     THEN Become(With(<<[HeadItem EXCEPT !.m = "g"], CutAt(Len(stack))>>))
     ELSE Iteration(HeadItem, 0)

EndRepetition ==
  /\ Is("again") /\ Same
  /\ IF HeadItem.n >= HeadItem.x.lo /\ thread.i = HeadItem.from
     THEN Become(Thread(Rest, thread.i, thread.cp))  \* nothing consumed: the last one
     ELSE Iteration(HeadItem.x, HeadItem.n + 1)

\* Threads above the mark are given up
Cut ==
  /\ Is("cut") /\ Same
  /\ thread' = Thread(Rest, thread.i, thread.cp)
  /\ stack' = SubSeq(stack, Len(stack) - HeadItem.h + 1, Len(stack))
  /\ status' = status

Accept == /\ status = "run" /\ thread.ag = <<>> /\ Same
          /\ status' = "accept" /\ UNCHANGED <<thread, stack>>

Backtrack == /\ status = "fail" /\ stack # <<>> /\ Same
             /\ thread' = Head(stack) /\ stack' = Tail(stack) /\ status' = "run"

NextStart == /\ status = "fail" /\ stack = <<>> /\ start < Len(q)
             /\ start' = start + 1 /\ thread' = Attempt(start + 1)
             /\ status' = "run" /\ UNCHANGED <<x, q, stack>>

Reject == /\ status = "fail" /\ stack = <<>> /\ start = Len(q)
          /\ status' = "reject" /\ UNCHANGED <<x, q, start, thread, stack>>

Next == \/ Consume \/ LineStart \/ LineEnd \/ Sequence \/ Alternatives
        \/ OpenGroup \/ CloseGroup \/ BeginRepetition \/ EndRepetition \/ Cut
        \/ Accept \/ Backtrack \/ NextStart \/ Reject

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties ----------------------------------------------------------------- *)
Done == status \in {"accept", "reject"}

CursorInQuery == start <= thread.i /\ thread.i <= Len(q)

MarksAreValid == \A j \in 1..Len(thread.ag) :
                   thread.ag[j].k = "cut" => thread.ag[j].h <= Len(stack)

Shown == IF status = "accept" THEN [ok |-> TRUE, s |-> start, e |-> thread.i, cp |-> thread.cp]
         ELSE Sem!NoMatch(Groups)

\* the machine, the recursive definition and the meaning agree
RightResult == Done => /\ Shown = Sem!SearchSpec(x, Groups, q, 0)
                       /\ Shown = Sem!Search(x, Groups, q, 0)

\* an attempt begins with nothing left from the ones before
CleanStart == (status = "run" /\ thread.ag = <<x>>)
                => thread = Attempt(start) /\ stack = <<>>

Ends == <>Done
=============================================================================
