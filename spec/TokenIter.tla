------------------------------- MODULE TokenIter -------------------------------
(* Token iterators.                                                             *)
(*                                                                              *)
(* A tokenizer is a tuple of definitions, in order; def.sep tells separators    *)
(* from tokens, def.type is the type of a token, def.x its tree (def.groups     *)
(* groups).  Definitions match at the current position only, which is the start *)
(* of the text they see.  An iterator is a value: the input, the position after *)
(* the token it holds, and that token; one without token is exhausted.          *)
EXTENDS Integers, Sequences

CONSTANTS Tokenizer,   \* tuple of tokenizers
          Handles,
          Commit

VARIABLES it, last

Sem == INSTANCE Semantics

tk == <<it, last>>

NoToken == [type |-> -1, s |-> -1, e |-> -1]
NoIterator == [t |-> 0, in |-> <<>>, cur |-> -1, tok |-> NoToken]

Holds(o) == o.tok # NoToken

(* --- matching at a position ------------------------------------------------------ *)
\* Size of the match of a definition at position p, 0 if none
SizeAt(def, in, p) ==
  LET r == Sem!Run(<<def.x>>, SubSeq(in, p + 1, Len(in)), 0, Sem!NoCaptures(def.groups))
  IN IF r.ok THEN r.i ELSE 0

\* Longest match of the definitions that are (sep) separators or tokens, the
\* first declared one among the longest; index 0 if none
Longest(t, in, p, sep) ==
  LET defs  == {d \in 1..Len(Tokenizer[t]) : Tokenizer[t][d].sep = sep}
      size[d \in defs] == SizeAt(Tokenizer[t][d], in, p)
      hits  == {d \in defs : size[d] > 0}
  IN IF hits = {} THEN [d |-> 0, n |-> 0]
     ELSE LET best == CHOOSE d \in hits :
                        \A e \in hits : size[e] < size[d] \/ (size[e] = size[d] /\ d <= e)
          IN [d |-> best, n |-> size[best]]

Exhausted(o) == [o EXCEPT !.cur = -1, !.tok = NoToken]

(* --- values ------------------------------------------------------------------------ *)
\* A separator must come before a token, but for the first one; then the token
Advanced(o) ==
  IF o.cur = -1 THEN o
  ELSE LET sep == Longest(o.t, o.in, o.cur, TRUE) IN
       IF sep.d = 0 /\ o.cur # 0 THEN Exhausted(o)
       ELSE LET p   == o.cur + sep.n
                tok == Longest(o.t, o.in, p, FALSE)
            IN IF tok.d = 0 THEN Exhausted(o)
               ELSE [o EXCEPT !.cur = p + tok.n,
                              !.tok = [type |-> Tokenizer[o.t][tok.d].type,
                                       s |-> p, e |-> p + tok.n]]

Tokenized(t, in) == LET o == [t |-> t, in |-> in, cur |-> 0, tok |-> NoToken] IN
                    IF in = <<>> THEN Exhausted(o) ELSE Advanced(o)

RECURSIVE TokensFrom(_)
TokensFrom(o) == IF ~Holds(o) THEN <<>> ELSE <<o.tok>> \o TokensFrom(Advanced(o))

(* --- operations ---------------------------------------------------------------------- *)
Init == it = [h \in Handles |-> NoIterator] /\ last = <<"init">>

Live(h) == it[h].t # 0

Tokenize(h, t, in) == it' = [it EXCEPT ![h] = Tokenized(t, in)] /\ last' = <<"tokenize">>
Increment(h) == Live(h) /\ it' = [it EXCEPT ![h] = Advanced(it[h])] /\ last' = <<"increment">>
Copy(h, k)   == Live(k) /\ it' = [it EXCEPT ![h] = it[k]] /\ last' = <<"copy">>
Begin(h, k)  == Live(k) /\ it' = [it EXCEPT ![h] = Tokenized(it[k].t, it[k].in)]
                        /\ last' = <<"begin">>
End(h, k)    == Live(k) /\ it' = [it EXCEPT ![h] = Exhausted([it[k] EXCEPT !.in = <<>>])]
                        /\ last' = <<"end">>
Range(h)     == Live(h) /\ UNCHANGED it
                        /\ last' = <<"range", TokensFrom(Tokenized(it[h].t, it[h].in))>>
\* iterators over different inputs are not compared, unless one is exhausted
Comparable(h, k) == Live(h) /\ Live(k)
                    /\ (it[h].in = it[k].in \/ ~Holds(it[h]) \/ ~Holds(it[k]))
Equal(h, k)  == Comparable(h, k) /\ UNCHANGED it
                /\ last' = <<"equal", it[h].tok = it[k].tok>>

(* --- properties ------------------------------------------------------------------------ *)
\* tokens are not empty, and parts of the input
TokensInInput == \A h \in Handles : Holds(it[h]) =>
                   /\ 0 <= it[h].tok.s /\ it[h].tok.s < it[h].tok.e
                   /\ it[h].tok.e = it[h].cur /\ it[h].cur <= Len(it[h].in)

\* the gap before a token is one separator, or nothing before the first
NoGaps ==
  [][\A h \in Handles :
       (last'[1] = "increment" /\ Live(h) /\ it'[h] # it[h] /\ Holds(it'[h]) /\ it'[h].in = it[h].in)
         => it'[h].tok.s = it[h].cur + Longest(it[h].t, it[h].in, it[h].cur, TRUE).n
            /\ it'[h].tok.s > it[h].tok.e]_tk

\* no token of any definition that matches there is longer
MaximalMunch ==
  \A h \in Handles : Holds(it[h]) =>
    \A d \in 1..Len(Tokenizer[it[h].t]) :
      ~Tokenizer[it[h].t][d].sep =>
        LET n == SizeAt(Tokenizer[it[h].t][d], it[h].in, it[h].tok.s)
            m == it[h].tok.e - it[h].tok.s
        IN n < m \/ (n = m /\ \/ Tokenizer[it[h].t][d].type = it[h].tok.type
                              \/ \E e \in 1..(d-1) :
                                   Tokenizer[it[h].t][e].type = it[h].tok.type
                                   /\ ~Tokenizer[it[h].t][e].sep)

\* exhausted iterators stay so
EndIsFinal ==
  [][\A h \in Handles : (last'[1] = "increment" /\ Live(h) /\ ~Holds(it[h])) => ~Holds(it'[h])]_tk

Isolated ==
  [][\A h, k \in Handles : (h # k /\ it'[h] # it[h]) => it'[k] = it[k]]_tk
=============================================================================
