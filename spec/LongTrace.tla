------------------------------- MODULE LongTrace -------------------------------
(* Results of long queries.                                                     *)
(*                                                                              *)
(* A case is the query unit^n tail, with n far too large for Semantics; o is    *)
(* what the library showed first and (if count >= 0) last, and count how many   *)
(* matches (or tokens) there were.  What Semantics says of unit^k tail grows    *)
(* with k by constant steps once k is large enough: the steps are measured on   *)
(* three consecutive small k, and give the answer for n.                        *)
(*                                                                              *)
(* A regex with a "form" has numbers in its text that grow with the query: the   *)
(* text for k is parts, each a text and a number (k plus a constant), then post. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLES rec, cas

Recs == ndJsonDeserialize(IOEnv.TRACE)
P == INSTANCE Pattern

IsTokenizer(r) == "defs" \in DOMAIN r
Definition(d) == [sep |-> d.sep = 1, type |-> d.type, x |-> P!Parse(d.p), groups |-> P!Groups(d.p)]
HasForm(r) == "form" \in DOMAIN r

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>

\* text of a regex whose numbers are those for n
RECURSIVE Parts(_, _)
Parts(parts, n) == IF parts = <<>> THEN <<>>
                   ELSE Head(parts).t \o Decimal(n + Head(parts).d) \o Parts(Tail(parts), n)
TextOf(f, n) == Parts(f.parts, n) \o f.post

Parsed(r) == IF IsTokenizer(r) THEN [x |-> P!BolN, groups |-> 0] ELSE P!Parsed(r.p)
Sem == INSTANCE Semantics WITH Commit <- TRUE
Regexes == [r \in 1..Len(Recs) |-> Parsed(Recs[r])]
Tokenizers == [r \in 1..Len(Recs) |->
                IF ~IsTokenizer(Recs[r]) THEN <<>>
                ELSE [d \in 1..Len(Recs[r].defs) |-> Definition(Recs[r].defs[d])]]

Tok == INSTANCE TokenIter WITH Tokenizer <- Tokenizers, Handles <- {}, Commit <- TRUE,
                              it <- <<>>, last <- <<>>

Small == 8

Query(c, k) == [j \in 1..(k * Len(c.unit)) |-> c.unit[((j - 1) % Len(c.unit)) + 1]] \o c.tail

RECURSIVE Flat(_)
Flat(cp) == IF cp = <<>> THEN <<>> ELSE Head(cp) \o Flat(Tail(cp))
Shown(m) == <<IF m.ok THEN 1 ELSE 0, m.s, m.e>> \o Flat(m.cp)
ShownToken(t) == <<IF t = Tok!NoToken THEN 0 ELSE 1, t.type, t.s, t.e>>

RECURSIVE LastOf(_, _, _, _)
LastOf(x, q, m, n) == LET next == Sem!SearchAfter(x.x, x.groups, q, m) IN
                      IF ~next.ok THEN <<m, n>> ELSE LastOf(x, q, next, n + 1)
RECURSIVE LastToken(_, _)
LastToken(o, n) == LET next == Tok!Advanced(o) IN
                   IF ~Tok!Holds(next) THEN <<o, n>> ELSE LastToken(next, n + 1)

\* everything there is to say about unit^k tail, as a tuple of integers
Answer(r, c, k) ==
  IF IsTokenizer(Recs[r])
  THEN LET o == Tok!Tokenized(r, Query(c, k)) IN
       IF ~Tok!Holds(o) THEN ShownToken(o.tok) \o ShownToken(o.tok) \o <<0>>
       ELSE LET l == LastToken(o, 1) IN ShownToken(o.tok) \o ShownToken(l[1].tok) \o <<l[2]>>
  ELSE LET x == IF HasForm(Recs[r]) THEN P!Parsed(TextOf(Recs[r].form, k - (c.n - Recs[r].form.n)))
                ELSE Regexes[r]
           q == Query(c, k)
           m == Sem!Search(x.x, x.groups, q, 0) IN
       IF c.count = -1 THEN Shown(m)
       ELSE IF ~m.ok THEN Shown(m) \o Shown(m) \o <<0>>
       ELSE LET l == LastOf(x, q, m, 1) IN Shown(m) \o Shown(l[1]) \o <<l[2]>>

Expected(r, c) ==
  LET x == Answer(r, c, Small)  y == Answer(r, c, Small + 1)  z == Answer(r, c, Small + 2) IN
  IF Len(x) # Len(y) \/ Len(y) # Len(z) \/ \E j \in 1..Len(x) : y[j] - x[j] # z[j] - y[j]
  THEN <<>>
  ELSE [j \in 1..Len(x) |-> x[j] + (c.n - Small) * (y[j] - x[j])]

(* --- what was observed, in the same form ------------------------------------------ *)
\* <<returned, accepted, s, e, groups>>, empty groups and rejected results have no position
RegexSeen(o) == <<o[2]>> \o SubSeq(o, 3, Len(o))
TokenSeen(o) == SubSeq(o, 1, 4)

Agree(e, o) == \* accepted, and pairs of positions
  /\ Len(e) = Len(o)
  /\ e[1] = o[1]
  /\ \A j \in 1..((Len(e) - 1) \div 2) :
       LET es == e[2 * j]  ee == e[2 * j + 1]  os == o[2 * j]  oe == o[2 * j + 1] IN
       IF e[1] = 0 \/ (j > 1 /\ es = ee) THEN os = oe /\ os # -9 ELSE es = os /\ ee = oe

Conforms(r, c) ==
  IF Len(c.o[1]) = 1 THEN FALSE
  ELSE LET e == Expected(r, c) IN
       IF IsTokenizer(Recs[r])
       THEN /\ c.count = e[9]
            /\ e[9] > 0 => TokenSeen(c.o[1]) = SubSeq(e, 1, 4) /\ TokenSeen(c.o[2]) = SubSeq(e, 5, 8)
       ELSE IF c.count = -1 THEN Agree(e, RegexSeen(c.o[1]))
       ELSE LET h == (Len(e) - 1) \div 2 IN
            /\ c.count = e[Len(e)]
            /\ Agree(SubSeq(e, 1, h), RegexSeen(c.o[1]))
            /\ Agree(SubSeq(e, h + 1, 2 * h), RegexSeen(c.o[2]))

\* the text compiled is the one the form describes
ASSUME \A r \in 1..Len(Recs) : HasForm(Recs[r]) => TextOf(Recs[r].form, Recs[r].form.n) = Recs[r].p

Init == rec \in 1..Len(Recs) /\ cas = 1
Check ==
  /\ cas <= Len(Recs[rec].t)
  /\ rec' = rec /\ cas' = cas + 1
  /\ LET c == Recs[rec].t[cas] IN
     IF Expected(rec, c) = <<>>
     THEN PrintT("UNKNOWN " \o ToJson([r |-> Recs[rec].r, c |-> cas]))
     ELSE ~Conforms(rec, c) =>
          PrintT("REPORT " \o ToJson([kind |-> IF c.o[1] = <<-1>> THEN "crash"
                                               ELSE IF c.o[1] = <<-2>> THEN "hang" ELSE "long",
                                      known |-> FALSE, r |-> Recs[rec].r, c |-> cas, e |-> 1,
                                      expected |-> Expected(rec, c), got |-> c]))
Spec == Init /\ [][Check]_<<rec, cas>>
=============================================================================
