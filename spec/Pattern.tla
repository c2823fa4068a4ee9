------------------------------- MODULE Pattern -------------------------------
(* The pattern language: from the bytes of a pattern to its syntax tree.      *)
(*                                                                            *)
(* A tree is one of                                                           *)
(*   [k |-> "set", s |-> characters]           one character of a set         *)
(*   [k |-> "seq", xs |-> <<x1, ..., xn>>]     concatenation                  *)
(*   [k |-> "alt", xs |-> <<x1, ..., xn>>]     ordered alternation            *)
(*   [k |-> "grp", n |-> index, x |-> tree]    capturing group                *)
(*   [k |-> "rep", x |-> tree, lo |-> least, hi |-> most (-1: no bound),      *)
(*                 m |-> "g" (greedy), "l" (lazy) or "p" (possessive)]        *)
(*   [k |-> "bol"], [k |-> "eol"]              anchors                        *)
EXTENDS Chars

INF == -1

SetN(s)             == [k |-> "set", s |-> s]
SeqN(xs)            == IF Len(xs) = 1 THEN xs[1] ELSE [k |-> "seq", xs |-> xs]
AltN(xs)            == IF Len(xs) = 1 THEN xs[1] ELSE [k |-> "alt", xs |-> xs]
GrpN(n, x)          == [k |-> "grp", n |-> n, x |-> x]
RepN(x, lo, hi, m)  == [k |-> "rep", x |-> x, lo |-> lo, hi |-> hi, m |-> m]
BolN                == [k |-> "bol"]
EolN                == [k |-> "eol"]

At(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE -1

(* --- numbers and delimited sequences ------------------------------------- *)
RECURSIVE NumberFrom(_, _, _)
NumberFrom(p, i, acc) ==   \* <<value, next>>
  IF At(p, i) \in Digit THEN NumberFrom(p, i + 1, acc * 10 + (p[i] - 48))
  ELSE <<acc, i>>

RECURSIVE HexBytes(_, _)
HexBytes(p, i) ==          \* bytes up to "}", nibble pairs
  IF At(p, i) = RBRACE THEN << <<>>, i + 1 >>
  ELSE LET r == HexBytes(p, i + 2) IN
       << <<HexValue(p[i]) * 16 + HexValue(p[i+1])>> \o r[1], r[2] >>

RECURSIVE OctBytes(_, _)
OctBytes(p, i) ==
  IF At(p, i) = RBRACE THEN << <<>>, i + 1 >>
  ELSE LET r == OctBytes(p, i + 3) IN
       << <<((p[i]-48) * 64 + (p[i+1]-48) * 8 + (p[i+2]-48)) % 256>> \o r[1], r[2] >>

Bytes(bs) == SeqN([j \in 1..Len(bs) |-> SetN({bs[j]})])

(* --- character sets in square brackets ----------------------------------- *)
RECURSIVE ClassItems(_, _)
ClassItems(p, i) ==        \* <<characters, next>>; i is after "[" or "[^"
  IF At(p, i) = RSQ THEN << {}, i + 1 >>
  ELSE IF p[i] = BSLASH
  THEN LET r == ClassItems(p, i + 2) IN << EscapeSet(p[i+1]) \cup r[1], r[2] >>
  ELSE IF At(p, i + 1) = DASH /\ At(p, i + 2) # RSQ
  THEN LET r == ClassItems(p, i + 3) IN << (p[i]..p[i+2]) \cup r[1], r[2] >>
  ELSE LET r == ClassItems(p, i + 1) IN << {p[i]} \cup r[1], r[2] >>

Class(p, i) ==             \* i is after "["
  IF At(p, i) = CARET
  THEN LET r == ClassItems(p, i + 1) IN << SetN(Byte \ r[1]), r[2] >>
  ELSE LET r == ClassItems(p, i) IN << SetN(r[1]), r[2] >>

(* --- escape sequences ----------------------------------------------------- *)
Escape(p, i) ==            \* i is after "\"; <<tree, next>>
  LET c == p[i] IN
  IF c = 120 /\ At(p, i+1) = LBRACE             \* \x{N...}
  THEN LET r == HexBytes(p, i + 2) IN << Bytes(r[1]), r[2] >>
  ELSE IF c = 120 /\ At(p, i+1) \in Hex /\ At(p, i+2) \in Hex
  THEN << SetN({HexValue(p[i+1]) * 16 + HexValue(p[i+2])}), i + 3 >>
  ELSE IF c = 120 /\ At(p, i+1) \in Hex
  THEN << SetN({HexValue(p[i+1])}), i + 2 >>
  ELSE IF c = 111 /\ At(p, i+1) = LBRACE        \* \o{N...}
  THEN LET r == OctBytes(p, i + 2) IN << Bytes(r[1]), r[2] >>
  ELSE IF c \in Octal /\ At(p, i+1) \in Octal /\ At(p, i+2) \in Octal
  THEN << SetN({((c-48) * 64 + (p[i+1]-48) * 8 + (p[i+2]-48)) % 256}), i + 3 >>
  ELSE << SetN(EscapeSet(c)), i + 1 >>

(* --- quantifiers ----------------------------------------------------------- *)
Policy(p, i) == CASE At(p, i) = PLUS  -> << "p", i + 1 >>
                  [] At(p, i) = QMARK -> << "l", i + 1 >>
                  [] OTHER            -> << "g", i >>

IsQuantifier(c) == c \in {STAR, PLUS, QMARK, LBRACE}

RECURSIVE Quantified(_, _, _)
Quantified(p, i, x) ==     \* <<tree, next>>: x followed by its quantifiers
  IF ~IsQuantifier(At(p, i)) THEN << x, i >>
  ELSE LET bounds ==       \* <<lo, hi, next, exact>>
             CASE p[i] = STAR  -> <<0, INF, i + 1, FALSE>>
               [] p[i] = PLUS  -> <<1, INF, i + 1, FALSE>>
               [] p[i] = QMARK -> <<0, 1, i + 1, FALSE>>
               [] OTHER ->
                    LET lo == NumberFrom(p, i + 1, 0) IN
                    IF p[lo[2]] = RBRACE THEN <<lo[1], lo[1], lo[2] + 1, TRUE>>
                    ELSE IF p[lo[2] + 1] = RBRACE
                    THEN <<lo[1], INF, lo[2] + 2, FALSE>>
                    ELSE LET hi == NumberFrom(p, lo[2] + 1, 0) IN
                         <<lo[1], hi[1], hi[2] + 1, FALSE>>
           pol == Policy(p, bounds[3])
           \* exactly n repetitions: the policy makes no difference
           m == IF bounds[4] THEN "g" ELSE pol[1]
       IN Quantified(p, pol[2], RepN(x, bounds[1], bounds[2], m))

(* --- regular expressions ---------------------------------------------------- *)
EndsBranch(p, i) == At(p, i) \in {-1, PIPE, RPAR}

(* Branches from i up to ")" or the end; g groups were opened before i.        *)
(* Each returns <<tree(s), next, groups opened before next>>.                  *)
RECURSIVE Branches(_, _, _), Branch(_, _, _, _), Atom(_, _, _)

Alternatives(p, i, g) ==
  LET r == Branches(p, i, g) IN << AltN(r[1]), r[2], r[3] >>

Branches(p, i, g) ==
  LET b == Branch(p, i, g, TRUE) IN
  IF At(p, b[2]) = PIPE
  THEN LET r == Branches(p, b[2] + 1, b[3]) IN << <<SeqN(b[1])>> \o r[1], r[2], r[3] >>
  ELSE << <<SeqN(b[1])>>, b[2], b[3] >>

Branch(p, i, g, first) ==
  IF EndsBranch(p, i) THEN << <<>>, i, g >>
  ELSE LET a == IF first /\ p[i] = CARET THEN << BolN, i + 1, g >>
                ELSE IF p[i] = DOLLAR /\ EndsBranch(p, i + 1)
                THEN << EolN, i + 1, g >>
                ELSE Atom(p, i, g)
           q == Quantified(p, a[2], a[1])
           r == Branch(p, q[2], a[3], FALSE)
       IN << <<q[1]>> \o r[1], r[2], r[3] >>

Atom(p, i, g) ==
  CASE p[i] = LPAR /\ At(p, i+1) = QMARK /\ At(p, i+2) = COLON ->
         LET r == Alternatives(p, i + 3, g) IN << r[1], r[2] + 1, r[3] >>
    [] p[i] = LPAR ->
         LET r == Alternatives(p, i + 1, g + 1) IN
         << GrpN(g + 1, r[1]), r[2] + 1, r[3] >>
    [] p[i] = LSQ    -> LET r == Class(p, i + 1)  IN << r[1], r[2], g >>
    [] p[i] = BSLASH -> LET r == Escape(p, i + 1) IN << r[1], r[2], g >>
    [] p[i] = DOT    -> << SetN(Any), i + 1, g >>
    [] OTHER         -> << SetN({p[i]}), i + 1, g >>

Parsed(p) == LET r == Alternatives(p, 1, 0) IN [x |-> r[1], groups |-> r[3]]
Parse(p)  == Parsed(p).x
Groups(p) == Parsed(p).groups

(* --- patterns of the language ------------------------------------------------ *)
(* Position after the longest well-formed piece, 0 if there is none            *)
RECURSIVE ValidClassItems(_, _), ValidDigits(_, _, _), ValidNumber(_, _)
ValidNumber(p, i) == IF At(p, i) \in Digit THEN ValidNumber(p, i + 1) ELSE i
ValidDigits(p, i, digits) ==      \* digits up to "}"
  IF At(p, i) = RBRACE THEN i + 1
  ELSE IF At(p, i) \in digits THEN ValidDigits(p, i + 1, digits) ELSE 0

ValidClassItems(p, i) ==          \* after "[" or "[^", at least an item before "]"
  IF At(p, i) \in {-1, RSQ} THEN 0
  ELSE LET next == IF p[i] = BSLASH THEN (IF At(p, i + 1) = -1 THEN 0 ELSE i + 2)
                   ELSE IF At(p, i + 1) = DASH /\ At(p, i + 2) \notin {-1, RSQ}
                   THEN (IF p[i] <= p[i+2] THEN i + 3 ELSE 0)
                   ELSE i + 1
       IN IF next = 0 THEN 0
          ELSE IF At(p, next) = RSQ THEN next + 1 ELSE ValidClassItems(p, next)

ValidEscape(p, i) ==              \* after "\"
  IF At(p, i) = -1 THEN 0
  ELSE IF p[i] = 120 /\ At(p, i+1) = LBRACE
  THEN LET n == ValidDigits(p, i + 2, Hex) IN
       IF n # 0 /\ n > i + 3 /\ (n - i - 3) % 2 = 0 THEN n ELSE 0
  ELSE IF p[i] = 111 /\ At(p, i+1) = LBRACE
  THEN LET n == ValidDigits(p, i + 2, Octal) IN
       IF n # 0 /\ n > i + 3 /\ (n - i - 3) % 3 = 0 THEN n ELSE 0
  ELSE Escape(p, i)[2]

ValidBounds(p, i) ==              \* after "{"
  LET lo == ValidNumber(p, i) IN
  IF lo = i THEN 0
  ELSE IF At(p, lo) = RBRACE THEN lo + 1
  ELSE IF At(p, lo) # COMMA THEN 0
  ELSE LET hi == ValidNumber(p, lo + 1) IN IF At(p, hi) = RBRACE THEN hi + 1 ELSE 0

RECURSIVE ValidQuantifiers(_, _)
ValidQuantifiers(p, i) ==
  IF ~IsQuantifier(At(p, i)) THEN i
  ELSE LET n == IF p[i] = LBRACE THEN ValidBounds(p, i + 1) ELSE i + 1
       IN IF n = 0 THEN 0 ELSE ValidQuantifiers(p, Policy(p, n)[2])

RECURSIVE ValidBranches(_, _), ValidBranch(_, _, _)
ValidBranches(p, i) ==            \* position of ")" or after the end
  LET b == ValidBranch(p, i, TRUE) IN
  IF b = 0 \/ b = i THEN 0
  ELSE IF At(p, b) = PIPE THEN ValidBranches(p, b + 1) ELSE b

ValidBranch(p, i, first) ==
  IF EndsBranch(p, i) THEN i
  ELSE LET a == CASE first /\ p[i] = CARET -> i + 1
                  [] p[i] = LPAR ->
                       LET in == IF At(p, i+1) = QMARK /\ At(p, i+2) = COLON THEN i + 3 ELSE i + 1
                           n  == ValidBranches(p, in)
                       IN IF n # 0 /\ At(p, n) = RPAR THEN n + 1 ELSE 0
                  [] p[i] = LSQ    -> ValidClassItems(p, IF At(p, i+1) = CARET THEN i + 2 ELSE i + 1)
                  [] p[i] = BSLASH -> ValidEscape(p, i + 1)
                  [] IsQuantifier(p[i]) \/ p[i] \in {RSQ, RBRACE} -> 0
                  [] OTHER -> i + 1
           n == IF a = 0 THEN 0 ELSE ValidQuantifiers(p, a)
       IN IF n = 0 THEN 0 ELSE ValidBranch(p, n, FALSE)

Valid(p) == ValidBranches(p, 1) = Len(p) + 1

(* --- and back: a pattern for a tree ------------------------------------------ *)
Meta == {BSLASH, CARET, DOLLAR, DOT, PIPE, QMARK, STAR, PLUS, LPAR, RPAR,
         LSQ, RSQ, LBRACE, RBRACE}
Quoted(c) == IF c \in Meta THEN <<BSLASH, c>> ELSE <<c>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>>
               ELSE LET c == CHOOSE d \in s : \A e \in s : d <= e
                    IN <<c>> \o SetToSeq(s \ {c})

RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN <<48 + n>> ELSE Numeral(n \div 10) \o <<48 + (n % 10)>>

InClass(c) == IF c \in Meta \cup {DASH} THEN <<BSLASH, c>> ELSE <<c>>
ClassPattern(s) ==
  IF s = Any THEN <<DOT>>
  ELSE IF Cardinality(s) = 1 THEN Quoted(CHOOSE c \in s : TRUE)
  ELSE LET neg   == Cardinality(s) > 128
           items == SetToSeq(IF neg THEN Byte \ s ELSE s)
       IN <<LSQ>> \o (IF neg THEN <<CARET>> ELSE <<>>)
          \o Concat([j \in 1..Len(items) |-> InClass(items[j])]) \o <<RSQ>>

QuantifierPattern(lo, hi, m) ==
  (CASE lo = 0 /\ hi = INF -> <<STAR>>
     [] lo = 1 /\ hi = INF -> <<PLUS>>
     [] lo = 0 /\ hi = 1   -> <<QMARK>>
     [] hi = INF           -> <<LBRACE>> \o Numeral(lo) \o <<COMMA, RBRACE>>
     [] lo = hi            -> <<LBRACE>> \o Numeral(lo) \o <<RBRACE>>
     [] OTHER -> <<LBRACE>> \o Numeral(lo) \o <<COMMA>> \o Numeral(hi) \o <<RBRACE>>)
  \o (CASE m = "l" -> <<QMARK>> [] m = "p" -> <<PLUS>> [] OTHER -> <<>>)

Delimited(s) == <<LPAR, QMARK, COLON>> \o s \o <<RPAR>>

RECURSIVE Render(_), RenderBranches(_)
RenderBranches(xs) == IF Len(xs) = 1 THEN Render(xs[1])
                      ELSE Render(xs[1]) \o <<PIPE>> \o RenderBranches(Tail(xs))

RenderAtom(x) == IF x.k \in {"set", "grp"} THEN Render(x)
                 ELSE IF x.k = "alt" THEN Render(x) ELSE Delimited(Render(x))

(* Alternatives are always delimited *)
Render(x) ==
  CASE x.k = "set" -> ClassPattern(x.s)
    [] x.k = "bol" -> <<CARET>>
    [] x.k = "eol" -> <<DOLLAR>>
    [] x.k = "grp" -> <<LPAR>> \o (IF x.x.k = "alt" THEN RenderBranches(x.x.xs)
                                   ELSE Render(x.x)) \o <<RPAR>>
    [] x.k = "alt" -> Delimited(RenderBranches(x.xs))
    [] x.k = "seq" -> Concat([j \in 1..Len(x.xs) |->
                        IF x.xs[j].k \in {"seq", "bol", "eol"}
                        THEN Delimited(Render(x.xs[j])) ELSE Render(x.xs[j])])
    [] x.k = "rep" -> RenderAtom(x.x) \o QuantifierPattern(x.lo, x.hi, x.m)

(* --- static attributes --------------------------------------------------------- *)
RECURSIVE Nullable(_), First(_), FixedSize(_)
(* x can match the empty string *)
Nullable(x) ==
  CASE x.k = "set" -> FALSE
    [] x.k \in {"bol", "eol"} -> TRUE
    [] x.k = "grp" -> Nullable(x.x)
    [] x.k = "alt" -> \E j \in 1..Len(x.xs) : Nullable(x.xs[j])
    [] x.k = "seq" -> \A j \in 1..Len(x.xs) : Nullable(x.xs[j])
    [] x.k = "rep" -> x.lo = 0 \/ Nullable(x.x)

(* characters that can come first in a non-empty match of x *)
First(x) ==
  CASE x.k = "set" -> x.s
    [] x.k = "bol" -> {}
    [] x.k = "eol" -> {LF}
    [] x.k = "grp" -> First(x.x)
    [] x.k = "alt" -> UNION {First(x.xs[j]) : j \in 1..Len(x.xs)}
    [] x.k = "seq" -> UNION {First(x.xs[j]) : j \in
                         {l \in 1..Len(x.xs) : \A h \in 1..(l-1) : Nullable(x.xs[h])}}
    [] x.k = "rep" -> IF x.hi = 0 THEN {} ELSE First(x.x)

(* Size of the matches of x if they all have the same, -1 otherwise *)
FixedSize(x) ==
  CASE x.k = "set" -> 1
    [] x.k = "bol" -> 0
    [] x.k = "eol" -> -1
    [] x.k = "grp" -> FixedSize(x.x)
    [] x.k = "alt" -> LET s == {FixedSize(x.xs[j]) : j \in 1..Len(x.xs)} IN
                      IF Cardinality(s) = 1 THEN CHOOSE n \in s : TRUE ELSE -1
    [] x.k = "seq" -> IF \E j \in 1..Len(x.xs) : FixedSize(x.xs[j]) = -1 THEN -1
                      ELSE LET sum[j \in 0..Len(x.xs)] ==
                                 IF j = 0 THEN 0 ELSE sum[j-1] + FixedSize(x.xs[j])
                           IN sum[Len(x.xs)]
    [] x.k = "rep" -> IF x.lo = x.hi /\ FixedSize(x.x) # -1
                      THEN x.lo * FixedSize(x.x) ELSE -1

RECURSIVE GroupCount(_)
GroupCount(x) ==
  CASE x.k \in {"set", "bol", "eol"} -> 0
    [] x.k = "grp" -> 1 + GroupCount(x.x)
    [] x.k = "rep" -> GroupCount(x.x)
    [] OTHER -> LET sum[j \in 0..Len(x.xs)] ==
                      IF j = 0 THEN 0 ELSE sum[j-1] + GroupCount(x.xs[j])
                IN sum[Len(x.xs)]
=============================================================================
