------------------------------- MODULE MC_Legal -------------------------------
(* All the texts over an alphabet, up to a length, character after character:    *)
(* the reader of Legal agrees with the grammar of Pattern, nothing makes an       *)
(* illegal text legal again, and legal texts can be put together.                 *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Length, Alphabet, Printing

L == INSTANCE Legal
P == INSTANCE Pattern

Chars == CASE Alphabet = "structure" -> {97, 40, 41, 124, 42, 63}
           [] Alphabet = "inner"     -> {40, 63, 58, 97, 41, 43}
           [] Alphabet = "brackets"  -> {97, 98, 91, 93, 94, 45, 42}
           [] Alphabet = "braces"    -> {97, 123, 125, 44, 49, 50, 43}
           [] Alphabet = "anchors"   -> {97, 94, 36, 124, 40, 41}
           [] Alphabet = "hex"       -> {92, 120, 123, 125, 49, 102, 103}
           [] Alphabet = "octal"     -> {92, 111, 123, 125, 49, 55, 56}
           [] Alphabet = "escapes"   -> {92, 40, 100, 91, 93, 124, 42}

\* numeric escapes begin like this, the rest is explored
Prefix == CASE Alphabet = "hex" -> {<<>>, <<92, 120>>, <<92, 120, 123>>}
            [] Alphabet = "octal" -> {<<>>, <<92, 111>>, <<92, 111, 123>>}
            [] Alphabet = "braces" -> {<<>>, <<97, 123>>}
            [] Alphabet = "inner" -> {<<>>, <<40, 63>>, <<40, 63, 58>>}
            [] OTHER -> {<<>>}

VARIABLES text, state, from
Init == /\ from \in Prefix /\ text = from /\ state = L!Reading(L!Beginning, from, 1)
Next == /\ Len(text) < Length + Len(from)
        /\ \E c \in Chars : text' = Append(text, c) /\ state' = L!Step(state, c)
        /\ from' = from
        /\ Printing => PrintT("TEXT " \o ToJson(<<text', L!Final(state')>>))
Spec == Init /\ [][Next]_<<text, state, from>>

Final == L!Final(state)
LegalIsValid     == Final = "legal" => P!Valid(text)
IllegalIsInvalid == Final = "illegal" => ~P!Valid(text)
Composed == Final = "legal" =>
  /\ L!Verdict(<<40>> \o text \o <<41>>) = "legal"
  /\ L!Verdict(P!Delimited(text) \o <<42, 43>>) = "legal"
  /\ L!Verdict(text \o <<124>> \o text) = "legal"
  /\ L!Verdict(P!Delimited(text) \o text) \in {"legal", "unspecified"}
  \* and parts without a meaning remain so
  /\ L!Verdict(<<40>> \o text) = "illegal"
  /\ L!Verdict(text \o <<124>>) = "illegal"
  /\ L!Verdict(text \o <<124, 42>>) = "illegal"
IllegalForever == [][state.m = "illegal" => state'.m = "illegal"]_<<text, state, from>>
=============================================================================
