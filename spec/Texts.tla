-------------------------------- MODULE Texts --------------------------------
(* Verdicts of Legal on given texts, for those who choose what to compile.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE rec
L == INSTANCE Legal
Recs == ndJsonDeserialize(IOEnv.TRACE)
Init == rec \in 1..Len(Recs) /\ PrintT("VERDICT " \o ToJson(<<rec, L!Verdict(Recs[rec].p)>>))
Spec == Init /\ [][UNCHANGED rec]_rec
=============================================================================
