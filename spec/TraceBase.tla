----------------------------- MODULE TraceBase -----------------------------
(* Judges every record of a trace by itself. A trace module extends this one *)
(* and its configuration substitutes Conforms.                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
T == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT Conforms(_)
VARIABLES i, judged
Judge(n) == IF Conforms(T[n]) THEN TRUE ELSE PrintT("NONCONF " \o ToString(n))
Init == i \in 1..Len(T) /\ judged = FALSE
Next == ~judged /\ Judge(i) /\ judged' = TRUE /\ UNCHANGED i
(* Writing to a destination succeeds exactly when it has room for the text. *)
SinksOk(e) == Len(e.ok) = Len(e.room) /\ \A n \in 1..Len(e.room) : e.ok[n] = (e.room[n] >= e.len)
(* Nothing is read from a source that fails or that is not text. *)
SourcesOk(e) == e.ok = [n \in 1..6 |-> FALSE]
=============================================================================
