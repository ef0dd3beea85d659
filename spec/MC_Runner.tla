----------------------------- MODULE MC_Runner -----------------------------
EXTENDS Runner, FiniteSets, TLC, Json
CONSTANTS MaxActs, MaxIssues
Levels == {"info", "warning", "error"}
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET P == Seqs(S, n - 1) IN P \cup {Append(p, s) : p \in {x \in P : Len(x) = n - 1}, s \in S}
Acts == {[levels |-> l, fails |-> f] : l \in Seqs(Levels, MaxIssues), f \in {FALSE}}
        \cup {[levels |-> l, fails |-> TRUE] : l \in {<<>>, <<"error">>}}
VARIABLES acts, fast, st
vars == <<acts, fast, st>>
Init == /\ acts \in Seqs(Acts, MaxActs) /\ fast \in BOOLEAN /\ st = StartRun
Next == /\ CanStep(st, acts)
        /\ st.at = 0 => \A kind \in {"lint", "validate"} :
              PrintT("CASE " \o ToJson([kind |-> kind, acts |-> acts, fast |-> fast]))
        /\ st' = StepRun(st, acts, fast) /\ UNCHANGED <<acts, fast>>
\* Issues come back in the order of the actions; nothing runs after the first failure or, with
\* fail-fast, after the first action that reports an error.
InOrder == \A a, b \in 1..Len(st.issues) : a < b =>
  st.issues[a].by < st.issues[b].by \/ (st.issues[a].by = st.issues[b].by /\ st.issues[a].nr < st.issues[b].nr)
Stops == \A k \in 1..Len(acts) : k < st.at => ~acts[k].fails /\ (fast => ~ReportsError(acts[k]))
Complete == ~st.failed => \A k \in 1..st.at : \A n \in 1..Len(acts[k].levels) :
  \E j \in 1..Len(st.issues) : st.issues[j].by = k /\ st.issues[j].nr = n
RunsAll == (~CanStep(st, acts) /\ st.going) => st.at = Len(acts)
=============================================================================
