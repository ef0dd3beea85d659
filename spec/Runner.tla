------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* Running a list of actions. Each action reports some issues (a sequence   *)
(* of levels) and either completes or fails. State: how far the run is,     *)
(* what it has collected, and whether it goes on.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences
\* acts: sequence of [levels, fails]
StartRun == [at |-> 0, issues |-> <<>>, going |-> TRUE, failed |-> FALSE]
Labelled(k, a) == [n \in 1..Len(a.levels) |-> [by |-> k, nr |-> n, level |-> a.levels[n]]]
ReportsError(a) == \E n \in 1..Len(a.levels) : a.levels[n] = "error"
StepRun(st, acts, fast) ==
  LET k == st.at + 1
      a == acts[k]
  IN IF a.fails THEN [at |-> k, issues |-> <<>>, going |-> FALSE, failed |-> TRUE]
     ELSE [at |-> k, issues |-> st.issues \o Labelled(k, a),
           going |-> ~(fast /\ ReportsError(a)), failed |-> FALSE]
CanStep(st, acts) == st.going /\ st.at < Len(acts)
RECURSIVE RunFrom(_, _, _)
RunFrom(st, acts, fast) == IF CanStep(st, acts) THEN RunFrom(StepRun(st, acts, fast), acts, fast) ELSE st
RunAll(acts, fast) == RunFrom(StartRun, acts, fast)
=============================================================================
