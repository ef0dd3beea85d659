------------------------------ MODULE CliTrace ------------------------------
(* Calls of the real command.  code0: it exited with success; place: what is  *)
(* where it was to write ("nothing", "old" untouched, "some" text); back: the *)
(* model read back from JSON or IDL output; lines and lib: the lines of the    *)
(* output and of what the library writes for the same files; issues: what was *)
(* printed, by: who reported, none: it said there are none.                    *)
EXTENDS Cli, Actions, TraceBase
XConforms(e) ==
  LET o == Outcome(e)
      m == TheModel(e)
  IN
  CASE e.op = "cli" ->
    IF o.at = "failed" THEN ~e.code0 /\ e.place = o.place /\ e.issues = <<>> /\ ~e.none
    ELSE
     /\ e.code0
     /\ Writes(e) => e.place = "some" /\ e.lines = e.lib
     /\ e.cmd = "convert" /\ e.fmt = "json" => e.read = "ok" /\ SameModel(e.back, m)
     /\ e.cmd = "lint" =>
          LET k == Len(NamingIssues(m)) IN
          /\ Len(e.issues) >= k
          /\ SameIssues(SubSeq(e.issues, 1, k), NamingIssues(m))
          /\ TermsAgree(m, SubSeq(e.issues, k + 1, Len(e.issues)))
     /\ e.cmd = "validate" => SameIssues(e.issues, UnresolvedIssues(m) \o ReferenceIssues(m))
     /\ ~Writes(e) => e.none = (e.issues = <<>>) /\ e.place = "some" /\ e.bag = e.libbag
    [] OTHER -> FALSE
=============================================================================
