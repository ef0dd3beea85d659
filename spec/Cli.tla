-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line.  A call has a command (lint, validate, convert,         *)
(* document), inputs named on the command line (via "i") or by an            *)
(* environment variable ("s" its name, "d" the default one), a format, a     *)
(* namespace and a place to write to: "stdout", "new" (a file), "old" (a     *)
(* file that is there) or "nodir" (a file in no directory).                   *)
(*                                                                          *)
(* The state is how far the call got and what is at the place it writes to.  *)
(***************************************************************************)
EXTENDS Assembler

Formats(cmd) == IF cmd = "convert" THEN {"json", "smithy", "uml"} ELSE {"markdown", "html", "latex", "json", "xwiki"}
Writes(c) == c.cmd \in {"convert", "document"}
StdReg == "json" :> "json" @@ "smithy" :> "smithy"

BadArgs(c) == Writes(c) /\ c.fmt \notin Formats(c.cmd)
\* An input named on the command line has to exist.
Missing(c) == \E n \in 1..Len(c.named) : Resolve(c.fs, c.named[n]) = Nowhere
Inputs(c) == c.named \o c.searched
AssemblyFails(c) == Missing(c) \/ Fails(c.fs, StdReg, Inputs(c))
TheModel(c) == Assembled(c.fs, StdReg, Inputs(c))
\* IDL holds one namespace: the one asked for, or the only one there is.
NoNamespace(c) ==
  c.cmd = "convert" /\ c.fmt = "smithy" /\
  IF c.ns = "" THEN Cardinality(Namespaces(TheModel(c))) # 1 ELSE ~IsNamespace(c.ns)
NoPlace(c) == Writes(c) /\ c.out = "nodir"
MustFail(c) == BadArgs(c) \/ AssemblyFails(c) \/ NoNamespace(c) \/ NoPlace(c)

(***************************** the machine *********************************)
\* at: args, assemble, check, open, write, done, failed;  place: what is there
Begin(c) == [at |-> "args", place |-> IF c.out = "old" THEN "old" ELSE "nothing"]
GoOn(st, bad, next) == [st EXCEPT !.at = IF bad THEN "failed" ELSE next]
StepOf(c, st) ==
  CASE st.at = "args" -> GoOn(st, BadArgs(c), "assemble")
    [] st.at = "assemble" -> GoOn(st, AssemblyFails(c), IF Writes(c) THEN "check" ELSE "report")
    [] st.at = "report" -> [st EXCEPT !.at = "done"]
    [] st.at = "check" -> GoOn(st, NoNamespace(c), "open")
    [] st.at = "open" -> IF NoPlace(c) THEN [st EXCEPT !.at = "failed"]
                         ELSE [at |-> "write", place |-> "empty"]
    [] st.at = "write" -> [at |-> "done", place |-> "all"]
    [] OTHER -> st
Ended(st) == st.at \in {"done", "failed"}
RECURSIVE RunOf(_, _)
RunOf(c, st) == IF Ended(st) THEN st ELSE RunOf(c, StepOf(c, st))
Outcome(c) == RunOf(c, Begin(c))
=============================================================================
