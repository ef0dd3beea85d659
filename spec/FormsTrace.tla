----------------------------- MODULE FormsTrace -----------------------------
EXTENDS Visit, TraceBase
FormsConforms(e) ==
  CASE e.op = "lines" -> /\ SameBag(e.lines, ModelLines(e.model))
                         /\ e.sorted
                         /\ e.written = e.lines
                         /\ e.again = e.lines
    [] e.op = "walk" -> WalkConforms(e.model, e.members, e.calls, e.fail, e.r)
    [] e.op = "sinks" -> SinksOk(e)
    [] OTHER -> FALSE
=============================================================================
