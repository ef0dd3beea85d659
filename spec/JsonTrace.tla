----------------------------- MODULE JsonTrace -----------------------------
EXTENDS JsonAst, TraceBase
\* Every document the writer produces denotes the model, and reads back as it.
Denotes(d, m) == DocOk(d) /\ DModel(d) = Norm(m)
JsonConforms(e) ==
  CASE e.op = "write" -> /\ e.r = "ok"
                         /\ \A n \in 1..Len(e.docs) : Denotes(e.docs[n], e.model)
                         /\ \A n \in 1..Len(e.back) : e.back[n] = Norm(e.model)
    [] e.op = "read" -> IF DocOk(e.doc) THEN e.r = "ok" /\ e.model = DModel(e.doc) ELSE e.r = "err"
    [] e.op = "raw" -> e.r = "err"
    [] e.op = "nonfinite" -> e.r = "ok"
    [] e.op = "sources" -> SourcesOk(e)
    [] e.op = "sinks" -> SinksOk(e)
    [] OTHER -> FALSE
=============================================================================
