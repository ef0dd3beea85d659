------------------------------ MODULE IdlTrace ------------------------------
(* "read": a text and what the real reader made of it.  "write": a model, the *)
(* text the real writer made of it, and what the reader made of that.  Where  *)
(* the reader is known to depart from the meaning of a text it may do so here;*)
(* not in the pinned cases ("strict").                                        *)
EXTENDS Idl, TraceBase
Agrees(d, r, m) == IF d.ok THEN r = "ok" /\ NormM(m) = NormM(d.m) ELSE r = "err"
ReadOf(e, r, m) ==
  IF e.strict THEN Agrees(Denote(e.text, e.uni), r, m)
  ELSE Agrees(DenoteAs(e.text, e.uni, Devs), r, m) \/ \E dev \in SUBSET Devs : Agrees(DenoteAs(e.text, e.uni, dev), r, m)
XConforms(e) ==
  CASE e.op = "read" -> ReadOf(e, e.r, e.m)
    [] e.op = "write" ->
         /\ e.r = "ok"
         /\ LET d == Denote(e.text, e.uni) IN d.ok /\ NormM(d.m) = NormM(Part(e.m, e.ns))
         /\ ReadOf(e, e.r2, e.m2)
    [] e.op = "sources" -> SourcesOk(e)
    [] e.op = "sinks" -> SinksOk(e)
    [] OTHER -> FALSE
=============================================================================
