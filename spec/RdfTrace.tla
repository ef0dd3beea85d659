------------------------------ MODULE RdfTrace ------------------------------
(* Graphs written for real models, resource names made and read.              *)
EXTENDS Rdf, TraceBase
XConforms(e) ==
  CASE e.op \in {"graph", "turtle"} -> States(e.triples, e.root, e.model)
    [] e.op = "urn" -> e.iri = IriOf(e.id) /\ e.back = e.id /\ e.is
    [] e.op = "iri" -> e.shape = ShapeOf(e.text) /\ e.is = (e.shape # "")
    [] e.op = "sinks" -> SinksOk(e)
    [] OTHER -> FALSE
=============================================================================
