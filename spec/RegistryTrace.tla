--------------------------- MODULE RegistryTrace ---------------------------
(* Registries after sequences of calls, asked for everything they know.       *)
EXTENDS Registry, TraceBase
Same(o, t) == o = [name |-> t.name, mime |-> t.mime, rd |-> t.rd, shown |-> IF t = NoType THEN "" ELSE Shown(t)]
RECURSIVE AllGiven(_, _, _)
AllGiven(r, calls, n) ==
  \/ n > Len(calls)
  \/ Same(calls[n].given, Given(r, calls[n])) /\ AllGiven(RegStep(r, calls[n]), calls, n + 1)
XConforms(e) ==
  /\ e.op = "registry" /\ ~Has(e, "panic")
  /\ LET r == RegAfter(Start(e.start), e.calls) IN
     /\ ToSet(e.exts) = DOMAIN r.ext /\ Len(e.exts) = Cardinality(DOMAIN r.ext)
     /\ ToSet(e.debug) = DOMAIN r.ext
     /\ \A n \in 1..Len(e.asked) : /\ e.asked[n].has = Has(r.ext, Low(e.asked[n].x))
                                   /\ Same(e.asked[n].got, ByExt(r, e.asked[n].x))
     /\ \A n \in 1..Len(e.mimes) : Same(e.mimes[n].got, ByMime(r, e.mimes[n].x))
  /\ AllGiven(Start(e.start), e.calls, 1)
=============================================================================
