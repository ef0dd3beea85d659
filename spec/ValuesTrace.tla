---------------------------- MODULE ValuesTrace ----------------------------
EXTENDS Values, TraceBase
XConforms(e) ==
  /\ ~Has(e, "panic")
  /\ CASE e.op = "from" ->
            /\ \A n \in 1..Len(e.made) : e.made[n] = From(e.type, e.text)
            /\ Len(e.made) >= 1
       [] e.op = "value" ->
            /\ e.is = [k \in VKinds |-> VKind(e.v) = k]
            /\ \A n \in 1..Len(e.has) : e.has[n] = (e.is[e.as[n]]) /\ (e.has[n] /\ e.as[n] # "null" => e.got[n] = e.v)
            /\ \A n \in 1..Len(e.others) : e.eq[n] = VEq(e.v, e.others[n]) /\ e.qe[n] = e.eq[n]
            /\ \A n \in 1..Len(e.copies) : e.copies[n] = e.v
            /\ e.shown \in ShownOf(e.v)
       [] e.op = "build" ->
            /\ Len(e.then) = Len(e.calls) + 1
            /\ \A n \in 1..Len(e.then) : e.then[n] = Built(Blankest(e.kind), SubSeq(e.calls, 1, n - 1))
            /\ e.last = e.then[Len(e.then)]
       [] OTHER -> FALSE
=============================================================================
