---------------------------- MODULE BuilderTrace ----------------------------
(* A record is a sequence of calls on a real builder, and what came of it.    *)
EXTENDS Builder, TraceBase
XConforms(e) ==
  CASE e.op = "build" ->
         LET r == Build([ns |-> e.ns, ver |-> e.ver, calls |-> e.calls]) IN
         IF r.err = {} THEN e.r = "ok" /\ e.m = r.m
         ELSE e.r = "err" /\ <<e.err, e.arg>> \in r.err
    [] e.op = "name" -> e.got = e.ns \o "#" \o e.n
    [] OTHER -> FALSE
=============================================================================
