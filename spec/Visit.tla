------------------------------- MODULE Visit -------------------------------
(***************************************************************************)
(* A walk over a model: a machine whose steps are the calls on the visitor. *)
(* Every metadata key and every shape gets one call, in some order; the     *)
(* calls for the members of a shape come directly after the call for it.    *)
(* A call that fails is the last.                                           *)
(***************************************************************************)
EXTENDS Lines
CallFor(kind) == CASE kind \in SimpleKinds -> "simple_shape" [] kind = "unresolved" -> "unresolved_id" [] OTHER -> kind

\* The calls due after the call for a shape, as a bag kept in a sequence.
MemberCall(id, n, t, ts) == [cb |-> "member", id |-> id, name |-> n, target |-> t, traits |-> ts, has |-> TRUE]
RefCall(id, n, t) == [cb |-> "member", id |-> id, name |-> n, target |-> t, traits |-> NoFn, has |-> FALSE]
MemberCalls(id, sh) ==
  Each(LAMBDA n : <<MemberCall(id, n, sh.mem[n].t, sh.mem[n].traits)>>, DOMAIN sh.mem)
  \o Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> RefCall(id, r, sh.refs[r][n])], Roles)

Walker(m) == [meta |-> DOMAIN m.meta, shapes |-> DOMAIN m.shapes, due |-> <<>>, stuck |-> FALSE]
Without(xs, n) == SubSeq(xs, 1, n - 1) \o SubSeq(xs, n + 1, Len(xs))
\* The walker after call e, or Stuck when e is not a call it may make.
Stuck == [meta |-> {}, shapes |-> {}, due |-> <<>>, stuck |-> TRUE]
CanCall(m, w, e) ==
  CASE e.cb = "metadata" -> w.due = <<>> /\ e.key \in w.meta /\ e.value = m.meta[e.key]
    [] e.cb = "member" -> \E n \in 1..Len(w.due) : w.due[n] = e
    [] OTHER -> /\ w.due = <<>> /\ e.id \in w.shapes
                /\ e.cb = CallFor(m.shapes[e.id].kind)
                /\ e.shape = m.shapes[e.id]
AfterCall(m, w, e, members) ==
  CASE e.cb = "metadata" -> [w EXCEPT !.meta = @ \ {e.key}]
    [] e.cb = "member" -> [w EXCEPT !.due = Without(@, CHOOSE n \in 1..Len(@) : @[n] = e)]
    [] OTHER -> [w EXCEPT !.shapes = @ \ {e.id}, !.due = IF members THEN MemberCalls(e.id, m.shapes[e.id]) ELSE <<>>]
RECURSIVE Walk(_, _, _, _, _)
Walk(m, w, es, n, members) ==
  IF n > Len(es) THEN w
  ELSE IF ~CanCall(m, w, es[n]) THEN Stuck
  ELSE Walk(m, AfterCall(m, w, es[n], members), es, n + 1, members)
Finished(w) == w.meta = {} /\ w.shapes = {} /\ w.due = <<>>
\* What a visitor that fails at its n-th call (0: never) may have seen, and the outcome.
WalkConforms(m, members, es, fail, r) ==
  LET w == Walk(m, Walker(m), es, 1, members) IN
  /\ ~w.stuck
  /\ IF fail > 0 /\ Len(es) >= fail THEN Len(es) = fail /\ r = <<"err", fail>>
     ELSE Finished(w) /\ r = <<"ok", 0>>
=============================================================================
