---------------------------- MODULE MachineTrace ----------------------------
(***************************************************************************)
(* Trace validation of the model machine: every event recorded from the     *)
(* real code must be a transition of the specification.                     *)
(***************************************************************************)
EXTENDS Queries, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, m

Res(e) == <<e.r, e.err, e.arg>>
Succeeds(conflicts) == conflicts = {}
\* conflicts: what may be reported; next: the state after success; partial(p): allowed after failure
Outcome(e, conflicts, next, partial(_)) ==
  IF conflicts = {} THEN Res(e) = OkRes /\ e.post = next
  ELSE e.r = "err" /\ <<e.err, e.arg>> \in conflicts /\ partial(e.post)

Conforms(e) ==
  CASE e.op = "new" -> Res(e) = OkRes /\ e.post = e.init
    [] e.op = "merge" ->
         Outcome(e, MergeConflicts(m, e.other), Merge(m, e.other), LAMBDA p : MergePartial(m, e.other, p))
    [] e.op = "add_meta" ->
         Outcome(e, AddMetaConflicts(m, e.key, e.val), AddMeta(m, e.key, e.val), LAMBDA p : p = m)
    [] e.op = "add_shape" ->
         Outcome(e, AddShapeConflicts(m, e.id, e.sh), AddShape(m, e.id, e.sh),
                 LAMBDA p : MergePartial(m, [EmptyModel EXCEPT !.shapes = e.id :> e.sh], p))
    [] e.op = "apply" ->
         LET ts == e.trait :> e.val IN
         Outcome(e, ApplyConflicts(m, e.id, ts), Apply(m, e.id, ts), LAMBDA p : p = m)
    [] e.op = "append_traits" ->
         Outcome(e, ApplyConflicts(m, e.id, e.traits), Apply(m, e.id, e.traits),
                 LAMBDA p : ApplyPartial(m, e.id, e.traits, p))
    [] e.op = "remove_trait" ->
         /\ Res(e) = OkRes
         /\ e.post = IF Has(m.shapes, e.id) THEN [m EXCEPT !.shapes[e.id].traits = Del(@, e.trait)] ELSE m
    [] e.op = "remove_meta" -> Res(e) = OkRes /\ e.post = [m EXCEPT !.meta = Del(@, e.key)]
    [] e.op = "remove_shape" -> Res(e) = OkRes /\ e.post = [m EXCEPT !.shapes = Del(@, e.id)]
    [] e.op = "body" ->
         IF ~Has(m.shapes, e.id) THEN Res(e) = <<"err", "NoShape", "">> /\ e.post = m
         ELSE IF BodyApplies(m.shapes[e.id], e)
              THEN Res(e) = OkRes /\ e.post = [m EXCEPT !.shapes[e.id] = BodyMut(@, e)]
              ELSE Res(e) = <<"err", "NoSuch", "">> /\ e.post = m
    [] e.op = "set_body" ->
         IF ~Has(m.shapes, e.id) THEN Res(e) = <<"err", "NoShape", "">> /\ e.post = m
         ELSE Res(e) = OkRes /\ e.post = [m EXCEPT !.shapes[e.id] = [e.sh EXCEPT !.traits = m.shapes[e.id].traits]]
    [] e.op = "query" -> QueriesAgree(m, e.pool, e.q)
    [] OTHER -> FALSE

Judge(n) == IF Conforms(T[n]) THEN TRUE ELSE PrintT("NONCONF " \o ToString(n))
After(n) == IF Has(T[n], "post") THEN T[n].post ELSE m

Init ==
  /\ i \in {n \in 1..Len(T) : n = 1 \/ T[n].op = "new"}
  /\ m = IF Has(T[i], "post") THEN T[i].post ELSE EmptyModel
  /\ Judge(i)
Next ==
  /\ i < Len(T)
  /\ T[i + 1].op # "new"
  /\ i' = i + 1
  /\ m' = After(i + 1)
  /\ Judge(i + 1)
Spec == Init /\ [][Next]_<<i, m>>
=============================================================================
