------------------------------ MODULE MC_Apply ------------------------------
(***************************************************************************)
(* Every history of definitions, references and trait applications on one   *)
(* shape, up to a length: order does not matter.  Prints every history.     *)
(***************************************************************************)
EXTENDS Model, Json, SequencesExt
CONSTANTS Depth

A == "ns.a#A"
X == "t.t#x"
Y == "t.t#y"
One == Val("int", "1")
Two == Val("int", "2")
Struct == [Blank("structure") EXCEPT !.mem = "m" :> [t |-> "smithy.api#String", traits |-> X :> One]]
Add(id, sh) == [op |-> "add_shape", id |-> id, sh |-> sh]
App(v) == [op |-> "apply", id |-> A, trait |-> X, val |-> v, how |-> IF v = Absent THEN "bare" ELSE "value"]
Adds ==
  {Add(A, Blank("string")), Add(A, WithTraits(Blank("string"), X :> One)), Add(A, Struct),
   Add(A, WithTraits(Struct, Y :> Absent)),
   Add(A, Blank("unresolved")), Add(A, WithTraits(Blank("unresolved"), X :> One)),
   Add(A, WithTraits(Blank("unresolved"), X :> Two)), Add(A, WithTraits(Blank("unresolved"), X :> Arr(<<One>>))),
   Add(A, WithTraits(Blank("unresolved"), X :> One @@ Y :> Absent)),
   Add(A, WithTraits(Blank("string"), X :> Arr(<<Two>>)))}
Others ==
  {App(One), App(Arr(<<Two>>)), App(Absent), Add("ns.a#A$m", Blank("unresolved")), Add("ns.a#A$m", Blank("string")),
   [op |-> "append_traits", id |-> A, traits |-> X :> One @@ Y :> Two],
   [op |-> "apply", id |-> A, trait |-> "t.t#x$m", val |-> Absent, how |-> "value"],
   [op |-> "remove_trait", id |-> A, trait |-> X]}
Ops == Adds \cup Others

\* <<ok, model>>
Step(m, e) ==
  CASE e.op = "add_shape" -> <<AddShapeConflicts(m, e.id, e.sh) = {}, AddShape(m, e.id, e.sh)>>
    [] e.op = "apply" -> LET c == ApplyConflicts(m, e.id, e.trait :> e.val) IN
                           <<c = {}, IF c = {} THEN Apply(m, e.id, e.trait :> e.val) ELSE m>>
    [] e.op = "append_traits" -> LET c == ApplyConflicts(m, e.id, e.traits) IN
                           <<c = {}, IF c = {} THEN Apply(m, e.id, e.traits) ELSE m>>
    [] OTHER -> <<TRUE, IF Has(m.shapes, e.id) THEN [m EXCEPT !.shapes[e.id].traits = Del(@, e.trait)] ELSE m>>

VARIABLES m, hist, ok
Init == m = EmptyModel /\ hist = <<>> /\ ok = TRUE
Next == /\ Len(hist) < Depth /\ ok
        /\ \E e \in Ops : LET s == Step(m, e) IN
             /\ hist' = Append(hist, e)
             /\ ok' = s[1]
             /\ m' = IF s[1] THEN s[2] ELSE m
             /\ (Len(hist) + 1 = Depth \/ ~s[1]) => PrintT("CASE " \o ToJson([ops |-> hist']))

Fold(h) ==
  LET f[n \in 0..Len(h)] == IF n = 0 THEN <<TRUE, EmptyModel>>
        ELSE IF ~f[n-1][1] THEN f[n-1]
        ELSE LET s == Step(f[n-1][2], h[n]) IN IF s[1] THEN s ELSE <<FALSE, EmptyModel>>
  IN f[Len(h)]
Perms(h) == {[n \in 1..Len(h) |-> h[p[n]]] : p \in Permutations(1..Len(h))}
\* Definitions, references and the traits that come with them commute.
Commute == (\A n \in 1..Len(hist) : hist[n].op = "add_shape") =>
  LET r == Fold(hist) IN \A h \in Perms(hist) : LET q == Fold(h) IN
     q[1] = r[1] /\ (r[1] => SameShapes(r[2].shapes, q[2].shapes))
\* Once defined, defined; traits only grow unless removed.
Keeps == [][/\ \A id \in Defined(m) : id \in Defined(m')
            /\ (hist' # hist /\ Last(hist').op # "remove_trait") =>
                 \A id \in DOMAIN m.shapes : DOMAIN m.shapes[id].traits \subseteq DOMAIN m'.shapes[id].traits]_<<m, hist, ok>>
=============================================================================
