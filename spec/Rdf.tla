-------------------------------- MODULE Rdf --------------------------------
(***************************************************************************)
(* A model as a graph of triples, and the names of shapes as resource names. *)
(*                                                                          *)
(* A triple is [s, p, o]; s and p are names, s may be a blank node "_:x"; o  *)
(* is [k, v, dt]: a resource ("iri"), a blank node ("blank") or a literal    *)
(* ("lit") with its text and its data type, shortened ("string", "long",     *)
(* "double", "boolean").  The names of the vocabulary are shortened too, to  *)
(* "smithy:name" and "rdf:name".                                             *)
(*                                                                          *)
(* Stated says what a model states; Decode reads a graph back.  That a graph *)
(* decodes to what its model states and has no more triples than that takes   *)
(* is that it states the model's facts and nothing else, whatever the names   *)
(* of its blank nodes.                                                       *)
(***************************************************************************)
EXTENDS Lines, Ident

(**************************** resource names *******************************)
IriOf(id) == LET p == ParseSid(id) IN
  "urn:smithy:" \o p.ns \o ":" \o p.name \o (IF p.mem = "" THEN "" ELSE "/" \o p.mem)
Starts(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre
From(s, n) == IF n > Len(s) THEN "" ELSE SubSeq(s, n, Len(s))
Upto(s, n) == IF n < 1 THEN "" ELSE SubSeq(s, 1, n)
\* The shape a text names, "" for none.
ShapeOf(iri) ==
  IF ~Starts(iri, "urn:smithy:") THEN ""
  ELSE LET r == From(iri, 12) IN
    IF ~HasChar(r, ":") THEN ""
    ELSE LET c == PosOf(r, ":")
             ns == Upto(r, c - 1)
             rest == From(r, c + 1)
             slash == HasChar(rest, "/")
             name == IF slash THEN Upto(rest, PosOf(rest, "/") - 1) ELSE rest
             mem == IF slash THEN From(rest, PosOf(rest, "/") + 1) ELSE ""
         IN IF IsNamespace(ns) /\ IsIdent(name) /\ (slash => IsIdent(mem))
            THEN ns \o "#" \o name \o (IF slash THEN "$" \o mem ELSE "") ELSE ""

(******************************* the graph *********************************)
Iri(v) == [k |-> "iri", v |-> v, dt |-> ""]
Blk(v) == [k |-> "blank", v |-> v, dt |-> ""]
Lit(v, dt) == [k |-> "lit", v |-> v, dt |-> dt]
T3(s, p, o) == [s |-> s, p |-> p, o |-> o]
Nth(n) == "rdf:_" \o ToString(n)
TypeIri(kind) == "smithy:" \o
  (CASE kind = "bigInteger" -> "BigInteger" [] kind = "bigDecimal" -> "BigDecimal"
     [] OTHER -> UpperC(C(kind, 1)) \o SubSeq(kind, 2, Len(kind)))
RoleIri(r) == "smithy:" \o
  (CASE r = "operations" -> "operation" [] r = "resources" -> "resource" [] r = "errors" -> "error"
     [] r = "collectionOperations" -> "collectionOperation" [] OTHER -> r)
DataType(k) == CASE k = "int" -> "long" [] k = "float" -> "double" [] k = "bool" -> "boolean" [] OTHER -> "string"
KindOfType(dt) == CASE dt = "long" -> "int" [] dt = "double" -> "float" [] dt = "boolean" -> "bool" [] OTHER -> "str"

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* The triples for value v as the object of s and p; at names the blank nodes.
RECURSIVE OfValue(_, _, _, _)
OfValue(s, p, at, v) ==
  CASE v.k = "arr" -> <<T3(s, p, Blk(at)), T3(at, "rdf:type", Iri("rdf:Seq"))>>
                      \o Flat([n \in 1..Len(v.xs) |-> OfValue(at, Nth(n), at \o "." \o ToString(n), v.xs[n])])
    [] v.k = "obj" -> LET ks == SeqOf(DOMAIN v.kv) IN
                      <<T3(s, p, Blk(at)), T3(at, "rdf:type", Iri("rdf:Bag"))>>
                      \o Flat([n \in 1..Len(ks) |->
                           LET b == at \o "." \o ToString(n) IN
                           <<T3(at, Nth(n), Blk(b)), T3(b, "smithy:key", Lit(ks[n], "string"))>>
                           \o OfValue(b, "smithy:value", b \o ".v", v.kv[ks[n]])])
    [] v.k = "null" -> <<T3(s, p, Iri("smithy:null"))>>
    [] OTHER -> <<T3(s, p, Lit(v.s, DataType(v.k)))>>
OfTraits(s, at, ts) ==
  Each(LAMBDA t : LET b == at \o "@" \o t IN
         <<T3(s, "smithy:apply", Blk(b)), T3(b, "smithy:trait", Iri(IriOf(t)))>>
         \o (IF ts[t].k = "absent" THEN <<>> ELSE OfValue(b, "smithy:value", b \o "=", ts[t])), DOMAIN ts)
OfMembers(s, id, sh) ==
  Each(LAMBDA n : LET b == "_:" \o id \o "$" \o n IN
         <<T3(s, "smithy:member", Blk(b)), T3(b, "smithy:name", Lit(n, "string")), T3(b, "rdf:type", Iri(IriOf(sh.mem[n].t)))>>
         \o OfTraits(b, b, sh.mem[n].traits), DOMAIN sh.mem)
OfIdents(s, id, sh) ==
  LET ns == SeqOf(DOMAIN sh.idents)
      at == "_:" \o id \o "#ids" IN
  IF ns = <<>> THEN <<>> ELSE
  <<T3(s, "smithy:identifiers", Blk(at)), T3(at, "rdf:type", Iri("rdf:Bag"))>>
  \o Flat([n \in 1..Len(ns) |-> LET b == at \o "." \o ToString(n) IN
       <<T3(at, Nth(n), Blk(b)), T3(b, "smithy:key", Lit(ns[n], "string")), T3(b, "smithy:target", Iri(IriOf(sh.idents[ns[n]])))>>])
OfRenames(s, id, sh) ==
  LET xs == SeqOf(DOMAIN sh.ren)
      at == "_:" \o id \o "#ren" IN
  IF xs = <<>> THEN <<>> ELSE
  <<T3(s, "smithy:rename", Blk(at)), T3(at, "rdf:type", Iri("rdf:Bag"))>>
  \o Flat([n \in 1..Len(xs) |-> LET b == at \o "." \o ToString(n) IN
       <<T3(at, Nth(n), Blk(b)), T3(b, "smithy:shape", Iri(IriOf(xs[n]))), T3(b, "smithy:name", Lit(sh.ren[xs[n]], "string"))>>])
OfShape(root, id, sh) ==
  LET s == IriOf(id) IN
  <<T3(root, "smithy:shape", Iri(s)), T3(s, "rdf:type", Iri(TypeIri(sh.kind)))>>
  \o (IF sh.kind = "service" THEN <<T3(s, "smithy:version", Lit(sh.ver, "string"))>> ELSE <<>>)
  \o OfMembers(s, id, sh)
  \o Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> T3(s, RoleIri(r), Iri(IriOf(sh.refs[r][n])))], Roles)
  \o OfIdents(s, id, sh) \o OfRenames(s, id, sh)
  \o OfTraits(s, "_:" \o id, sh.traits)
Encode(m, root) ==
  <<T3(root, "rdf:type", Iri("smithy:Model")), T3(root, "smithy:smithy_version", Lit(m.ver, "string"))>>
  \o Each(LAMBDA id : OfShape(root, id, m.shapes[id]), {id \in DOMAIN m.shapes : m.shapes[id].kind # "unresolved"})

(**************************** reading it back ******************************)
\* A graph as a function: of every subject the triples it is the subject of.
BySubject(g) == [s \in {t.s : t \in g} |-> {t \in g : t.s = s}]
Of(f, s) == IF Has(f, s) THEN f[s] ELSE {}
Objects(f, s, p) == {t.o : t \in {u \in Of(f, s) : u.p = p}}
Only(S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE [k |-> "none", v |-> "", dt |-> ""]
The(f, s, p) == Only(Objects(f, s, p))
Text(f, s, p) == LET o == The(f, s, p) IN IF o.k = "lit" /\ o.dt = "string" THEN o.v ELSE "?"
Name(f, s, p) == LET o == The(f, s, p) IN IF o.k = "iri" THEN o.v ELSE "?"
Bad == Val("bad", "")
\* The members of a container in their order, none when they are not numbered from 1.
Numbered(f, s) ==
  LET ts == {t \in Of(f, s) : t.p # "rdf:type"}
      n == Cardinality(ts) IN
  IF {t.p : t \in ts} = {Nth(k) : k \in 1..n} THEN [k \in 1..n |-> (CHOOSE t \in ts : t.p = Nth(k)).o] ELSE <<Bad>>
RECURSIVE ValueAt(_, _)
ValueAt(f, o) ==
  CASE o.k = "lit" -> Val(KindOfType(o.dt), o.v)
    [] o.k = "iri" -> IF o.v = "smithy:null" THEN Null ELSE Bad
    [] o.k = "blank" ->
         LET t == The(f, o.v, "rdf:type")
             xs == Numbered(f, o.v) IN
         IF \E n \in 1..Len(xs) : xs[n].k \in {"bad", "none"} THEN Bad
         ELSE IF t = Iri("rdf:Seq") THEN Arr([n \in 1..Len(xs) |-> ValueAt(f, xs[n])])
         ELSE IF t = Iri("rdf:Bag")
              THEN LET keys == {Text(f, xs[n].v, "smithy:key") : n \in 1..Len(xs)} IN
                   IF Cardinality(keys) # Len(xs) THEN Bad
                   ELSE Obj([k \in keys |-> LET n == CHOOSE j \in 1..Len(xs) : Text(f, xs[j].v, "smithy:key") = k
                                            IN ValueAt(f, The(f, xs[n].v, "smithy:value"))])
              ELSE Bad
    [] OTHER -> Bad
TraitsAt(f, s) ==
  LET bs == Objects(f, s, "smithy:apply")
      id(b) == ShapeOf(Name(f, b.v, "smithy:trait")) IN
  [t \in {id(b) : b \in bs} |->
     LET b == CHOOSE x \in bs : id(x) = t IN
     IF Objects(f, b.v, "smithy:value") = {} THEN Absent ELSE ValueAt(f, The(f, b.v, "smithy:value"))]
MembersAt(f, s) ==
  LET bs == Objects(f, s, "smithy:member")
      name(b) == Text(f, b.v, "smithy:name") IN
  [n \in {name(b) : b \in bs} |->
     LET b == CHOOSE x \in bs : name(x) = n IN
     [t |-> ShapeOf(Name(f, b.v, "rdf:type")), traits |-> TraitsAt(f, b.v)]]
\* The pairs of a bag: each under predicate key and val, read by K and V.
PairsAt(f, s, p, K(_), V(_)) ==
  LET b == The(f, s, p).v
      xs == IF Objects(f, s, p) = {} THEN <<>>
            ELSE IF The(f, b, "rdf:type") = Iri("rdf:Bag") THEN Numbered(f, b) ELSE <<Bad>> IN
  IF \E n \in 1..Len(xs) : xs[n].k # "blank" THEN [x \in {"?"} |-> "?"]
  ELSE [x \in {K(xs[n].v) : n \in 1..Len(xs)} |->
     LET n == CHOOSE j \in 1..Len(xs) : K(xs[j].v) = x IN V(xs[n].v)]
ShapeAt(f, s) ==
  [type |-> Name(f, s, "rdf:type"),
   ver |-> IF Objects(f, s, "smithy:version") = {} THEN "" ELSE Text(f, s, "smithy:version"),
   mem |-> MembersAt(f, s),
   refs |-> [r \in Roles |-> {IF o.k = "iri" THEN ShapeOf(o.v) ELSE "?" : o \in Objects(f, s, RoleIri(r))}],
   idents |-> PairsAt(f, s, "smithy:identifiers", LAMBDA b : Text(f, b, "smithy:key"), LAMBDA b : Name(f, b, "smithy:target")),
   ren |-> PairsAt(f, s, "smithy:rename", LAMBDA b : Name(f, b, "smithy:shape"), LAMBDA b : Text(f, b, "smithy:name")),
   traits |-> TraitsAt(f, s)]
Decode(g, root) ==
  LET f == BySubject(g)
      shapes == Objects(f, root, "smithy:shape") IN
  [type |-> Name(f, root, "rdf:type"), ver |-> Text(f, root, "smithy:smithy_version"),
   shapes |-> [id \in {ShapeOf(o.v) : o \in shapes} |-> ShapeAt(f, IriOf(id))]]
\* What a model states in this form.
ShapeStated(sh) ==
  [type |-> TypeIri(sh.kind), ver |-> IF sh.kind = "service" THEN sh.ver ELSE "",
   mem |-> sh.mem,
   refs |-> [r \in Roles |-> ToSet(sh.refs[r])],
   idents |-> [n \in DOMAIN sh.idents |-> IriOf(sh.idents[n])],
   ren |-> [x \in {IriOf(y) : y \in DOMAIN sh.ren} |-> sh.ren[CHOOSE y \in DOMAIN sh.ren : IriOf(y) = x]],
   traits |-> sh.traits]
Stated(m) ==
  [type |-> "smithy:Model", ver |-> m.ver,
   shapes |-> [id \in {x \in DOMAIN m.shapes : m.shapes[x].kind # "unresolved"} |-> ShapeStated(m.shapes[id])]]
\* A graph states the facts of m: it reads back, each fact is there once, and there are no others.
States(g, root, m) ==
  /\ Decode(ToSet(g), root) = Stated(m)
  /\ LET e == Encode(m, root) IN
       Len(g) <= Len(e) /\ Cardinality(ToSet(g)) = Cardinality(ToSet(e))
=============================================================================
