------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* The line-oriented form of a model: the lines, one for each of its facts. *)
(* The form is the lines in sorted order; here they are a bag, kept as a    *)
(* sequence whose order means nothing.  A string ends its line, so it needs *)
(* no escapes to be read back; the version of a service is escaped, and so  *)
(* is, in a key, what could be taken for the end of the key.                *)
(***************************************************************************)
EXTENDS Model
RECURSIVE Each(_, _)
Each(F(_), S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN F(x) \o Each(F, S \ {x})
RECURSIVE Flat(_)
Flat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Flat(Tail(xs))

Escape(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] OTHER -> c
RECURSIVE EscapeAll(_)
EscapeAll(s) == IF s = "" THEN "" ELSE Escape(Ch(s, 1)) \o EscapeAll(SubSeq(s, 2, Len(s)))
Quoted(s) == "\"" \o EscapeAll(s) \o "\""

\* A key is followed by something that ends it; there, what could be taken for that is escaped.
EscapeKey(c) == CASE c \in {"\\", "<", "}"} -> "\\" \o c [] c = "\n" -> "\\n" [] OTHER -> c
RECURSIVE Key(_)
Key(s) == IF s = "" THEN "" ELSE EscapeKey(Ch(s, 1)) \o Key(SubSeq(s, 2, Len(s)))

RECURSIVE ValueLines(_, _)
ValueLines(p, v) ==
  CASE v.k = "arr" -> IF v.xs = <<>> THEN <<p \o "[]">>
                      ELSE Flat([n \in 1..Len(v.xs) |-> ValueLines(p \o "[" \o ToString(n - 1) \o "]=", v.xs[n])])
    [] v.k = "obj" -> IF DOMAIN v.kv = {} THEN <<p \o "{}">>
                      ELSE Each(LAMBDA k : ValueLines(p \o "{" \o Key(k) \o "}=", v.kv[k]), DOMAIN v.kv)
    [] v.k = "str" -> <<p \o "\"" \o v.s \o "\"">>
    [] v.k = "null" -> <<p \o "()">>
    [] OTHER -> <<p \o v.s>>
TraitLines(p, ts) ==
  Each(LAMBDA t : IF ts[t].k = "absent" THEN <<p \o "::trait::" \o t>> ELSE ValueLines(p \o "::trait::" \o t \o "<=", ts[t]),
       DOMAIN ts)
MemberLines(p, n, mb) == <<p \o "::" \o n \o "=>" \o mb.t>> \o TraitLines(p \o "::" \o n, mb.traits)
\* A property with several values appears under its singular name.
Singular == [r \in Roles |->
  CASE r = "operations" -> "operation" [] r = "resources" -> "resource" [] r = "errors" -> "error"
    [] r = "collectionOperations" -> "collection_operation" [] OTHER -> r]
RefLines(p, sh) ==
  Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> p \o "::" \o Singular[r] \o "=>" \o sh.refs[r][n]], Roles)
ShapeLines(id, sh) ==
  LET p == sh.kind \o "::" \o id IN
  <<p>>
  \o (IF sh.kind = "service" THEN <<p \o "::version<=" \o Quoted(sh.ver)>> ELSE <<>>)
  \o Each(LAMBDA n : MemberLines(p, n, sh.mem[n]), DOMAIN sh.mem)
  \o RefLines(p, sh)
  \o Each(LAMBDA n : <<p \o "::identifier::" \o n \o "=>" \o sh.idents[n]>>, DOMAIN sh.idents)
  \o Each(LAMBDA n : <<p \o "::rename::" \o n \o "<=" \o sh.ren[n]>>, DOMAIN sh.ren)
  \o TraitLines(p, sh.traits)
ModelLines(m) ==
  Each(LAMBDA k : ValueLines("meta::" \o Key(k) \o "<=", m.meta[k]), DOMAIN m.meta)
  \o Each(LAMBDA id : ShapeLines(id, m.shapes[id]), DOMAIN m.shapes)

BagOf(xs) == [x \in ToSet(xs) |-> Cardinality({n \in 1..Len(xs) : xs[n] = x})]
SameBag(xs, ys) == Len(xs) = Len(ys) /\ BagOf(xs) = BagOf(ys)
\* What the form does not keep: the order in which a property lists its values, and the version.
Facts(m) == [meta |-> m.meta,
             shapes |-> [id \in DOMAIN m.shapes |-> [m.shapes[id] EXCEPT !.refs = [r \in Roles |-> BagOf(@[r])]]]]
=============================================================================
