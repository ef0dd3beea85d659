----------------------------- MODULE IdentTrace -----------------------------
EXTENDS Ident, TraceBase

TextOk(s, o) ==
  LET p == ParseSid(s) IN
  /\ o.ident = IsIdent(s) /\ o.ident_from_str = IsIdent(s)
  /\ o.ident_text = (IF IsIdent(s) THEN s ELSE "")
  /\ o.ns = IsNamespace(s) /\ o.ns_from_str = IsNamespace(s)
  /\ o.ns_text = (IF IsNamespace(s) THEN s ELSE "")
  /\ o.ns_parts = (IF IsNamespace(s) THEN Split(s, ".") ELSE <<>>)
  /\ o.sid = p.ok
  /\ o.parts = p
  /\ o.sid_text = (IF p.ok THEN SidText(p) ELSE "")
  /\ p.ok => /\ o.is_member = IsMember(p)
             /\ o.shape_only = SidText(ShapeOnly(p))
             /\ o.with_member = SidText([p EXCEPT !.mem = "zz"])
             /\ o.with_shape = SidText([p EXCEPT !.name = "Zz"])
             /\ o.ways = [n \in 1..4 |-> s]
             /\ o.as_name = [eq |-> TRUE, local |-> FALSE, is_local |-> FALSE, is_qualified |-> TRUE, ns |-> p.ns, name |-> p.name, mem |-> p.mem]
             /\ o.as_local = [eq |-> FALSE, local |-> TRUE, is_local |-> TRUE, is_qualified |-> FALSE, ns |-> "", name |-> p.name, mem |-> ""]
             /\ o.again
  /\ o.source = (IF s \in {"client", "server"} THEN s ELSE "")
  /\ o.in_prelude = (IF IsIdent(s) THEN "smithy.api#" \o s ELSE "")
  /\ o.version = IsVersion(s)
  /\ o.name_kind = NameKind(s)
  /\ o.name_text = (IF NameKind(s) = "error" THEN "" ELSE s)

PairOk(a, b, o) ==
  LET p == ParseSid(a)
      q == ParseSid(b)
      eq == EqSid(p, q)
  IN /\ o.eq = eq /\ o.eq_rev = eq
     /\ eq => o.hash_eq
     /\ o.cmp_eq = eq /\ o.cmp_rev /\ o.in_tree = eq
     /\ o.ns_cmp_eq = EqId(p.ns, q.ns) /\ o.name_cmp_eq = EqId(p.name, q.name)
     /\ o.in_set = eq /\ o.in_map = eq /\ o.in_model = eq
     /\ o.ns_eq = EqId(p.ns, q.ns) /\ o.name_eq = EqId(p.name, q.name)
     /\ o.same_ns = EqId(p.ns, q.ns)
     /\ o.valid_member = IsValidMember(p, q)
     /\ o.is = eq

\* A table of comparisons is that of a total order in which the equal ones are the Same.
Ordered(t, n, Same(_, _)) ==
  /\ \A a, b \in 1..n : /\ t[a][b] \in {"<", "=", ">"}
                        /\ (t[a][b] = "=") = Same(a, b)
                        /\ (t[a][b] = "<") = (t[b][a] = ">")
  /\ \A a, b, d \in 1..n : t[a][b] # ">" /\ t[b][d] # ">" => t[a][d] # ">"
OrderOk(ids, o) ==
  LET n == Len(ids)
      p == [a \in 1..n |-> ParseSid(ids[a])]
      distinct == Cardinality({Lower(ids[a]) : a \in 1..n}) IN
  /\ Ordered(o.ids, n, LAMBDA a, b : EqSid(p[a], p[b]))
  /\ Ordered(o.nss, n, LAMBDA a, b : EqId(p[a].ns, p[b].ns))
  /\ Ordered(o.names, n, LAMBDA a, b : EqId(p[a].name, p[b].name))
  /\ o.counts = <<distinct, distinct, distinct>>
  /\ o.found = [a \in 1..n |-> "yes"]
  /\ o.shapes = Cardinality({Lower(SidText(ShapeOnly(p[a]))) : a \in 1..n})
  /\ o.spaces = Cardinality({Lower(p[a].ns) : a \in 1..n})

IdentConforms(e) ==
  CASE e.op = "texts" -> \A n \in 1..Len(e.texts) : TextOk(e.texts[n], e.out[n])
    [] e.op = "pairs" -> \A n \in 1..Len(e.pairs) : PairOk(e.pairs[n][1], e.pairs[n][2], e.out[n])
    [] e.op = "order" -> OrderOk(e.ids, e.out)
    [] OTHER -> FALSE
=============================================================================
