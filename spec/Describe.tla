------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* What diagrams and documents of a model show.                              *)
(*  - the graph: nodes [id, type, version] and edges [s, t, key, val]        *)
(*  - the class diagram: packages of classes with lines, notes, relations    *)
(*  - the document: sections of namespaces, sub-sections of shapes, and in   *)
(*    them paragraphs, list items and rows of trait tables                   *)
(***************************************************************************)
EXTENDS Lines

(******************************* the graph *********************************)
GNodes(m) == {[id |-> id, type |-> m.shapes[id].kind, version |-> m.shapes[id].ver] : id \in Defined(m)}
Edge(s, t, key, val) == [s |-> s, t |-> t, key |-> key, val |-> val]
RefEdges(id, sh) == Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> Edge(id, sh.refs[r][n], "member", r)], Roles)
EdgesOf(id, sh) ==
  Each(LAMBDA t : <<Edge(id, t, "trait", "true")>>, DOMAIN sh.traits)
  \o Each(LAMBDA n : <<Edge(id, sh.mem[n].t, "member", n)>>, DOMAIN sh.mem)
  \o RefEdges(id, sh)
GEdges(m) == Each(LAMBDA id : EdgesOf(id, m.shapes[id]), Defined(m))
\* The graph determines members, references and which traits are applied.
Rebuilt(m, nodes, edges) ==
  [id \in {n.id : n \in nodes} |->
     LET es == SelectSeq(edges, LAMBDA e : e.s = id)
         ms == {es[n].val : n \in {k \in 1..Len(es) : es[k].key = "member"}}
     IN [traits |-> {es[n].t : n \in {k \in 1..Len(es) : es[k].key = "trait"}},
         to |-> [v \in ms |-> BagOf([n \in 1..Len(SelectSeq(es, LAMBDA e : e.val = v)) |-> SelectSeq(es, LAMBDA e : e.val = v)[n].t])]]]

(*************************** the class diagram *****************************)
OneLine(s) ==
  LET F[n \in 0..Len(s)] == IF n = 0 THEN "" ELSE F[n-1] \o
        (CASE Ch(s, n) = "\n" -> "\\n" [] Ch(s, n) = "\r" -> "" [] OTHER -> Ch(s, n))
  IN F[Len(s)]
Trait(n) == "smithy.api#" \o n
Drawn(sh) == sh.kind \in SimpleKinds \cup {"structure", "union", "service", "resource"}
Marker(sh) ==
  CASE sh.kind \in SimpleKinds -> "dataType"
    [] sh.kind \in {"service", "resource"} -> sh.kind
    [] Has(sh.traits, Trait("trait")) -> "annotation"
    [] Has(sh.traits, Trait("error")) -> "error"
    [] sh.kind = "union" -> "union"
    [] OTHER -> ""
TraitLine(t, v) ==
  CASE v.k \in {"absent", "null"} -> "@" \o t
    [] v.k = "str" -> "@" \o t \o " = \"" \o OneLine(v.s) \o "\""
    [] v.k = "arr" -> "@" \o t \o " = [ .. ]"
    [] v.k = "obj" -> "@" \o t \o " = { .. }"
    [] OTHER -> "@" \o t \o " = " \o v.s
Shown(sh) == {t \in DOMAIN sh.traits : t \notin {Trait("error"), Trait("documentation")}}
TypeName(m, t) ==
  IF ~Has(m.shapes, t) THEN t
  ELSE LET sh == m.shapes[t] IN
    CASE sh.kind \in SimpleKinds -> sh.kind
      [] sh.kind = "list" -> "List<" \o NameOf(sh.mem["member"].t) \o ">"
      [] sh.kind = "set" -> "Set<" \o NameOf(sh.mem["member"].t) \o ">"
      [] sh.kind = "map" -> "Map<" \o NameOf(sh.mem["key"].t) \o ", " \o NameOf(sh.mem["value"].t) \o ">"
      [] OTHER -> t
OpLine(m, name, op) ==
  LET isop == Has(m.shapes, op) /\ m.shapes[op].kind = "operation"
      in == IF isop THEN m.shapes[op].refs["input"] ELSE <<>>
      out == IF isop THEN m.shapes[op].refs["output"] ELSE <<>>
  IN name \o "(in: " \o (IF in = <<>> THEN "" ELSE TypeName(m, in[1])) \o ")"
     \o (IF out = <<>> THEN "" ELSE ": " \o TypeName(m, out[1]))
\* Lines of the body, each with the heading it is below.
BodyLines(m, sh) ==
  CASE sh.kind \in {"structure", "union"} -> Each(LAMBDA n : <<<<"", n \o ": " \o sh.mem[n].t>>>>, DOMAIN sh.mem)
    [] sh.kind = "service" -> <<<<"", "version: string = \"" \o OneLine(sh.ver) \o "\"">>>>
         \o [n \in 1..Len(sh.refs["operations"]) |-> <<"", OpLine(m, sh.refs["operations"][n], sh.refs["operations"][n])>>]
    [] sh.kind = "resource" ->
         Each(LAMBDA n : <<<<"", n \o ": " \o sh.idents[n]>>>>, DOMAIN sh.idents)
         \o Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> <<"", OpLine(m, r, sh.refs[r][n])>>], OptRoles("resource"))
         \o Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> <<r, OpLine(m, sh.refs[r][n], sh.refs[r][n])>>], {"operations", "collectionOperations"})
    [] OTHER -> <<>>
ClassLines(m, sh) == Each(LAMBDA t : <<<<"", TraitLine(t, sh.traits[t])>>>>, Shown(sh)) \o BodyLines(m, sh)
ClassNotes(sh) ==
  IF Has(sh.traits, Trait("documentation")) /\ sh.traits[Trait("documentation")].k = "str"
  THEN <<sh.traits[Trait("documentation")].s>> ELSE <<>>
Classes(m) == {id \in Defined(m) : Drawn(m.shapes[id])}
ClassIs(m, c) ==
  LET sh == m.shapes[c.id] IN
  /\ c.pkg = NsOf(c.id) /\ c.marker = Marker(sh)
  /\ SameBag(c.lines, ClassLines(m, sh))
  /\ c.notes = ClassNotes(sh)
Relations(m, expand) ==
  Each(LAMBDA id : [n \in 1..Len(m.shapes[id].refs["resources"]) |-> <<id, "*--", m.shapes[id].refs["resources"][n]>>], Classes(m))
  \o (IF ~expand THEN <<>> ELSE
      Each(LAMBDA id : IF m.shapes[id].kind \in SimpleKinds THEN <<<<"smithy.api." \o m.shapes[id].kind, "<|--", id>>>> ELSE <<>>, Classes(m))
      \o Each(LAMBDA ns : <<<<ns, "..>", "smithy.api">>>>, Namespaces(m)))

(****************************** the document *******************************)
Contains(s, sub) == \E k \in 1..(Len(s) - Len(sub) + 1) : SubSeq(s, k, k + Len(sub) - 1) = sub
TraitName(t) == IF NsOf(t) = "smithy.api" THEN NameOf(t) ELSE t
Row(id, path, v) == <<id, path, v>>
RECURSIVE ValueRows(_, _, _)
ValueRows(id, path, v) ==
  CASE v.k = "arr" /\ v.xs # <<>> ->
         Flat([n \in 1..Len(v.xs) |-> ValueRows(id, path \o "[" \o ToString(n - 1) \o "]", v.xs[n])])
    [] v.k = "obj" /\ DOMAIN v.kv # {} -> Each(LAMBDA k : ValueRows(id, path \o "." \o k, v.kv[k]), DOMAIN v.kv)
    [] v.k \in {"arr", "obj", "null", "absent"} -> <<Row(id, path, "")>>
    [] OTHER -> <<Row(id, path, v.s)>>
DocTraits == {Trait("documentation"), Trait("externalDocumentation")}
TraitRows(ts) == Each(LAMBDA t : ValueRows(TraitName(t), "", ts[t]), DOMAIN ts \ DocTraits)
\* A text that has to be there: the words it has to contain, whether it is exactly the one word,
\* the heading it is below, and what it refers to, if anything.
Item(words, exact, below) == [words |-> words, exact |-> exact, below |-> below, to |-> ""]
Ref(words, t, below) == [words |-> words, exact |-> FALSE, below |-> below, to |-> t]
Says(ts, below) ==
  (IF Has(ts, Trait("documentation")) /\ ts[Trait("documentation")].k = "str"
   THEN <<Item({ts[Trait("documentation")].s}, TRUE, below)>> ELSE <<>>)
  \o (IF Has(ts, Trait("externalDocumentation")) /\ ts[Trait("externalDocumentation")].k = "obj"
         /\ DOMAIN ts[Trait("externalDocumentation")].kv # {}
      THEN LET kv == ts[Trait("externalDocumentation")].kv IN
           <<Item(DOMAIN kv \cup {kv[k].s : k \in {j \in DOMAIN kv : kv[j].k = "str"}}, FALSE, below)>> ELSE <<>>)
Link(id, t) == IF NsOf(id) = NsOf(t) THEN NameOf(t) ELSE t
RefItems(id, sh, r, below) == [n \in 1..Len(sh.refs[r]) |-> Ref({Link(id, sh.refs[r][n])}, sh.refs[r][n], below)]
Items(id, sh) ==
  Says(sh.traits, "")
  \o (CASE sh.kind \in {"list", "set"} -> <<Ref({"Member", Link(id, sh.mem["member"].t)}, sh.mem["member"].t, "")>> \o Says(sh.mem["member"].traits, "")
        [] sh.kind = "map" -> <<Ref({"Key", Link(id, sh.mem["key"].t)}, sh.mem["key"].t, "")>> \o Says(sh.mem["key"].traits, "")
                              \o <<Ref({"value", Link(id, sh.mem["value"].t)}, sh.mem["value"].t, "")>> \o Says(sh.mem["value"].traits, "")
        [] sh.kind \in {"structure", "union"} ->
             Each(LAMBDA n : <<Ref({n, Link(id, sh.mem[n].t)}, sh.mem[n].t, "Members")>> \o Says(sh.mem[n].traits, "Members"), DOMAIN sh.mem)
        [] sh.kind = "service" -> <<Item({"version", sh.ver}, FALSE, "")>>
             \o RefItems(id, sh, "operations", "Operations") \o RefItems(id, sh, "resources", "Resources")
             \o Each(LAMBDA x : <<Item({x, sh.ren[x]}, FALSE, "Renames")>>, DOMAIN sh.ren)
        [] sh.kind = "operation" ->
             [n \in 1..Len(sh.refs["input"]) |-> Ref({"Input", Link(id, sh.refs["input"][n])}, sh.refs["input"][n], "")]
             \o [n \in 1..Len(sh.refs["output"]) |-> Ref({"Output", Link(id, sh.refs["output"][n])}, sh.refs["output"][n], "")]
             \o (IF sh.refs["errors"] = <<>> THEN <<>> ELSE <<Item({"Errors"}, FALSE, "")>>)
             \o RefItems(id, sh, "errors", "")
        [] sh.kind = "resource" ->
             Each(LAMBDA r : [n \in 1..Len(sh.refs[r]) |-> Ref({r, Link(id, sh.refs[r][n])}, sh.refs[r][n], "Resource Operations")], OptRoles("resource"))
             \o RefItems(id, sh, "operations", "Operations")
             \o RefItems(id, sh, "collectionOperations", "Collection Operations")
             \o RefItems(id, sh, "resources", "Resources")
        [] OTHER -> <<>>)
Rows(sh) == TraitRows(sh.traits) \o Each(LAMBDA n : TraitRows(sh.mem[n].traits), DOMAIN sh.mem)
\* A reference within a namespace is a link to the section of the shape, if it has one; no link leads elsewhere.
LabelsOf(d) == Flat([n \in 1..Len(d.nss) |-> [k \in 1..Len(d.nss[n].sections) |->
                  <<d.nss[n].sections[k].label, d.nss[n].ns, d.nss[n].sections[k].name>>]])
LinksOk(m, id, labels, strict, b, x) ==
  IF x.to # "" /\ Has(m.shapes, x.to) /\ x.to \in Defined(m)
  THEN /\ \A n \in 1..Len(b.links) : <<b.links[n], NsOf(x.to), NameOf(x.to)>> \in labels
       /\ NsOf(x.to) = NsOf(id) => b.links # <<>>
  ELSE \A n \in 1..Len(b.links) : \A l \in labels : l[1] # b.links[n] \/ (~strict /\ x.to # "" /\ l[3] = NameOf(x.to))
Fits(m, id, labels, strict, b, x) ==
              /\ LinksOk(m, id, labels, strict, b, x)
              /\ x.below = b.below
              /\ IF x.exact THEN x.words = {b.text} ELSE \A w \in x.words : Contains(b.text, w)
SectionIs(m, ns, labels, strict, s) ==
  \E id \in Defined(m) :
    LET sh == m.shapes[id]
        want == Items(id, sh) IN
    /\ NsOf(id) = ns /\ NameOf(id) = s.name /\ s.kind = sh.kind
    /\ SameBag(s.rows, Rows(sh))
    /\ Len(s.texts) = Len(want)
    /\ \A n \in 1..Len(want) : \E k \in 1..Len(s.texts) : Fits(m, id, labels, strict, s.texts[k], want[n])
    /\ \A k \in 1..Len(s.texts) : \E n \in 1..Len(want) : Fits(m, id, labels, strict, s.texts[k], want[n])
MetaRowOk(m, r) == /\ Has(m.meta, r[1])
                   /\ LET v == m.meta[r[1]] IN
                      CASE v.k = "str" -> Contains(r[2], v.s)
                        [] v.k \in {"int", "float", "bool"} -> r[2] = v.s
                        [] OTHER -> TRUE
\* Sections have labels of their own; the code gives one name in two namespaces one label (known, see
\* pin-label), so only a strict reading tells these apart.
DocumentIs(m, d, strict) ==
  LET labs == LabelsOf(d)
      labels == {labs[n] : n \in 1..Len(labs)} IN
  /\ \A x \in labels, y \in labels : x[1] = y[1] => x = y \/ (~strict /\ x[3] = y[3])
  /\ Contains(d.intro, m.ver)
  /\ {d.mrows[n][1] : n \in 1..Len(d.mrows)} = DOMAIN m.meta /\ Len(d.mrows) = Cardinality(DOMAIN m.meta)
  /\ \A n \in 1..Len(d.mrows) : MetaRowOk(m, d.mrows[n])
  /\ SameBag([n \in 1..Len(d.nss) |-> d.nss[n].ns], Each(LAMBDA ns : <<ns>>, Namespaces(m)))
  /\ \A n \in 1..Len(d.nss) :
       LET secs == d.nss[n].sections
           ids == {id \in Defined(m) : NsOf(id) = d.nss[n].ns} IN
       /\ SameBag([k \in 1..Len(secs) |-> secs[k].name], Each(LAMBDA id : <<NameOf(id)>>, ids))
       /\ \A k \in 1..Len(secs) : SectionIs(m, d.nss[n].ns, labels, strict, secs[k])
=============================================================================
