--------------------------- MODULE SelectorTrace ---------------------------
EXTENDS Selector, TraceBase
\* What the code made of a text: the structure, or NoTree for an error.
TextOk(r) == Normal(r.tree) = Parse(r.text)
\* A structure: made by each kind of constructor, printed, and parsed from what was printed.
TreeOk(r) ==
  /\ Normal(r.made) = Normal(r.tree)
  /\ Normal(r.built) = Normal(r.tree)
  /\ Normal(r.turned) = Normal(r.tree)
  /\ Parse(r.text) = Normal(r.tree)
  /\ Normal(r.again) = Normal(r.tree)
  /\ r.equal
SelectorConforms(e) ==
  CASE e.op = "texts" -> \A n \in 1..Len(e.rs) : TextOk(e.rs[n])
    [] e.op = "trees" -> \A n \in 1..Len(e.rs) : TreeOk(e.rs[n])
    [] OTHER -> FALSE
=============================================================================
