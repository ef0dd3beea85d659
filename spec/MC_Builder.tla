---------------------------- MODULE MC_Builder ----------------------------
(* Every sequence of calls on a builder up to a length: references resolve by *)
(* the rules whatever the order. Prints every sequence.                       *)
EXTENDS Builder, Json
CONSTANTS Depth, Rich

T0(n) == [n |-> n, v |-> Absent, f |-> "", a |-> <<>>]
TV(n, v) == [T0(n) EXCEPT !.v = v]
TF(f, a) == [T0("") EXCEPT !.f = f, !.a = a]
Decl(n, kind) == [Call EXCEPT !.c = "decl", !.n = n, !.kind = kind]
Use(n) == [Call EXCEPT !.c = "use", !.n = n]
On(n, t) == [Call EXCEPT !.c = "apply", !.n = n, !.traits = <<t>>]
M(n, t, ts) == [n |-> n, t |-> t, traits |-> ts]
Struct(t, tr) == [Decl("S", "structure") EXCEPT !.mem = <<M("m", t, tr)>>]

Targets == {"A", "String", "ns.a#A", "ns.b#A", "Missing"}
Decls ==
  {Decl(n, "string") : n \in {"A", "ns.a#A", "String", "ns.b#A"}}
  \cup {Decl("A", "integer"), [Decl("A", "string") EXCEPT !.traits = <<T0("required")>>],
        [Decl("required", "structure") EXCEPT !.how = 3]}
  \cup {Struct(t, <<>>) : t \in Targets}
  \cup {Struct("String", <<T0("required")>>), Struct("A", <<TF("required", <<>>)>>)}
  \cup (IF Rich THEN {Struct("A", <<T0("A")>>), Struct("ns.a#A$x", <<>>), Decl("A$x", "string"), Decl("ns.a#A$x", "string"),
                      [Decl("L", "list") EXCEPT !.mem = <<M("member", "A", <<>>)>>],
                      [Decl("O", "operation") EXCEPT !.refs["input"] = <<"A">>, !.refs["errors"] = <<"A", "String">>],
                      [Decl("R", "resource") EXCEPT !.idents = "id" :> "A", !.refs["list"] = <<"Missing">>],
                      [Decl("V", "service") EXCEPT !.ver = "1", !.refs["operations"] = <<"A">>, !.ren = "ns.a#A" :> "Z"]}
        ELSE {})
Uses == {Use("ns.b#A"), Use("ns.c#A"), Use("ns.b#String"), Use("ns.b#required"), Use("ns.a#A")}
Applies ==
  {On("ns.a#A", TV("required", Obj(NoFn))), On("A", T0("required")), On("ns.b#String", T0("Missing")),
   On("ns.a#S$m", T0("required")), On("S$m", TV("required", Obj(NoFn)))}
Calls == {c \in Decls \cup Uses \cup Applies : c.n # "A$x"}

VARIABLE b
Init == b = Start("ns.a", "1.0")
Next == /\ Len(b.calls) < Depth
        /\ \E c \in Calls : b' = Do(b, c) /\ (Len(b'.calls) = Depth => PrintT("CASE " \o ToJson(b')))

R == Build(b)
\* Declarations can be made in any order.
OrderFree ==
  \A i \in 1..(Len(b.calls) - 1) :
     (Ordered(b.calls[i]) /\ Ordered(b.calls[i + 1])) \/ SameOutcome(R, Build(Swap(b, i)))
\* The documented rules, each by itself.
Short(n) == ~Qualified(n)
Rules ==
  R.err = {} =>
    /\ \A i \in Of(b, "decl") : Own(b, b.calls[i].n) \in Defined(R.m)
    /\ Defined(R.m) = Declared(b)
    /\ Imports(b) \subseteq DOMAIN R.m.shapes
    /\ \A i \in Of(b, "decl") : LET c == b.calls[i] IN \A k \in 1..Len(c.mem) :
         LET want == c.mem[k].t
             got == R.m.shapes[Own(b, c.n)].mem[c.mem[k].n].t
         IN IF Qualified(want) THEN got = want
            ELSE IF \E u \in Imports(b) : NameOf(u) = want THEN got \in Imports(b) /\ NameOf(got) = want
            ELSE IF "ns.a#" \o want \in Declared(b) THEN got = "ns.a#" \o want
            ELSE IF want = "String" THEN got = "smithy.api#String"
            ELSE got = "ns.a#" \o want /\ got \in Unresolved(R.m)
\* Nothing is there that was not declared, imported, applied to, or referred to.
NothingMore ==
  R.err = {} => \A id \in Unresolved(R.m) \ Imports(b) :
    \/ id \in UnresolvedIn(b)
    \/ \E i \in Of(b, "apply") : ApplyTo(b, b.calls[i].n).id = id
=============================================================================
