------------------------------- MODULE MC_Idl -------------------------------
(* Files of a few statements, of every form, laid out in every way: the calls  *)
(* a text denotes are those it was written for, whatever its layout and order. *)
EXTENDS IdlText, Json
CONSTANTS Layouts, Pair

D == S!Join(<<"Some words.", "", "More \"words\" \\d">>, "\n")
Doc == [n |-> "", v |-> Absent, f |-> "documentation", a |-> <<D>>]
A(n, v) == Applied1(n, v)
Str1 == "String"
Vals == {Obj(NoFn), Null, Str("v"), Str("x\"y\\z\nw\tend"), Str(""), Str("o.p#X"), Val("int", "-7"), Val("int", "9223372036854775807"),
         Val("float", "5e-1"), Val("float", "1e300"), Val("bool", "true"), Val("bool", "false"), Arr(<<>>), Arr(<<Str("a"), Arr(<<Null>>)>>),
         Obj("a" :> Obj(NoFn) @@ "b c" :> Val("int", "1")), Obj("true" :> Str("true"))}
TraitLists2 == {<<>>, <<Doc>>, <<A("required", Obj(NoFn))>>, <<Doc, A("o.p#t", Str("v")), A("t", Arr(<<Str("x")>>))>>,
                <<A("t", Arr(<<Null>>)), A("t", Arr(<<Str("x")>>))>>, <<A("t", Null), A("t", Str("x"))>>}
M(n, t, ts) == [n |-> n, t |-> t, traits |-> ts]
Names == {"A", "B", "X", "String", "o.p#X", "Nowhere", "trueish"}
Few == {"B", "o.p#X", "String"}
Dc(n, kind) == Decl1(kind, n, <<>>)
Bodies ==
  {Dc("A", k) : k \in SimpleKinds \cup {"structure", "union", "operation", "resource"}}
  \cup {[Dc("A", k) EXCEPT !.mem = <<M("member", t, ts)>>] : k \in {"list", "set"}, t \in Few, ts \in TraitLists2}
  \cup {[Dc("A", "map") EXCEPT !.mem = <<M("key", Str1, ts), M("value", "X", us)>>] : ts, us \in TraitLists2}
  \cup {[Dc("A", k) EXCEPT !.mem = <<M("string", n, ts), M("list", Str1, <<>>)>>] : k \in {"structure", "union"}, n \in Names, ts \in TraitLists2}
  \cup {[Dc("A", "service") EXCEPT !.ver = "2 \"1", !.refs["operations"] = q, !.refs["resources"] = r, !.ren = rn] :
          q, r \in {<<>>, <<"X", "o.p#X">>, <<"B">>}, rn \in {NoFn, "o.p#X" :> "Y", "o.p#X" :> "Y" @@ "q#Z" :> "W"}}
  \cup {[Dc("A", "operation") EXCEPT !.refs["input"] = <<n>>, !.refs["output"] = <<"X">>, !.refs["errors"] = q] : n \in Names, q \in {<<>>, <<"B", "B">>}}
  \cup {[Dc("A", "resource") EXCEPT !.refs[r] = <<n>>, !.idents = i] :
          r \in OptRoles("resource") \cup ArrayRoles("resource"), n \in Few, i \in {NoFn, "id" :> "String" @@ "true" :> "B"}}
Decls == Bodies \cup {[Dc("A", k) EXCEPT !.traits = <<A("o.p#t", v)>>] : k \in {"string", "operation"}, v \in Vals}
         \cup {[Dc("A", "structure") EXCEPT !.traits = ts] : ts \in TraitLists2}
Meta1 == {[Call EXCEPT !.c = "meta", !.n = k, !.v = v] : k \in {"k", "k l", "true"}, v \in Vals}
Apply1 == {[Call EXCEPT !.c = "apply", !.n = n, !.traits = <<t>>] :
            n \in {"A", "B", "o.p#X", "X", "A$string", "A$nope", "n.s#A$list"}, t \in {A("t", Arr(<<Str("x")>>)), A("o.p#t", Null), A("required", Obj(NoFn))}}
Use1 == {[Call EXCEPT !.c = "use", !.n = n] : n \in {"o.p#X", "q#X", "o.p#B", "q#t"}}
Second == {Dc("B", "string")} \cup Meta1 \cup Apply1 \cup Use1

VARIABLES b, how, lay
vars == <<b, how, lay>>
Init == b = Start("n.s", "1.0") /\ how = 0 /\ lay = 0
Emit == PrintT("CASE " \o ToJson([text |-> Text(b', how', lay')]))
Firsts == Decls \cup Meta1 \cup Apply1 \cup Use1
\* The first statement alone, in every layout; then with a second, before or after it, in one.
Next ==
  \/ /\ lay = 0
     /\ \E c \in Firsts, h \in {0, 1}, l \in Layouts : b' = Do(b, c) /\ how' = h /\ lay' = l
     /\ Emit
  \/ /\ lay = 1 /\ how = 0 /\ Len(b.calls) = 1 /\ b.calls[1] \in Pair
     /\ \E c \in Second : b' \in {Do(b, c), [b EXCEPT !.calls = <<c>> \o @]}
     /\ how' = 0 /\ lay' = 2
     /\ Emit
PairDecls == {c \in Bodies : c.traits = <<>> /\ c.kind \in {"structure", "list", "service"} /\ c.ren = NoFn
                             /\ \A i \in 1..Len(c.mem) : c.mem[i].traits = <<>>}
             \cup {[Dc("A", "structure") EXCEPT !.traits = <<A("t", Arr(<<Null>>))>>]}
             \cup {[Call EXCEPT !.c = "meta", !.n = "k", !.v = v] : v \in {Null, Arr(<<Null>>)}}
PairSmall == {c \in PairDecls : c.kind # "service" /\ Len(c.mem) < 2}

Read == File(Tokens(Text(b, how, lay), [x \in {"0008"} |-> " "]))
\* What was written is what is read.
Metas == Gathered(SelectSeq(b.calls, LAMBDA c : c.c = "meta"), <<>>)
Meant == lay # 0 => Read.ok = Metas.ok /\ (Metas.ok => Read.b = Ordered2([b EXCEPT !.calls = Metas.v \o SelectSeq(@, LAMBDA c : c.c # "meta")]))
\* The two orders of two statements mean the same (but for what is applied twice).
OrderFree ==
  Len(b.calls) = 2 =>
    LET x == b.calls[1]
        y == b.calls[2]
    IN (x.c # y.c \/ x.c = "decl") => SameOutcome(Build(Ordered2(b)), Build(Ordered2([b EXCEPT !.calls = <<y, x>>])))
=============================================================================
