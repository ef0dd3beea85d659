------------------------------ MODULE MC_Decls ------------------------------
(* One declaration (or two) of every kind, made in every way the builders      *)
(* offer, with every trait function: the model has exactly what was given.     *)
EXTENDS Builder, Json
CONSTANTS Hows, Both

T0(n) == [n |-> n, v |-> Absent, f |-> "", a |-> <<>>]
TV(n, v) == [T0(n) EXCEPT !.v = v]
TF(f, a) == [T0("") EXCEPT !.f = f, !.a = a]
Decl(n, kind) == [Call EXCEPT !.c = "decl", !.n = n, !.kind = kind]
M(n, t, ts) == [n |-> n, t |-> t, traits |-> ts]
S == "smithy.api#String"
X == "o.p#X"
I == "o.p#I"

SimpleNames == {"Blob", "Boolean", "Document", "String", "Byte", "Short", "Integer", "Long", "Float", "Double",
                "BigInteger", "BigDecimal", "Timestamp"}
Values == {Absent, Null, Str("v"), Str("o.p#X"), Val("int", "-7"), Val("float", "0.5"), Val("bool", "true"), Val("bool", "false"),
           Arr(<<>>), Obj(NoFn), Arr(<<Str("a"), Val("int", "1"), Val("float", "2.5"), Val("bool", "true"), Null, Arr(<<>>)>>),
           Obj("a" :> Str("x") @@ "b" :> Val("int", "1") @@ "c" :> Val("float", "2.5") @@ "d" :> Val("bool", "true") @@ "e" :> Arr(<<Null>>)
               @@ "f" :> Str("o.p#X"))}
Fns ==
  {TF(f, <<>>) : f \in DOMAIN Notes \cup DOMAIN Bare}
  \cup {TF(f, <<"2021-01-02">>) : f \in DOMAIN Texts \ {"error_source"}}
  \cup {TF("error_source", <<x>>) : x \in {"client", "server"}}
  \cup {TF("deprecated", <<x, y>>) : x, y \in {"-", "t"}}
  \cup {TF("external_documentation", <<"a", "b", "c", "d">>)}
  \cup {TF(f, <<x, y>>) : f \in {"length", "range"}, x \in {"0", "3"}, y \in {"-", "9"}}
  \cup {TF(f, <<"-", "9">>) : f \in {"length", "range"}}
  \cup {TF(f, <<"5">>) : f \in {"length_min", "length_max", "range_min", "range_max"}}
  \cup {TF("paginated", <<"-", "b", "c", "d">>), TF("paginated", <<"a", "-", "c", "d">>), TF("paginated", <<"a", "b", "-", "d">>),
        TF("paginated", <<"a", "b", "c", "-">>)}
  \cup {TF("tagged", q) : q \in {<<>>, <<"b", "a">>}}
  \cup {[TF("references", <<>>) EXCEPT !.v = Arr(<<Obj("service" :> Str("o.p#X"))>>)]}
  \cup {TV("o.p#t", v) : v \in Values}
Both2 == {<<TF("tagged", <<"a">>), TF("tagged", <<"b">>)>>, <<TF("title", <<"a">>), TF("title", <<"a">>)>>, <<TF("title", <<"a">>), TF("title", <<"b">>)>>}

Structs == {"structure", "union"}
Bodies ==
  {Decl("A", k) : k \in SimpleKinds \cup Structs \cup {"operation", "resource"}}
  \cup {[Decl("A", k) EXCEPT !.mem = <<M("member", S, ts)>>] : k \in {"list", "set"}, ts \in {<<>>, <<TF("required", <<>>)>>}}
  \cup {[Decl("A", "map") EXCEPT !.mem = <<M("key", S, ts), M("value", X, us)>>] : ts, us \in {<<>>, <<TF("required", <<>>)>>}}
  \cup {[Decl("A", k) EXCEPT !.mem = <<M("m", n, <<>>)>>] : k \in Structs, n \in SimpleNames \cup {Api(x) : x \in SimpleNames}}
  \cup {[Decl("A", k) EXCEPT !.mem = <<M("z", S, <<TF("required", <<>>)>>), M("a", X, <<>>), M("k", I, <<TV("o.p#t", Str("v"))>>)>>] : k \in Structs}
  \cup {[Decl("A", "service") EXCEPT !.ver = "2021", !.refs["operations"] = q, !.refs["resources"] = r, !.ren = "o.p#X" :> "Y"] :
          q, r \in {<<>>, <<X, I>>, <<I, X, X>>}}
  \cup {[Decl("A", "operation") EXCEPT !.refs["input"] = <<X>>, !.refs["output"] = <<I>>, !.refs["errors"] = <<I, X>>]}
  \cup {[Decl("A", "operation") EXCEPT !.refs[r] = <<X>>] : r \in {"input", "output", "errors"}}
  \cup {[Decl("A", "resource") EXCEPT !.refs[r] = <<X>>, !.idents = "id" :> S @@ "other" :> X] : r \in OptRoles("resource")}
  \cup {[Decl("A", "resource") EXCEPT !.refs[r] = <<I, X>>] : r \in ArrayRoles("resource")}
Decls == Bodies
  \cup {[Decl("A", k) EXCEPT !.traits = <<t>>] : k \in {"string", "structure", "resource"}, t \in Fns}
  \cup {[[Decl("A", "service") EXCEPT !.ver = "1"] EXCEPT !.traits = <<t>>] : t \in Fns}
  \cup {[Decl("A", "operation") EXCEPT !.traits = ts] : ts \in Both2 \cup {<<t>> : t \in Fns}}
  \cup {[[Decl("A", "list") EXCEPT !.mem = <<M("member", S, <<>>)>>] EXCEPT !.traits = <<t>>] : t \in Fns}
  \cup {[Decl("A", "union") EXCEPT !.mem = <<M("m", S, <<t>>)>>] : t \in Fns}
Metas == {[Call EXCEPT !.c = "meta", !.n = "k", !.v = v] : v \in Values \ {Absent}}
Second == IF Both THEN {[Decl("B", "string") EXCEPT !.traits = <<TF("sensitive", <<>>)>>]} \cup Bodies \cup Metas ELSE {}

VARIABLE b
Init == b = Start("n.s", "1.0")
AddCall(c, h) == /\ b' = Do(b, [c EXCEPT !.how = h])
                 /\ PrintT("CASE " \o ToJson(b'))
Next == \/ /\ b.calls = <<>> /\ b.ver = "1.0"
           /\ \E c \in Decls \cup Metas, h \in Hows : AddCall(c, IF c.c = "meta" THEN h + 8 * (h % 2) ELSE h)
        \/ /\ Len(b.calls) = 1 /\ b.ver = "1.0" /\ b.calls[1].how = 0 /\ b.calls[1] \in Bodies
           /\ \E c \in Second : AddCall(c, 1)

R == Build(b)
\* Every part of what was declared is in the model, and the model has nothing else.
Exact ==
  R.err = {} =>
    /\ R.m.ver = b.ver
    /\ \A i \in Of(b, "decl") : LET c == b.calls[i]
                                    sh == R.m.shapes[Own(b, c.n)] IN
         /\ sh.kind = c.kind /\ sh.ver = c.ver /\ sh.ren = c.ren
         /\ DOMAIN sh.mem = {c.mem[k].n : k \in 1..Len(c.mem)}
         /\ \A r \in Roles : Len(sh.refs[r]) = Len(c.refs[r]) /\ \A k \in 1..Len(c.refs[r]) : Qualified(c.refs[r][k]) => sh.refs[r][k] = c.refs[r][k]
         /\ \A k \in 1..Len(c.traits) : TraitOf(c.traits[k])[1] \in DOMAIN sh.traits
         /\ Cardinality(DOMAIN sh.traits) <= Len(c.traits)
    /\ Defined(R.m) = Declared(b)
    /\ DOMAIN R.m.meta = {b.calls[i].n : i \in Of(b, "meta")}
Clash == R.err # {} => \E i \in 1..Len(b.calls) : Len(b.calls) > 1 \/ b.calls[i].traits \in Both2
=============================================================================
