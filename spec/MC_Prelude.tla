---------------------------- MODULE MC_Prelude ----------------------------
(* Every name of the prelude, and names almost like one, as a target and as a *)
(* trait: alone, declared, and imported. Prints every session.                *)
EXTENDS Builder, Ident, Json

Flip(n) == LET c == Ch(n, 1) IN
  (IF \E i \in 1..26 : Ch(UpperS, i) = c THEN Ch(LowerS, CHOOSE i \in 1..26 : Ch(UpperS, i) = c) ELSE Ch(UpperS, CHOOSE i \in 1..26 : Ch(LowerS, i) = c))
  \o SubSeq(n, 2, Len(n))
T0(n) == [n |-> n, v |-> Absent, f |-> "", a |-> <<>>]
Decl(n, kind) == [Call EXCEPT !.c = "decl", !.n = n, !.kind = kind]
Using(n) == [Decl("S_", "structure") EXCEPT !.traits = <<T0(n)>>, !.mem = <<[n |-> "m", t |-> n, traits |-> <<T0(n)>>]>>]
Names == PreludeShapes \cup PreludeTraits
All == Names \cup {Flip(n) : n \in Names} \cup {n \o "s" : n \in Names} \cup {"Primitive" \o n : n \in PreludeShapes} \cup {"S", "string_", "e"}
Before(n) == {<<>>, <<Decl(n, "string")>>, <<[Call EXCEPT !.c = "use", !.n = "ns.b#" \o n]>>, <<[Call EXCEPT !.c = "use", !.n = "smithy.api#" \o n]>>}
After(n) == {<<>>, <<[Call EXCEPT !.c = "apply", !.n = n, !.traits = <<T0(n)>>]>>}

VARIABLE b
Init == b = Start("ns.a", "1.0")
Next == /\ b.calls = <<>>
        /\ \E n \in All : \E p \in Before(n) : \E q \in After(n) :
             /\ b' = [b EXCEPT !.calls = p \o <<Using(n)>> \o q]
             /\ PrintT("CASE " \o ToJson(b'))

R == Build(b)
S == CHOOSE i \in 1..Len(b.calls) : b.calls[i].n = "S_"
Name == b.calls[S].mem[1].t
Space(id) == NsOf(id)
\* The same name is read in the same place as target and as trait, but for what only one of the sets has.
Places ==
  (b.calls # <<>> /\ R.err = {}) =>
    LET sh == R.m.shapes["ns.a#S_"]
        t == sh.mem["m"].t
        a == CHOOSE x \in DOMAIN sh.traits : TRUE
        given == S > 1
        where(set) == IF given THEN (IF b.calls[1].c = "use" THEN NsOf(b.calls[1].n) ELSE "ns.a")
                      ELSE IF Name \in set THEN "smithy.api" ELSE "ns.a" IN
    /\ NameOf(t) = Name /\ NameOf(a) = Name /\ DOMAIN sh.traits = DOMAIN sh.mem["m"].traits
    /\ NsOf(t) = where(PreludeShapes) /\ NsOf(a) = where(PreludeTraits)
    /\ PreludeShapes \cap PreludeTraits = {}
=============================================================================
