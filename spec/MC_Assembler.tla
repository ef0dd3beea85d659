---------------------------- MODULE MC_Assembler ----------------------------
(* Every small tree of files, links and directories, every way to name it,   *)
(* and every order in which an assembler can look at it.  Prints each tree.   *)
EXTENDS Assembler, Json
CONSTANTS MaxRoots, Rich

Tags == Arr(<<Str("a")>>)
S(id, sh) == [EmptyModel EXCEPT !.shapes = id :> sh]
A == "ns.a#A"
MStr == S(A, WithTraits(Blank("string"), "smithy.api#tags" :> Tags))
MMore == [S(A, WithTraits(Blank("string"), "smithy.api#tags" :> Arr(<<Str("b")>>))) EXCEPT !.meta = "k" :> Arr(<<Str("v")>>)]
MInt == S(A, Blank("integer"))
MApply == S(A, WithTraits(Blank("unresolved"), "smithy.api#tags" :> Tags @@ "smithy.api#title" :> Str("t")))
MOther == [S("ns.b#B", [Blank("structure") EXCEPT !.mem = "m" :> [t |-> A, traits |-> NoFn]]) EXCEPT !.meta = "k" :> Arr(<<Str("w")>>)]
MScalar == [S("ns.b#B2", Blank("blob")) EXCEPT !.meta = "k" :> Str("v")]

File(p, f, m) == [path |-> p, kind |-> "file", to |-> "", fmt |-> f, model |-> m]
Dir(p) == [path |-> p, kind |-> "dir", to |-> "", fmt |-> "", model |-> EmptyModel]
LockedDir(p) == [Dir(p) EXCEPT !.fmt = "locked"]
Link(p, t) == [path |-> p, kind |-> "link", to |-> t, fmt |-> "", model |-> EmptyModel]

\* What may be at every place: a set of sequences of entries each.
Place1 == {<<>>, <<File("x.json", "json", MStr)>>, <<File("x.json", "bad", EmptyModel)>>, <<File("x.json", "locked", MStr)>>}
Place2 == {<<Dir("d")>>, <<Dir("d"), File("d/y.JSON", "json", MMore)>>, <<Dir("d"), File("d/y.json", "json", MInt)>>,
           <<Dir("d"), File("d/y.json.bak", "bad", EmptyModel), File("d/.json", "bad", EmptyModel)>>,
           <<Dir("d"), Dir("d/e"), File("d/e/x.json", "json", MApply)>>}
          \cup IF Rich THEN {<<Dir("d"), File("d/y.json", "json", MScalar)>>, <<Dir("d"), LockedDir("d/e")>>,
                             <<Dir("d"), Dir("d/e"), File("d/e/x.json", "json", MOther), File("d/y.json", "json", MMore)>>} ELSE {}
Place3 == {<<>>, <<File("z.smithy", "smithy", MStr)>>, <<Link("l", "d")>>, <<Link("d/l", ".")>>, <<Link("l.json", "x.json")>>,
           <<Link("d/g.json", "gone")>>, <<Link("d/g", "h"), Link("h", "d/g")>>}
          \cup IF Rich THEN {<<Link("l.txt", "x.json")>>, <<File("d/z.Smithy", "smithy", MOther)>>, <<File("d/z.json", "smithy", MOther)>>,
                             <<Link("l", "d"), Link("l2", "l")>>} ELSE {}
Trees == {a \o b \o c : a \in Place1, b \in Place2, c \in Place3}
Both == "json" :> "json" @@ "smithy" :> "smithy"
Regs == {Both} \cup IF Rich THEN {"json" :> "json", Both @@ "bak" :> "json"} ELSE {}
Names == {".", "d", "x.json", "l.json", "l", "nothing.json", "nothing"}
Roots == {<<>>} \cup {<<a>> : a \in Names} \cup {<<a, b>> : a \in {".", "x.json"}, b \in {"d", "nothing.json", "l", "l.json"}}
         \cup IF MaxRoots > 2 THEN {<<a, b, c>> : a \in {"."}, b \in {"d", "x.json"}, c \in {"l", "l.json", "d/l"}} ELSE {}

VARIABLES fs, reg, roots, st, shown
vars == <<fs, reg, roots, st, shown>>
Init == /\ fs \in Trees /\ reg \in Regs /\ roots \in Roots /\ shown = FALSE
        /\ st = Start(roots)
Next == \/ /\ ~shown
           /\ PrintT("CASE " \o ToJson([fs |-> fs, reg |-> reg, roots |-> roots]))
           /\ shown' = TRUE /\ UNCHANGED <<fs, reg, roots, st>>
        \/ /\ shown /\ ~st.bad
           /\ \E p \in st.todo : st' = Look(fs, reg, st, p)
           /\ UNCHANGED <<fs, reg, roots, shown>>
Done == st.todo = {} /\ ~st.bad
\* Whatever the order: the assembly fails exactly if it must, ends with the merge of all files
\* found, each taken once, and nothing else.
Order == /\ st.bad => Fails(fs, reg, roots)
         /\ Done => ~Fails(fs, reg, roots) /\ SameModel(st.acc, Assembled(fs, reg, roots))
                    /\ st.files = Files(fs, reg, roots)
\* It never looks at what the paths do not lead to, and it ends.
Inside == st.todo \subseteq Met(fs, roots) /\ st.files \subseteq Files(fs, reg, roots)
Ends == Cardinality(st.seen) <= Len(fs) + 1
=============================================================================
