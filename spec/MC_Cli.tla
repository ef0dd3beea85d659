------------------------------- MODULE MC_Cli -------------------------------
(* Every command, format, place and way of naming inputs, on every kind of   *)
(* input that matters.  Prints each call.                                     *)
EXTENDS Cli, Json
CONSTANTS Rich
S(id, sh) == [EmptyModel EXCEPT !.shapes = id :> sh]
MA == S("ns.a#A", [Blank("structure") EXCEPT !.mem = "Mem_ber" :> [t |-> "ns.a#Not", traits |-> "smithy.api#tags" :> Arr(<<Str("b")>>)]])
MB == [S("ns.b#slaveKind", Blank("string")) EXCEPT !.meta = "k" :> Arr(<<Str("v")>>)]
MConf == S("ns.a#A", Blank("integer"))
MSvc == S("ns.a#Svc", [Blank("service") EXCEPT !.ver = "1.0", !.refs["operations"] = <<"ns.a#A">>])
File(p, f, m) == [path |-> p, kind |-> "file", to |-> "", fmt |-> f, model |-> m]
Dir(p) == [path |-> p, kind |-> "dir", to |-> "", fmt |-> "", model |-> EmptyModel]
Tree == <<File("a.json", "json", MA), Dir("d"), File("d/b.smithy", "smithy", MB), File("d/n.txt", "bad", EmptyModel),
          File("c.json", "json", MConf), File("e.json", "bad", EmptyModel), File("s.json", "json", MSvc),
          [path |-> "z.json", kind |-> "link", to |-> "gone", fmt |-> "", model |-> EmptyModel]>>
InputSets == {<<>>, <<"a.json">>, <<"d">>, <<"a.json", "d">>, <<"a.json", "c.json">>, <<"a.json", "e.json">>,
              <<"none.txt", "a.json">>, <<"d/n.txt">>, <<"z.json">>, <<"a.json", "s.json">>}
             \cup IF Rich THEN {<<".">>, <<"d", "d/b.smithy">>, <<"none.json">>, <<"a.json", "d", "s.json">>, <<"z.json", "e.json">>} ELSE {}
Cut(xs, k) == [named |-> SubSeq(xs, 1, k), searched |-> SubSeq(xs, k + 1, Len(xs))]
Cuts == UNION {{Cut(xs, k) : k \in 0..Len(xs)} : xs \in InputSets}
Outs == {"stdout", "new", "old", "nodir"}
Kinds == [cmd : {"lint", "validate"}, fmt : {""}, ns : {""}, out : {"stdout"}]
         \cup [cmd : {"convert"}, fmt : {"json", "xml", "uml"}, ns : {""}, out : Outs]
         \cup [cmd : {"convert"}, fmt : {"smithy"}, ns : {"", "ns.b", "not ok"}, out : Outs]
         \cup [cmd : {"document"}, fmt : {"markdown", "nothing"}, ns : {""}, out : Outs]
Calls == {[cmd |-> k.cmd, fmt |-> k.fmt, ns |-> k.ns, out |-> k.out, fs |-> Tree, named |-> u.named,
           searched |-> u.searched, via |-> v] : k \in Kinds, u \in Cuts, v \in {"s", "d"}}
Sane == {x \in Calls : (x.searched # <<>> \/ x.via = "s") /\ (Rich \/ x.via = "s" \/ x.cmd \in {"lint", "validate"} \/ x.out = "old")}
VARIABLES call, st
Init == call \in Sane /\ st = Begin(call)
Next == /\ ~Ended(st)
        /\ st.at = "args" => PrintT("CASE " \o ToJson(call @@ [style |-> Len(call.named) + 2 * Len(call.searched) + Len(call.fmt)]))
        /\ st' = StepOf(call, st) /\ UNCHANGED call
\* A call that fails wrote nothing; one that succeeds wrote all of it, and had no reason to fail.
Honest == /\ st.at = "failed" => MustFail(call) /\ st.place = Begin(call).place
          /\ st.at = "done" => ~MustFail(call) /\ (Writes(call) => st.place = "all")
\* The output is not touched before everything that can be wrong with the input is known.
Late == st.place \in {"empty", "all"} => ~MustFail(call)
=============================================================================
