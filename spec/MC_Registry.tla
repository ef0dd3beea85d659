---------------------------- MODULE MC_Registry ----------------------------
(***************************************************************************)
(* Every sequence of up to Depth calls on a registry, empty or the default   *)
(* one.                                                                     *)
(***************************************************************************)
EXTENDS Registry, Json
CONSTANT Depth
Exts == {"a", "A", "json"}
Types == {FT("One", "", "r1"), FT("Two", "m/x", "r2"), FT("two", "M/X", "r3")}
Call(c, x, t) == [c |-> c, x |-> x, name |-> t.name, mime |-> t.mime, rd |-> t.rd]
Calls ==
  {Call("register", <<x>>, t) : x \in Exts, t \in Types}
  \cup {Call("register_all", xs, t) : xs \in {<<>>, <<"a">>, <<"b", "A">>, <<"B", "Json", "b">>}, t \in Types}
  \cup {Call("remove", <<x>>, NoType) : x \in Exts \cup {"b"}}
Ask == <<"a", "A", "b", "B", "json", "JSON", "smithy", "Smithy", "", "none">>
Mimes == <<"m/x", "M/X", "m/X", "", "a/b">>
VARIABLES from, calls
vars == <<from, calls>>
Init == from \in {"default", "empty"} /\ calls = <<>>
Next == /\ Len(calls) < Depth
        /\ \E c \in Calls : /\ calls' = Append(calls, c)
                             /\ PrintT("CASE " \o ToJson([start |-> from, calls |-> calls', ask |-> Ask, mimes |-> Mimes]))
        /\ UNCHANGED from
Now == RegAfter(Start(from), calls)
Before == RegAfter(Start(from), SubSeq(calls, 1, Len(calls) - 1))
\* The last call decides, for the extensions it names and no others; and nothing forgets a MIME type.
LastDecides ==
  calls # <<>> =>
  LET c == calls[Len(calls)]
      xs == {Low(c.x[n]) : n \in 1..Len(c.x)} IN
  /\ \A n \in 1..Len(Ask) :
       ByExt(Now, Ask[n]) = IF Low(Ask[n]) \notin xs THEN ByExt(Before, Ask[n])
                            ELSE IF c.c = "remove" THEN NoType ELSE TypeOf(c)
  /\ \A n \in 1..Len(Mimes) :
       ByMime(Now, Mimes[n]) = IF c.c # "remove" /\ c.mime # "" /\ Low(c.mime) = Low(Mimes[n]) THEN TypeOf(c)
                               ELSE ByMime(Before, Mimes[n])
CaseBlind == \A x \in DOMAIN Now.ext \cup DOMAIN Now.mime : Low(x) = x
=============================================================================
