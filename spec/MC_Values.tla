----------------------------- MODULE MC_Values -----------------------------
(***************************************************************************)
(* Every small value against every other; every conversion at the limits of  *)
(* its type; and the builders of arrays and objects through every sequence   *)
(* of up to Depth calls.                                                    *)
(***************************************************************************)
EXTENDS Values, Json
CONSTANT Depth
Scalars == {Null, Str(""), Str("a"), Str("1"), Val("int", "0"), Val("int", "1"), Val("int", "-1"), Val("float", "1.0"), Val("float", "0.0"),
            Val("float", "-0.0"), Val("float", "1e100"), Val("bool", "true"), Val("bool", "false")}
Some3 == {Null, Str("a"), Val("int", "1")}
Composed == {Arr(<<>>), Obj(NoFn)} \cup {Arr(<<a>>) : a \in Scalars} \cup {Arr(<<a, b>>) : a, b \in Some3}
            \cup {Obj("k" :> a) : a \in Scalars} \cup {Obj("k" :> a @@ "l" :> b) : a, b \in Some3} \cup {Obj("l" :> a) : a \in Some3}
            \cup {Arr(<<Arr(<<a>>), Obj("k" :> a)>>) : a \in Some3} \cup {Obj("k" :> Arr(<<a>>)) : a \in Some3}
Values == Scalars \cup Composed
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
Others == Listed(Values)
Limits == [i8 |-> {"-128", "-1", "0", "1", "127"}, i16 |-> {"-32768", "-129", "128", "32767"},
           i32 |-> {"-2147483648", "-32769", "32768", "2147483647"},
           i64 |-> {"-9223372036854775808", "-2147483649", "2147483648", "9223372036854775807"},
           f32 |-> {"0.0", "-0.0", "0.5", "-1.25", "16777216.0", "inf", "-inf"}, f64 |-> {"0.0", "0.1", "-1.5", "1e300", "5e-324", "inf", "-inf", "9007199254740993.0"} \ {"9007199254740993.0"},
           bool |-> {"true", "false"}, str |-> {"", "a", "two words", "\"q\"", "true", "12"}, string |-> {"", "b"},
           id |-> {"ns.a#A", "ns.a#A$m"}, idref |-> {"ns.a#A", "ns.a#A$m"}]
VARIABLES kind, calls
Init == /\ kind \in {"arr", "obj"} /\ calls = <<>>
        /\ kind = "arr" =>
             /\ \A v \in Values : PrintT("CASE " \o ToJson([v |-> v, others |-> Others]))
             /\ \A t \in DOMAIN Limits : \A x \in Limits[t] : PrintT("CASE " \o ToJson([type |-> t, text |-> x]))
Ways == "push" :> Scalars \cup {Arr(<<>>), Obj(NoFn)} @@ "string" :> {Str("a"), Str("")} @@ "boolean" :> {Val("bool", "true"), Val("bool", "false")}
        @@ "integer" :> {Val("int", "0"), Val("int", "-1")} @@ "float" :> {Val("float", "0.5"), Val("float", "1.0")}
        @@ "number" :> {Val("int", "7"), Val("float", "2.0")}
Steps == {[c |-> w, k |-> key, v |-> v] : w \in DOMAIN Ways, key \in IF kind = "arr" THEN {""} ELSE {"k", "l", "K"}, v \in Scalars \cup {Arr(<<>>)}}
Next == /\ Len(calls) < Depth
        /\ \E s \in Steps : /\ s.v \in Ways[s.c]
                             /\ calls' = Append(calls, s)
                             /\ PrintT("CASE " \o ToJson([kind |-> kind, calls |-> calls']))
        /\ UNCHANGED kind
Now == Built(Blankest(kind), calls)
Was == Built(Blankest(kind), SubSeq(calls, 1, Len(calls) - 1))
Grows == calls # <<>> =>
  LET c == calls[Len(calls)] IN
  IF kind = "arr" THEN Now.xs = Was.xs \o <<c.v>>
  ELSE Now.kv[c.k] = c.v /\ \A x \in DOMAIN Was.kv \ {c.k} : Now.kv[x] = Was.kv[x]
Equivalence == kind = "arr" /\ calls = <<>> =>
  /\ \A a \in Values : VEq(a, a)
  /\ \A a, b \in Values : VEq(a, b) = VEq(b, a) /\ (VEq(a, b) => VKind(a) = VKind(b))
=============================================================================
