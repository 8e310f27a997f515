------------------------------- MODULE TypeMap -------------------------------
(* How the types of variables are reported, in CDL and in Go, and the Go type   *)
(* of every value and part of a value read from them: one slice level for each  *)
(* dimension, except that the last dimension of a char variable is the length   *)
(* of strings.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Makers,     \* who writes the file: "nc3", "nc5", "nc4", "nc4chunked" (the reference library), "wcdf", "wh5" (the writers under test)
          Lens, MaxRank, \* shapes
          BoxRank     \* boxes are asked of variables of at most so many dimensions

VARIABLES v, done
vars == <<v, done>>

Numeric == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"}
Old == {"int8", "int16", "int32", "float32", "float64"}     \* what files before CDF-5 can hold
Types(m) == CASE m = "nc3" -> Old \cup {"char"} [] m = "nc5" -> Numeric \cup {"char"} [] m = "wcdf" -> Numeric \cup {"char"}
              [] m = "wh5" -> Numeric \cup {"string"} [] OTHER -> Numeric \cup {"char", "string"}

Cdl == [int8 |-> "byte", uint8 |-> "ubyte", int16 |-> "short", uint16 |-> "ushort", int32 |-> "int", uint32 |-> "uint", int64 |-> "int64",
        uint64 |-> "uint64", float32 |-> "float", float64 |-> "double", string |-> "string", char |-> "char"]
Go(t) == IF t = "char" THEN "string" ELSE t
\* HDF5 has no type for single characters: they are strings of length one
CdlNames(m, t) == IF t = "char" /\ m \in {"nc4", "nc4chunked"} THEN {"char", "string"} ELSE {Cdl[t]}

RECURSIVE Nest(_, _)
Nest(n, t) == IF n <= 0 THEN t ELSE "[]" \o Nest(n - 1, t)
Levels(t, shape) == IF t = "char" THEN (IF shape = <<>> THEN 0 ELSE Len(shape) - 1) ELSE Len(shape)
Dyn(t, shape) == Nest(Levels(t, shape), Go(t))

RECURSIVE Shapes(_)
Shapes(n) == IF n = 0 THEN {<<>>} ELSE LET S == Shapes(n - 1) IN S \cup {Append(s, l) : s \in {u \in S : Len(u) = n - 1}, l \in Lens}

Zeros(s) == {i \in 1..Len(s) : s[i] = 0}
\* Only a record dimension can be empty in a classic file, and an unlimited dimension only grows as something is written; the classic writer takes an empty slice only on its own
Can(m, t, s, rec) ==
  CASE m \in {"nc3", "nc5"} -> Zeros(s) \subseteq {1} /\ (rec => s # <<>>) /\ (Zeros(s) # {} => rec)
    [] m = "wcdf" -> ~rec /\ (Zeros(s) = {} \/ (Len(s) = 1 /\ t # "char"))
    [] m = "wh5" -> ~rec /\ \A i, j \in 1..Len(s) : i < j /\ s[i] = 0 => s[j] = 0     \* below an empty slice there is nothing to see
    [] m = "nc4" -> (rec => s # <<>> /\ Zeros(s) = {})
    [] OTHER -> s # <<>> /\ (rec => Zeros(s) = {})

Rows(s) == IF s = <<>> THEN {<<0, 1>>} ELSE {r \in (0..s[1]) \X (0..s[1]) : r[1] <= r[2]}
Boxes(s) == IF Len(s) > BoxRank THEN {<<>>}
            ELSE {[i \in 1..Len(s) |-> pick[i]] : pick \in [1..Len(s) -> {<<x, y>> \in (0..3) \X (0..3) : x <= y}]}
BoxIn(s, b) == b # <<>> /\ \A i \in 1..Len(s) : b[i][2] <= s[i]
Reqs(s) == SetToSeq({[op |-> "slice", b |-> <<r[1]>>, e |-> <<r[2]>>, shape |-> IF s = <<>> THEN <<>> ELSE <<r[2] - r[1]>> \o Tail(s)] : r \in Rows(s)})
           \o SetToSeq({[op |-> "box", b |-> [i \in 1..Len(s) |-> b[i][1]], e |-> [i \in 1..Len(s) |-> b[i][2]], shape |-> [i \in 1..Len(s) |-> b[i][2] - b[i][1]]]
                          : b \in {x \in Boxes(s) : BoxIn(s, x)}})

Init == /\ v \in {x \in [m : Makers, t : Numeric \cup {"char", "string"}, s : Shapes(MaxRank), rec : {TRUE, FALSE}] :
                    x.t \in Types(x.m) /\ Can(x.m, x.t, x.s, x.rec)}
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED v
        /\ PrintT(<<"TRACE", ToJson([m |-> v.m, t |-> v.t, shape |-> v.s, rec |-> v.rec, cdl |-> CdlNames(v.m, v.t), go |-> Go(v.t), dyn |-> Dyn(v.t, v.s), reqs |-> Reqs(v.s)])>>)
Spec == Init /\ [][Next]_vars

\* A part of a value has the type of the value
PartsAlike == \A i \in 1..Len(Reqs(v.s)) : Len(Reqs(v.s)[i].shape) = Len(v.s) /\ Dyn(v.t, Reqs(v.s)[i].shape) = Dyn(v.t, v.s)
\* The three descriptions determine one another
OneName == \A x \in CdlNames(v.m, v.t) : \A t \in Types(v.m) : x \in CdlNames(v.m, t) => Go(t) = Go(v.t)
=============================================================================
