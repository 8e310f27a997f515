------------------------------ MODULE Slicing -------------------------------
(* Requests for parts of a variable of some shape: which are in range, and    *)
(* which elements (as positions in the whole value, row by row) they select.  *)
(* A request never changes the answer to another.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, Shapes, MaxReqs

Huge == 2000000000      \* stands for the largest index there is

VARIABLES shape, hist, done
vars == <<shape, hist, done>>

Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
Rank == Len(shape)

\* Positions of the elements of the box from b (inclusive) to e (exclusive)
RECURSIVE Select(_, _, _, _)
Select(s, b, e, base) ==
  IF s = <<>> THEN <<base>>
  ELSE FlattenSeq([i \in 1..(e[1] - b[1]) |->
         Select(Tail(s), Tail(b), Tail(e), base * s[1] + b[1] + i - 1)])

InRange(s, b, e) == /\ Len(b) = Len(s) /\ Len(e) = Len(s)
                    /\ \A i \in 1..Len(s) : 0 <= b[i] /\ b[i] <= e[i] /\ e[i] <= s[i]

\* The same by membership, to check Select against
Coord(s, p, i) == (p \div Prod(SubSeq(s, i + 1, Len(s)))) % s[i]
Member(s, b, e, p) == \A i \in 1..Len(s) : b[i] <= Coord(s, p, i) /\ Coord(s, p, i) < e[i]

Result(b, e) == IF InRange(shape, b, e)
                THEN [ok |-> TRUE, sel |-> Select(shape, b, e, 0), shape |-> [i \in 1..Len(shape) |-> e[i] - b[i]]]
                ELSE [ok |-> FALSE, sel |-> <<>>, shape |-> <<>>]

R(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* One-dimensional requests: rows.  A scalar is its own only row.
RowReq ==
  \E b \in R(-1..(IF Rank = 0 THEN 1 ELSE shape[1] + 1)), e \in R({-1, Huge} \cup 0..(IF Rank = 0 THEN 2 ELSE shape[1] + 1)) :
    LET full == IF Rank = 0 THEN <<>> ELSE Tail(shape)
        r == IF Rank = 0 THEN [ok |-> b = 0 /\ e = 1, sel |-> IF b = 0 /\ e = 1 THEN <<0>> ELSE <<>>, shape |-> <<>>]
             ELSE Result(<<b>> \o [i \in 1..(Rank - 1) |-> 0], <<e>> \o full)
    IN /\ ~(Rank = 0 /\ b = e)      \* nothing of a scalar: not settled
       /\ hist' = Append(hist, [op |-> "slice", b |-> <<b>>, e |-> <<e>>] @@ r)

Bounds(i) == IF i <= Rank THEN 0..shape[i] ELSE 0..1
\* In simulation mostly a box inside, now and then one index off, or the wrong number of them
BoxPick(k) ==
  IF ~Sim THEN [b : [1..Rank -> -1..3], e : [1..Rank -> 0..4]]
  ELSE {LET b0 == [i \in 1..Rank |-> LET x == x0[i] IN x]
            e0 == [i \in 1..Rank |-> b0[i] + (y0[i] % (shape[i] - b0[i] + 1))]
        IN [b |-> IF odd = 1 /\ Rank > 0 THEN [b0 EXCEPT ![w] = bv] ELSE IF odd = 2 THEN Append(b0, 0)
                  ELSE IF odd = 5 /\ Rank > 0 THEN SubSeq(b0, 1, Rank - 1) ELSE b0,
            e |-> IF odd = 3 /\ Rank > 0 THEN [e0 EXCEPT ![w] = ev] ELSE IF odd \in {2, 4} THEN Append(e0, 1)
                  ELSE IF odd = 5 /\ Rank > 0 THEN SubSeq(e0, 1, Rank - 1) ELSE e0] :
        x0 \in {[i \in 1..Rank |-> RandomElement(Bounds(i))]}, y0 \in {[i \in 1..Rank |-> RandomElement(0..20)]},
        odd \in {RandomElement(1..25)}, w \in {RandomElement(1..(IF Rank = 0 THEN 1 ELSE Rank))},
        bv \in {RandomElement({-1, Huge, 3, 0 - Huge})}, ev \in {RandomElement({-1, Huge, 1, 6, 0})}}

BoxReq ==
  \E x \in BoxPick(Len(hist)) : hist' = Append(hist, [op |-> "box", b |-> x.b, e |-> x.e] @@ Result(x.b, x.e))

\* The whole value
AllReq == hist' = Append(hist, [op |-> "all"] @@ Result([i \in 1..Rank |-> 0], shape))

Init == hist = <<>> /\ done = FALSE /\ shape \in Shapes

Emit == /\ ~done /\ done' = TRUE /\ UNCHANGED <<shape, hist>>
        /\ PrintT(<<"TRACE", ToJson([shape |-> shape, reqs |-> hist])>>)

Next ==
  /\ ~done
  /\ IF Len(hist) < MaxReqs
     THEN /\ UNCHANGED <<shape, done>>
          /\ IF Sim THEN \E r \in {RandomElement(1..10)} :
                 CASE r <= 4 -> (RowReq \/ UNCHANGED hist) [] r = 5 -> AllReq [] OTHER -> BoxReq
             ELSE RowReq \/ BoxReq
     ELSE Emit
Spec == Init /\ [][Next]_vars

LastReq == hist[Len(hist)]
SelectsMembers ==
  hist # <<>> /\ LastReq.ok =>
    /\ Len(LastReq.sel) = Prod(LastReq.shape)
    /\ \A i \in 1..(Len(LastReq.sel) - 1) : LastReq.sel[i] < LastReq.sel[i + 1]
    /\ (LastReq.op = "box" => ToSet(LastReq.sel) = {p \in 0..(Prod(shape) - 1) : Member(shape, LastReq.b, LastReq.e, p)})
    /\ (LastReq.op = "slice" /\ Rank > 0 => ToSet(LastReq.sel) =
          {p \in 0..(Prod(shape) - 1) : LastReq.b[1] <= Coord(shape, p, 1) /\ Coord(shape, p, 1) < LastReq.e[1]})
=============================================================================
