------------------------------- MODULE Large --------------------------------
(* Files with variables of several GiB: where the format places them, and     *)
(* what is read near the elements that were written.  Almost nothing is       *)
(* written, so the files are sparse.                                          *)
(*                                                                            *)
(* TLC has integers of 32 bits, so a number of elements or bytes is a pair    *)
(* <<h, l>> that stands for h * 2^28 + l, where l is small but may be         *)
(* negative.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim,
          Formats,      \* of {"cdf1", "cdf2", "cdf5", "hdf5", "written"}; a file that is "written" by the classic writer is of
                        \* whatever format it chooses, and has no records
          MaxVars, MaxPuts, MaxReads,
          Bigs,         \* lengths of large dimensions, in units of 2^28
          MaxUnits,     \* bytes of a variable, or of all variables that are written, in units of 2^28
          Header        \* where the data of classic files start

VARIABLES format, phase, vars, nrec, cells, reads
state == <<format, phase, vars, nrec, cells, reads>>

Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Mul(x, k) == <<x[1] * k, x[2] * k>>
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
AtMost(x, y) == x = y \/ Less(x, y)
Pad4(x) == <<x[1], x[2] + ((4 - (x[2] % 4)) % 4)>>       \* 2^28 is a multiple of 4

\* A variable: its dimensions are the records (if rec), then a large one (if big # 0), then one of n elements (if n # 0).
Var == [rec : BOOLEAN, big : Bigs \cup {0}, n : 0..3, size : {1, 2, 4, 8}, chunked : BOOLEAN]

Inner(v) == IF v.n = 0 THEN 1 ELSE v.n
Count(v) == IF v.big = 0 THEN <<0, Inner(v)>> ELSE <<v.big * Inner(v), 0>>      \* elements, or those of one record
Bytes(v) == Mul(Count(v), v.size)

Sum(s) == FoldLeft(Add, <<0, 0>>, s)
Recs(s) == SelectSeq(s, LAMBDA v : v.rec)
Fixed(s) == SelectSeq(s, LAMBDA v : ~v.rec)

\* The records follow the other variables.  A record is not padded if there is just one variable in it.
RecSize(s) == IF Len(Recs(s)) = 1 THEN Bytes(Recs(s)[1]) ELSE Sum([i \in 1..Len(Recs(s)) |-> Pad4(Bytes(Recs(s)[i]))])
Begin(s, i) ==
  LET before == SelectSeq(SubSeq(s, 1, i - 1), LAMBDA v : v.rec = s[i].rec)
      start == IF s[i].rec THEN Add(<<0, Header>>, Sum([j \in 1..Len(Fixed(s)) |-> Pad4(Bytes(Fixed(s)[j]))])) ELSE <<0, Header>>
  IN Add(start, Sum([j \in 1..Len(before) |-> Pad4(Bytes(before[j]))]))

\* The size in the header: what does not fit is all ones
VSize(f, v) == LET b == Pad4(Bytes(v)) IN IF f \in {"cdf1", "cdf2"} /\ b[1] >= 16 THEN <<16, -1>> ELSE b

\* Where an element is: r is the record, x the position in the large dimension (or the zero pair), k that in the last
Index(v, x, k) == <<x[1] * Inner(v), x[2] * Inner(v) + k>>
Offset(s, i, r, x, k) ==
  Add(Begin(s, i), Add(Mul(RecSize(s), IF s[i].rec THEN r ELSE 0), Mul(Index(s[i], x, k), s[i].size)))

\* What the formats can hold
Limit(f) == IF f = "cdf1" THEN 8 ELSE IF f = "cdf2" THEN 16 ELSE 1000000
Fits(f, s) ==
  \/ f = "hdf5"
  \/ f = "cdf5"
  \/ f = "written" /\ Recs(s) = <<>> /\ (\A i \in 1..Len(s) : s[i].big = 0 \/ s[i].n = 0)
     /\ Sum([i \in 1..Len(s) |-> Bytes(s[i])])[1] <= MaxUnits
  \/ /\ f \in {"cdf1", "cdf2"}
     /\ \A i \in 1..Len(s) : s[i].big < Limit(f)                  \* the length of a dimension has 31 bits, or 32 in practice
     /\ f = "cdf1" => \A i \in 1..Len(s) : Begin(s, i)[1] < 8       \* and so has an offset
     /\ \A i \in 1..Len(s) : Bytes(s[i])[1] >= Limit(f) =>
          IF s[i].rec THEN \A j \in (i + 1)..Len(s) : ~s[j].rec
          ELSE Recs(s) = <<>> /\ i = Len(s)

R(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == format \in Formats /\ phase = "define" /\ vars = <<>> /\ nrec = 0 /\ cells = <<>> /\ reads = <<>>

Define ==
  /\ phase = "define" /\ Len(vars) < MaxVars
  /\ \E rec \in R(BOOLEAN), big \in R(Bigs \cup {0}), n \in R(0..3), size \in R({1, 2, 4, 8}), chunked \in R(BOOLEAN) :
       LET v == [rec |-> rec, big |-> big, n |-> n, size |-> size, chunked |-> format = "hdf5" /\ (rec \/ chunked)]
       IN IF Fits(format, Append(vars, v)) /\ Bytes(v)[1] <= MaxUnits THEN vars' = Append(vars, v) ELSE UNCHANGED vars
  /\ UNCHANGED <<format, phase, nrec, cells, reads>>

\* Every variable of records has as many of them, because its last one is written in part.
Freeze ==
  /\ phase = "define" /\ vars # <<>>
  /\ Sim => Len(vars) = MaxVars \/ RandomElement(1..(4 + Len(vars) * 0)) = 1
  /\ \E k \in R(1..3) :
       /\ nrec' = IF Recs(vars) = <<>> THEN 0 ELSE k
       /\ cells' = LET rs == SelectSeq([i \in 1..Len(vars) |-> i], LAMBDA i : vars[i].rec)
                   IN [j \in 1..Len(rs) |-> [var |-> rs[j], rec |-> k - 1, pos |-> <<0, 0>>, k |-> 0, value |-> j,
                                              at |-> Offset(vars, rs[j], k - 1, <<0, 0>>, 0)]]
  /\ phase' = "data" /\ UNCHANGED <<format, vars, reads>>

\* Positions near the ends, the multiples of 2^31 and 2^32 bytes, and 2^31 and 2^32 elements
Positions(v) ==
  IF v.big = 0 THEN {<<0, 0>>}
  ELSE {x \in ({0, 1, v.big - 1, v.big} \cup {h \in 0..v.big : (h * v.size * Inner(v)) % 8 = 0 \/ h % 8 = 0}) \X (-3..3) :
          AtMost(<<0, 0>>, x) /\ Less(x, <<v.big, 0>>)}
NRecs(v) == IF v.rec THEN nrec ELSE 1

Put ==
  /\ phase = "data" /\ Len(cells) < MaxPuts + Len(Recs(vars))
  /\ \E i \in R(1..Len(vars)) : \E r \in R(0..(NRecs(vars[i]) - 1)), x \in R(Positions(vars[i])), k \in R(0..(Inner(vars[i]) - 1)) :
       cells' = Append(cells, [var |-> i, rec |-> r, pos |-> x, k |-> k, value |-> Len(cells) + 1, at |-> Offset(vars, i, r, x, k)])
  /\ UNCHANGED <<format, phase, vars, nrec, reads>>

\* The value of an element: the last written, or 0 for one never written
Value(i, r, x, k) ==
  LET w == SelectSeq(cells, LAMBDA c : c.var = i /\ c.rec = r /\ c.pos = x /\ c.k = k)
  IN IF w = <<>> THEN 0 ELSE Last(w).value

\* The same number in another form is another pair: near a multiple of 2^28 all positions have one form only,
\* as long as windows do not reach from one multiple to the next.
Window == 4
Read ==
  /\ phase \in {"data", "reading"} /\ Len(reads) < MaxReads
  /\ Sim => Len(cells) = MaxPuts + Len(Recs(vars))
  /\ \E i \in R({j \in 1..Len(vars) : vars[j].big = 0 \/ ~vars[j].rec} \cup {0}) :
       IF i = 0 THEN UNCHANGED reads
       ELSE IF vars[i].big = 0
       THEN reads' = Append(reads, [var |-> i, from |-> <<0, 0>>, len |-> -1,
              rows |-> [r \in 1..NRecs(vars[i]) |-> [k \in 1..Inner(vars[i]) |-> Value(i, r - 1, <<0, 0>>, k - 1)]]])
       ELSE \E b \in R(Positions(vars[i]) \cup {c.pos : c \in {cells[j] : j \in {j \in 1..Len(cells) : cells[j].var = i}}}), w \in R(0..Window) :
              LET len == IF AtMost(<<b[1], b[2] + w>>, <<vars[i].big, 0>>) THEN w ELSE 0
              IN reads' = Append(reads, [var |-> i, from |-> b, len |-> len,
                   rows |-> [p \in 1..len |-> [k \in 1..Inner(vars[i]) |-> Value(i, 0, <<b[1], b[2] + p - 1>>, k - 1)]]])
  /\ phase' = "reading" /\ UNCHANGED <<format, vars, nrec, cells>>

Emit ==
  /\ phase = "reading" /\ Len(reads) = MaxReads
  /\ phase' = "done" /\ UNCHANGED <<format, vars, nrec, cells, reads>>
  /\ PrintT(<<"TRACE", ToJson([format |-> format, vars |-> [i \in 1..Len(vars) |-> vars[i] @@ [begin |-> Begin(vars, i), vsize |-> VSize(format, vars[i])]],
                               nrec |-> nrec, cells |-> cells, reads |-> reads, recsize |-> RecSize(vars)])>>)

Next == Define \/ Freeze \/ Put \/ Read \/ Emit
Spec == Init /\ [][Next]_state

-----------------------------------------------------------------------------
End(s, i, r) == Add(Begin(s, i), Add(Mul(RecSize(s), IF s[i].rec THEN r ELSE 0), Bytes(s[i])))
\* Elements are within their variable (or their part of a record) ...
Inside == \A j \in 1..Len(cells) :
            LET c == cells[j]
                start == Offset(vars, c.var, c.rec, <<0, 0>>, 0)
            IN /\ AtMost(start, c.at)
               /\ AtMost(Add(c.at, <<0, vars[c.var].size>>), End(vars, c.var, c.rec))
\* ... these do not overlap ...
Areas == {<<i, r>> \in (1..Len(vars)) \X (0..2) : r < NRecs(vars[i])}
Disjoint == phase # "define" =>
              \A a, b \in Areas : a # b =>
                \/ AtMost(End(vars, a[1], a[2]), Offset(vars, b[1], b[2], <<0, 0>>, 0))
                \/ AtMost(End(vars, b[1], b[2]), Offset(vars, a[1], a[2], <<0, 0>>, 0))
\* ... and the header can tell where they begin.
Representable == format = "cdf1" => \A i \in 1..Len(vars) : Begin(vars, i)[1] < 8
\* Reading is of what was written last, and does not change it
OnlyReads == [][phase = "reading" => UNCHANGED <<vars, nrec, cells>>]_state
=============================================================================
