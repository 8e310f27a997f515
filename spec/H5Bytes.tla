------------------------------- MODULE H5Bytes -------------------------------
(* The part of the HDF5 file format that NetCDF4 files use: what the bytes of  *)
(* a file mean.  Superblock version 2, object headers version 2, links and     *)
(* attributes in the header or in a fractal heap, the datatype classes, the    *)
(* storage layouts (compact, contiguous, chunked with a version 1 B-tree), the *)
(* shuffle and fletcher32 filters, global heaps, and the checksums of them     *)
(* all.  Malformed bytes are an error (an assertion that starts with           *)
(* "MALFORMED").  Positions in the file are from 0.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Bitwise

Need(cond, what) == IF cond THEN TRUE ELSE Assert(FALSE, <<"MALFORMED", what>>)

Pow2(n) == 2 ^ n
Pad8(n) == ((n + 7) \div 8) * 8
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2 IN Join(SubSeq(ss, 1, h)) \o Join(SubSeq(ss, h + 1, Len(ss)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Bit(x, n) == (x \div Pow2(n)) % 2 = 1
MaxOf(a, b) == IF a > b THEN a ELSE b

Bytes(b, p, n) == IF Need(n >= 0 /\ p >= 0 /\ p + n <= Len(b), <<"bytes past the end", p, n>>) THEN SubSeq(b, p + 1, p + n) ELSE <<>>
B1(b, p) == IF Need(p < Len(b), <<"byte past the end", p>>) THEN b[p + 1] ELSE 0
B2(b, p) == B1(b, p) + 256 * B1(b, p + 1)
B3(b, p) == B2(b, p) + 65536 * B1(b, p + 2)
B4(b, p) == IF Need(B1(b, p + 3) < 128, <<"number too large", p>>) THEN B3(b, p) + 16777216 * B1(b, p + 3) ELSE 0
B8(b, p) == IF Need(Bytes(b, p + 4, 4) = <<0, 0, 0, 0>>, <<"number too large", p>>) THEN B4(b, p) ELSE 0
UW(b, p, w) == CASE w = 1 -> B1(b, p) [] w = 2 -> B2(b, p) [] w = 3 -> B3(b, p) [] w = 4 -> B4(b, p) [] w = 8 -> B8(b, p)
                 [] OTHER -> IF Need(Bytes(b, p + 4, w - 4) = [i \in 1..(w - 4) |-> 0], <<"number too large", p>>) THEN B4(b, p) ELSE 0
AllFF(s) == \A i \in 1..Len(s) : s[i] = 255
\* An address, -1 if it is undefined
Addr(b, p) == IF AllFF(Bytes(b, p, 8)) THEN -1 ELSE B8(b, p)
Sig(b, p, s) == Need(Bytes(b, p, 4) = s, <<"signature", p, s>>)

\* How many bytes a text has that ends in NUL
RECURSIVE CLen(_, _)
CLen(b, p) == IF B1(b, p) = 0 THEN 0 ELSE 1 + CLen(b, p + 1)
UpToNul(s) == LET Z == {i \in 1..Len(s) : s[i] = 0} IN IF Z = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in Z : \A j \in Z : i <= j) - 1)

-----------------------------------------------------------------------------
(* Checksums.  A word of 32 bits is <<high half, low half>>. *)

WAdd(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div 65536)) % 65536, l % 65536>>
WSub(x, y) == LET l == x[2] - y[2] IN <<(x[1] - y[1] - (IF l < 0 THEN 1 ELSE 0)) % 65536, l % 65536>>
WXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
WRotS(x, k) == LET m == Pow2(k) d == Pow2(16 - k)
               IN <<((x[1] * m) % 65536) + (x[2] \div d), ((x[2] * m) % 65536) + (x[1] \div d)>>
WRot(x, k) == IF k = 16 THEN <<x[2], x[1]>> ELSE IF k > 16 THEN WRotS(<<x[2], x[1]>>, k - 16) ELSE WRotS(x, k)

\* One of the steps of lookup3's mix:  x -= z; x ^= rot(z, k); z += y
Mix(a0, b0, c0) ==
  LET a1 == WXor(WSub(a0, c0), WRot(c0, 4))   c1 == WAdd(c0, b0)
      b1 == WXor(WSub(b0, a1), WRot(a1, 6))   a2 == WAdd(a1, c1)
      c2 == WXor(WSub(c1, b1), WRot(b1, 8))   b2 == WAdd(b1, a2)
      a3 == WXor(WSub(a2, c2), WRot(c2, 16))  c3 == WAdd(c2, b2)
      b3 == WXor(WSub(b2, a3), WRot(a3, 19))  a4 == WAdd(a3, c3)
      c4 == WXor(WSub(c3, b3), WRot(b3, 4))   b4 == WAdd(b3, a4)
  IN <<a4, b4, c4>>
Final(a0, b0, c0) ==
  LET c1 == WSub(WXor(c0, b0), WRot(b0, 14))
      a1 == WSub(WXor(a0, c1), WRot(c1, 11))
      b1 == WSub(WXor(b0, a1), WRot(a1, 25))
      c2 == WSub(WXor(c1, b1), WRot(b1, 16))
      a2 == WSub(WXor(a1, c2), WRot(c2, 4))
      b2 == WSub(WXor(b1, a2), WRot(a2, 14))
  IN WSub(WXor(c2, b2), WRot(b2, 24))
\* Lookup3 of n bytes at p, as the four bytes in which it is stored
Lookup3(b, p, n) ==
  LET word(i) == LET x(j) == IF i * 4 + j < n THEN B1(b, p + i * 4 + j) ELSE 0
                 IN <<x(2) + 256 * x(3), x(0) + 256 * x(1)>>
      init == WAdd(<<57005, 48879>>, <<n \div 65536, n % 65536>>)
      rounds == IF n = 0 THEN 0 ELSE (n - 1) \div 12       \* all but the last 1..12 bytes
      r == FoldLeft(LAMBDA acc, i : Mix(WAdd(acc[1], word(3 * i - 3)), WAdd(acc[2], word(3 * i - 2)), WAdd(acc[3], word(3 * i - 1))),
                    <<init, init, init>>, [i \in 1..rounds |-> i])
      k == 3 * rounds
      w == IF n = 0 THEN r[3] ELSE Final(WAdd(r[1], word(k)), WAdd(r[2], word(k + 1)), WAdd(r[3], word(k + 2)))
  IN <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
\* The bytes from p up to q are followed by their checksum
Summed(b, p, q) == Need(Bytes(b, q, 4) = Lookup3(b, p, q - p), <<"checksum", p, q>>)

\* Fletcher's checksum, of 16-bit big-endian numbers; the last byte alone counts as the high half
Fletcher(s) ==
  LET n == Len(s)
      word(i) == 256 * s[2 * i - 1] + (IF 2 * i <= n THEN s[2 * i] ELSE 0)
      fold(x) == LET y == (x % 65536) + (x \div 65536) IN IF y >= 65536 THEN (y % 65536) + 1 ELSE y
      r == FoldLeft(LAMBDA acc, i : LET s1 == fold(acc[1] + word(i)) IN <<s1, fold(acc[2] + s1)>>, <<0, 0>>,
                    [i \in 1..((n + 1) \div 2) |-> i])
  IN <<r[1] % 256, r[1] \div 256, r[2] % 256, r[2] \div 256>>

-----------------------------------------------------------------------------
(* Object headers: the messages [ty, flags, corder, at, size] in all chunks,   *)
(* and the chunks as <<from, to>> with the checksum included                   *)

HdrFlags(b, p) == B1(b, p + 5)
\* The prefix of the header is followed by chunk 0
Chunk0(b, p) ==
  LET f == HdrFlags(b, p)
      x == p + 6 + (IF Bit(f, 5) THEN 16 ELSE 0) + (IF Bit(f, 4) THEN 4 ELSE 0)
      w == Pow2(f % 4)
  IN IF Sig(b, p, <<79, 72, 68, 82>>) /\ Need(B1(b, p + 4) = 2, <<"object header version", p>>) /\ Need(f < 64, <<"header flags", p>>)
     THEN <<x + w, x + w + UW(b, x, w)>> ELSE <<>>

RECURSIVE MessagesIn(_, _, _, _)
MessagesIn(b, p, end, ordered) ==
  LET h == IF ordered THEN 6 ELSE 4
  IN IF end - p < h THEN IF Need(\A i \in p..(end - 1) : B1(b, i) = 0, <<"gap", p>>) THEN <<>> ELSE <<>>
     ELSE LET n == B2(b, p + 1)
              m == [ty |-> B1(b, p), flags |-> B1(b, p + 3), corder |-> IF ordered THEN B2(b, p + 4) ELSE 0, at |-> p + h, size |-> n]
          IN IF Need(p + h + n <= end, <<"message past the end of its chunk", p>>)
             THEN <<m>> \o MessagesIn(b, p + h + n, end, ordered) ELSE <<>>

RECURSIVE Chunks(_, _, _, _)
\* todo: the continuation blocks still to be read, as <<from, length>>
Chunks(b, todo, ordered, first) ==
  IF todo = <<>> THEN [msgs |-> <<>>, spans |-> <<>>]
  ELSE LET c == Head(todo)
           q == c[1] + c[2] - 4
           ms == IF Sig(b, c[1], <<79, 67, 72, 75>>) /\ Summed(b, c[1], q) THEN MessagesIn(b, c[1] + 4, q, ordered) ELSE <<>>
           more == SelectSeq(ms, LAMBDA m : m.ty = 16)
           rest == Chunks(b, Tail(todo) \o [i \in 1..Len(more) |-> <<Addr(b, more[i].at), B8(b, more[i].at + 8)>>], ordered, FALSE)
       IN [msgs |-> ms \o rest.msgs, spans |-> <<<<c[1], q + 4>>>> \o rest.spans]

Header(b, p) ==
  LET c == Chunk0(b, p)
      ordered == Bit(HdrFlags(b, p), 2)
      ms == IF Summed(b, p, c[2]) THEN MessagesIn(b, c[1], c[2], ordered) ELSE <<>>
      more == SelectSeq(ms, LAMBDA m : m.ty = 16)
      rest == Chunks(b, [i \in 1..Len(more) |-> <<Addr(b, more[i].at), B8(b, more[i].at + 8)>>], ordered, FALSE)
  IN [msgs |-> SelectSeq(ms \o rest.msgs, LAMBDA m : m.ty # 0 /\ m.ty # 16), spans |-> <<<<p, c[2] + 4>>>> \o rest.spans]

Msgs(h, ty) == SelectSeq(h.msgs, LAMBDA m : m.ty = ty)
HasMsg(h, ty) == \E i \in 1..Len(h.msgs) : h.msgs[i].ty = ty
OneMsg(h, ty) == LET s == Msgs(h, ty) IN IF Need(Len(s) = 1, <<"messages of type", ty, Len(s)>>) THEN s[1] ELSE [at |-> 0]

-----------------------------------------------------------------------------
(* Dataspaces: [null, shape, max]; -1 for an unlimited maximum *)

SpaceAt(b, p) ==
  LET v == B1(b, p)
      r == B1(b, p + 1)
      f == B1(b, p + 2)
      at == p + (IF v = 1 THEN 8 ELSE 4)
      dims == [i \in 1..r |-> B8(b, at + 8 * (i - 1))]
  IN IF Need(v \in {1, 2} /\ r <= 32 /\ f \in {0, 1}, <<"dataspace", p>>)
        /\ Need(v = 1 \/ B1(b, p + 3) = (IF r = 0 THEN B1(b, p + 3) % 3 ELSE 1), <<"dataspace type", p>>)
     THEN [null |-> v = 2 /\ B1(b, p + 3) = 2, shape |-> dims,
           max |-> IF Bit(f, 0) THEN [i \in 1..r |-> Addr(b, at + 8 * (r + i - 1))] ELSE dims]
     ELSE [null |-> FALSE]

-----------------------------------------------------------------------------
(* Datatypes: [val, next].  k names the kind:                                  *)
(* the numbers by their NetCDF names; "str" a text of fixed length, "string",  *)
(* "vlen", "opaque", "enum", "compound", "array", "ref"                        *)

IntName(size, signed) ==
  CASE size = 1 -> IF signed THEN "int8" ELSE "uint8"
    [] size = 2 -> IF signed THEN "int16" ELSE "uint16"
    [] size = 4 -> IF signed THEN "int32" ELSE "uint32"
    [] size = 8 -> IF signed THEN "int64" ELSE "uint64"
    [] OTHER -> "odd"

OffsetWidth(n) == IF n < 256 THEN 1 ELSE IF n < 65536 THEN 2 ELSE IF n < 16777216 THEN 3 ELSE 4

RECURSIVE TypeAt(_, _)
RECURSIVE Fields(_, _, _, _, _)
RECURSIVE Names(_, _, _, _)
Fields(b, p, n, ver, size) ==
  IF n = 0 THEN [val |-> <<>>, next |-> p]
  ELSE LET l == CLen(b, p)
           o == p + (IF ver = 3 THEN l + 1 ELSE Pad8(l + 1))
           w == IF ver = 3 THEN OffsetWidth(size) ELSE 4
           rank == IF ver = 1 THEN B1(b, o + 4) ELSE 0
           t == TypeAt(b, o + w + (IF ver = 1 THEN 28 ELSE 0))
           ty == IF rank = 0 THEN t.val
                 ELSE LET d == [i \in 1..rank |-> B4(b, o + 16 + 4 * (i - 1))] IN [k |-> "array", dims |-> d, base |-> t.val, size |-> t.val.size * Times(d)]
           rest == Fields(b, t.next, n - 1, ver, size)
       IN IF Need(UW(b, o, w) + ty.size <= size, <<"field outside of its compound", p>>)
          THEN [val |-> <<[name |-> Bytes(b, p, l), off |-> UW(b, o, w), ty |-> ty]>> \o rest.val, next |-> rest.next]
          ELSE <<>>
Names(b, p, n, ver) ==
  IF n = 0 THEN [val |-> <<>>, next |-> p]
  ELSE LET l == CLen(b, p)
           rest == Names(b, p + (IF ver = 3 THEN l + 1 ELSE Pad8(l + 1)), n - 1, ver)
       IN [val |-> <<Bytes(b, p, l)>> \o rest.val, next |-> rest.next]

TypeAt(b, p) ==
  LET cls == B1(b, p) % 16
      ver == B1(b, p) \div 16
      b1 == B1(b, p + 1)
      b2 == B1(b, p + 2)
      size == B4(b, p + 4)
      big == Bit(b1, 0)
      q == p + 8
  IN IF ~Need(ver \in 1..3 /\ size > 0, <<"datatype", p>>) THEN <<>> ELSE
     CASE cls = 0 ->
            IF Need(B2(b, q) = 0 /\ B2(b, q + 2) = 8 * size /\ size \in {1, 2, 4, 8} /\ b1 \div 16 = 0, <<"integer type", p>>)
            THEN [val |-> [k |-> IntName(size, Bit(b1, 3)), big |-> big, size |-> size], next |-> q + 4] ELSE <<>>
       [] cls = 1 ->
            IF Need(/\ size \in {4, 8} /\ b1 \in {32, 33} /\ b2 = 8 * size - 1 /\ B2(b, q) = 0 /\ B2(b, q + 2) = 8 * size
                    /\ Bytes(b, q + 4, 4) = (IF size = 4 THEN <<23, 8, 0, 23>> ELSE <<52, 11, 0, 52>>)
                    /\ B4(b, q + 8) = (IF size = 4 THEN 127 ELSE 1023), <<"float type", p>>)
            THEN [val |-> [k |-> IF size = 4 THEN "float32" ELSE "float64", big |-> big, size |-> size], next |-> q + 12] ELSE <<>>
       [] cls = 3 ->
            IF Need(b1 % 16 \in {0, 1} /\ b1 \div 16 \in {0, 1}, <<"string type", p>>)
            THEN [val |-> [k |-> "str", pad |-> b1 % 16, size |-> size], next |-> q] ELSE <<>>
       [] cls = 5 -> [val |-> [k |-> "opaque", size |-> size, tag |-> UpToNul(Bytes(b, q, b1))], next |-> q + b1]
       [] cls = 6 ->
            LET f == Fields(b, q, b1 + 256 * b2, ver, size)
            IN [val |-> [k |-> "compound", size |-> size, fields |-> f.val], next |-> f.next]
       [] cls = 7 -> [val |-> [k |-> "ref", size |-> size], next |-> q]
       [] cls = 8 ->
            LET n == b1 + 256 * b2
                t == TypeAt(b, q)
                m == Names(b, t.next, n, ver)
                one(i) == LET x == Bytes(b, m.next + (i - 1) * size, size) IN IF t.val.big THEN x ELSE Rev(x)
            IN IF Need(t.val.size = size, <<"enumeration size", p>>)
               THEN [val |-> [k |-> "enum", base |-> t.val, size |-> size,
                              members |-> [i \in 1..n |-> [name |-> m.val[i], val |-> one(i)]]],
                     next |-> m.next + n * size] ELSE <<>>
       [] cls = 9 ->
            LET t == TypeAt(b, q)
            IN IF Need(size = 16 /\ b1 % 16 \in {0, 1}, <<"variable-length type", p>>)
               THEN [val |-> IF b1 % 16 = 1 THEN [k |-> "string", size |-> 16] ELSE [k |-> "vlen", base |-> t.val, size |-> 16],
                     next |-> t.next] ELSE <<>>
       [] cls = 10 ->
            LET n == B1(b, q)
                at == q + (IF ver = 3 THEN 1 ELSE 4)
                d == [i \in 1..n |-> B4(b, at + 4 * (i - 1))]
                t == TypeAt(b, at + 4 * n + (IF ver = 3 THEN 0 ELSE 4 * n))
            IN IF Need(size = t.val.size * Times(d), <<"array size", p>>)
               THEN [val |-> [k |-> "array", dims |-> d, base |-> t.val, size |-> size], next |-> t.next] ELSE <<>>
       [] OTHER -> IF Need(FALSE, <<"datatype class", p, cls>>) THEN <<>> ELSE <<>>

\* The type in a message that may refer to a named type instead (flag bit 1)
TypeOfMsg(b, p, shared) ==
  IF ~shared THEN TypeAt(b, p).val
  ELSE LET at == IF B1(b, p) = 3 THEN p + 2 ELSE p + 2
       IN IF Need(B1(b, p) \in {2, 3} /\ B1(b, p + 1) \in {0, 2}, <<"shared message", p>>)
          THEN TypeAt(b, OneMsg(Header(b, Addr(b, at)), 3).at).val ELSE <<>>

-----------------------------------------------------------------------------
(* Global heaps *)

RECURSIVE HeapObjects(_, _, _)
\* The objects [ix, at, size] of a collection, the free space left out
HeapObjects(b, p, end) ==
  IF end - p < 16 THEN <<>>
  ELSE LET ix == B2(b, p)
           n == B8(b, p + 8)
       IN IF ix = 0 THEN IF Need(p + n = end, <<"free space of a global heap", p>>) THEN <<>> ELSE <<>>
          ELSE IF Need(p + 16 + n <= end, <<"global heap object", p>>)
               THEN <<[ix |-> ix, at |-> p + 16, size |-> n]>> \o HeapObjects(b, p + 16 + Pad8(n), end) ELSE <<>>
Collection(b, p) ==
  IF Sig(b, p, <<71, 67, 79, 76>>) /\ Need(B1(b, p + 4) = 1 /\ B8(b, p + 8) >= 4096 /\ p + B8(b, p + 8) <= Len(b), <<"global heap", p>>)
  THEN LET s == HeapObjects(b, p + 16, p + B8(b, p + 8))
       IN IF Need(\A i, j \in 1..Len(s) : s[i].ix = s[j].ix => i = j, <<"index twice in a global heap", p>>) THEN s ELSE <<>>
  ELSE <<>>
\* The bytes of a heap object, found without reading the whole collection into a sequence
RECURSIVE FindObject(_, _, _, _)
FindObject(b, p, end, ix) ==
  IF Need(end - p >= 16 /\ B2(b, p) # 0, <<"no such object in the global heap", p, ix>>)
  THEN IF B2(b, p) = ix THEN Bytes(b, p + 16, B8(b, p + 8)) ELSE FindObject(b, p + 16 + Pad8(B8(b, p + 8)), end, ix)
  ELSE <<>>
HeapBytes(b, p, ix) ==
  IF Sig(b, p, <<71, 67, 79, 76>>) THEN FindObject(b, p + 16, p + B8(b, p + 8), ix) ELSE <<>>

-----------------------------------------------------------------------------
(* Elements: numbers are their bytes, highest first *)

RECURSIVE Value(_, _, _)
\* s: the bytes of one element; b: the file, for what is in its heaps
Value(b, t, s) ==
  CASE t.k = "str" -> UpToNul(s)
    [] t.k = "opaque" -> s
    [] t.k = "ref" -> Rev(s)
    [] t.k = "enum" -> IF t.base.big THEN s ELSE Rev(s)
    [] t.k = "compound" -> [i \in 1..Len(t.fields) |-> Value(b, t.fields[i].ty, SubSeq(s, t.fields[i].off + 1, t.fields[i].off + t.fields[i].ty.size))]
    [] t.k = "array" -> [i \in 1..Times(t.dims) |-> Value(b, t.base, SubSeq(s, (i - 1) * t.base.size + 1, i * t.base.size))]
    [] t.k = "string" ->
         LET n == B4(s, 0) IN IF n = 0 \/ B8(s, 4) = 0 THEN <<>>
                              ELSE LET h == HeapBytes(b, B8(s, 4), B4(s, 12))
                                   IN IF Need(Len(h) >= n, "string longer than its heap object") THEN UpToNul(SubSeq(h, 1, n)) ELSE <<>>
    [] t.k = "vlen" ->
         LET n == B4(s, 0) IN IF n = 0 THEN <<>>
                              ELSE LET h == HeapBytes(b, B8(s, 4), B4(s, 12))
                                   IN IF Need(Len(h) >= n * t.base.size, "sequence longer than its heap object")
                                      THEN [i \in 1..n |-> Value(b, t.base, SubSeq(h, (i - 1) * t.base.size + 1, i * t.base.size))] ELSE <<>>
    [] OTHER -> IF t.big THEN s ELSE Rev(s)
\* The addresses of the heaps in which parts of the element are
RECURSIVE Heaps(_, _, _)
HasHeap(t) == t.k \in {"string", "vlen", "compound", "array"}
Heaps(b, t, s) ==
  CASE t.k = "compound" -> UNION {Heaps(b, t.fields[i].ty, SubSeq(s, t.fields[i].off + 1, t.fields[i].off + t.fields[i].ty.size)) : i \in 1..Len(t.fields)}
    [] t.k = "array" -> UNION {Heaps(b, t.base, SubSeq(s, (i - 1) * t.base.size + 1, i * t.base.size)) : i \in 1..Times(t.dims)}
    [] t.k \in {"string", "vlen"} ->
         LET n == B4(s, 0) IN IF n = 0 \/ B8(s, 4) = 0 THEN {}
                              ELSE {B8(s, 4)} \cup (IF t.k = "string" \/ ~HasHeap(t.base) THEN {}
                                                   ELSE LET h == HeapBytes(b, B8(s, 4), B4(s, 12))
                                                        IN UNION {Heaps(b, t.base, SubSeq(h, (i - 1) * t.base.size + 1, i * t.base.size)) : i \in 1..n})
    [] OTHER -> {}
HeapsOf(b, t, s) == IF ~HasHeap(t) THEN {} ELSE UNION {Heaps(b, t, SubSeq(s, (i - 1) * t.size + 1, i * t.size)) : i \in 1..(Len(s) \div t.size)}
Values(b, t, s, n) == IF Need(Len(s) >= n * t.size, "too few bytes for a value")
                      THEN [i \in 1..n |-> Value(b, t, SubSeq(s, (i - 1) * t.size + 1, i * t.size))] ELSE <<>>

-----------------------------------------------------------------------------
(* Attributes *)

AttrAt(b, p, size, corder) ==
  LET v == B1(b, p)
      f == B1(b, p + 1)
      ns == B2(b, p + 2)
      ts == B2(b, p + 4)
      ss == B2(b, p + 6)
      pad(n) == IF v = 1 THEN Pad8(n) ELSE n
      n0 == p + (IF v = 3 THEN 9 ELSE 8)
      t0 == n0 + pad(ns)
      s0 == t0 + pad(ts)
      d0 == s0 + pad(ss)
      ty == TypeOfMsg(b, t0, v > 1 /\ Bit(f, 0))
      sp == SpaceAt(b, s0)
      n == IF sp.null THEN 0 ELSE Times(sp.shape)
  IN IF Need(v \in {1, 2, 3}, <<"attribute version", p>>) /\ Need(ns > 0 /\ B1(b, n0 + ns - 1) = 0, <<"attribute name", p>>)
        /\ Need(d0 + n * ty.size <= p + size, <<"attribute data outside of the message", p>>)
     THEN [name |-> UpToNul(Bytes(b, n0, ns)), ty |-> ty, shape |-> sp.shape, corder |-> corder, n |-> n,
           raw |-> Bytes(b, d0, n * ty.size)]
     ELSE <<>>

-----------------------------------------------------------------------------
(* Fractal heaps and version 2 B-trees, for many attributes or links *)

CeilLog2(n) == CHOOSE k \in 0..31 : (k = 0 \/ Pow2(k - 1) < n) /\ (IF k = 31 THEN TRUE ELSE n <= Pow2(k))
Log2(n) == CHOOSE k \in 0..30 : Pow2(k) <= n /\ n \div 2 < Pow2(k)
ByteWidth(n) == (Log2(n) \div 8) + 1       \* bytes needed for numbers up to n

FracHeap(b, p) ==
  LET fl == B2(b, p + 7)
      root == Addr(b, p + 132)
  IN IF Sig(b, p, <<70, 82, 72, 80>>) /\ Need(B1(b, p + 4) = 0 /\ fl = 0, <<"fractal heap", p>>) /\ Summed(b, p, p + 142)
     THEN [at |-> p, idlen |-> B2(b, p + 5), sums |-> Bit(B1(b, p + 9), 1), maxmanaged |-> B4(b, p + 10),
           width |-> B2(b, p + 110), start |-> B8(b, p + 112), maxdirect |-> B8(b, p + 120), maxheap |-> B2(b, p + 128),
           root |-> root, rows |-> B2(b, p + 140)]
     ELSE <<>>
RowSize(h, r) == IF r <= 1 THEN h.start ELSE h.start * Pow2(r - 1)
OffW(h) == (h.maxheap + 7) \div 8
\* The direct blocks [at, off, size]; blocks below indirect blocks of the second level are not decoded
DirectBlocks(b, h) ==
  IF h.root = -1 THEN <<>>
  ELSE IF h.rows = 0 THEN <<[at |-> h.root, off |-> 0, size |-> h.start]>>
  ELSE LET one(i) == LET r == (i - 1) \div h.width
                         before == FoldLeft(LAMBDA a, j : a + h.width * RowSize(h, j - 1), 0, [j \in 1..r |-> j])
                     IN [at |-> Addr(b, h.root + 13 + OffW(h) + 8 * (i - 1)), off |-> before + ((i - 1) % h.width) * RowSize(h, r), size |-> RowSize(h, r)]
       IN IF Sig(b, h.root, <<70, 72, 73, 66>>) /\ Need(RowSize(h, h.rows - 1) <= h.maxdirect, "deep fractal heap")
          THEN SelectSeq([i \in 1..(h.rows * h.width) |-> one(i)], LAMBDA d : d.at # -1) ELSE <<>>
\* Where the object of a heap ID is: [at, size]
HeapObject(b, h, ds, p) ==
  LET ow == OffW(h)
      lw == ByteWidth(IF h.maxdirect < h.maxmanaged THEN h.maxdirect ELSE h.maxmanaged)
      off == UW(b, p + 1, ow)
      n == UW(b, p + 1 + ow, lw)
      I == {i \in 1..Len(ds) : ds[i].off <= off /\ off + n <= ds[i].off + ds[i].size}
  IN IF Need(B1(b, p) = 0, <<"heap ID", p>>) /\ Need(Cardinality(I) = 1, <<"heap object", p, off>>)
     THEN LET d == ds[CHOOSE i \in I : TRUE] IN [at |-> d.at + (off - d.off), size |-> n] ELSE <<>>

BtHeader(b, p) ==
  IF Sig(b, p, <<66, 84, 72, 68>>) /\ Summed(b, p, p + 34)
  THEN [type |-> B1(b, p + 5), node |-> B4(b, p + 6), rec |-> B2(b, p + 10), depth |-> B2(b, p + 12), root |-> Addr(b, p + 16),
        nroot |-> B2(b, p + 24), total |-> B8(b, p + 26)] ELSE <<>>
\* How many records fit in the nodes of each level, and how wide their counts are
LeafMax(t) == (t.node - 10) \div t.rec
RECURSIVE CumMax(_, _)
RECURSIVE NodeMax(_, _)
CntW(t) == ByteWidth(LeafMax(t))
PtrSize(t, d) == 8 + CntW(t) + (IF d <= 1 THEN 0 ELSE ByteWidth(CumMax(t, d - 1)))
NodeMax(t, d) == IF d = 0 THEN LeafMax(t) ELSE (t.node - 10 - PtrSize(t, d)) \div (t.rec + PtrSize(t, d))
CumMax(t, d) == IF d = 0 THEN LeafMax(t) ELSE (NodeMax(t, d) + 1) * CumMax(t, d - 1) + NodeMax(t, d)
RECURSIVE BtNode(_, _, _, _, _)
\* [recs: positions of the records, in order; spans]
BtNode(b, t, at, n, depth) ==
  LET recs == [i \in 1..n |-> at + 6 + (i - 1) * t.rec]
      pw == PtrSize(t, depth)
      end == IF depth = 0 THEN at + 6 + n * t.rec ELSE at + 6 + n * t.rec + (n + 1) * pw
      kid(i) == LET q == at + 6 + n * t.rec + (i - 1) * pw IN BtNode(b, t, Addr(b, q), UW(b, q + 8, CntW(t)), depth - 1)
  IN IF /\ Sig(b, at, IF depth = 0 THEN <<66, 84, 76, 70>> ELSE <<66, 84, 73, 78>>) /\ Summed(b, at, end)
     THEN IF depth = 0 THEN [recs |-> recs, spans |-> <<<<at, end + 4>>>>]
          ELSE LET kids == [i \in 1..(n + 1) |-> kid(i)]
               IN [recs |-> Join([i \in 1..(2 * n + 1) |-> IF i % 2 = 1 THEN kids[(i + 1) \div 2].recs ELSE <<recs[i \div 2]>>]),
                   spans |-> <<<<at, end + 4>>>> \o Join([i \in 1..(n + 1) |-> kids[i].spans])]
     ELSE <<>>
BtRecords(b, p) ==
  LET t == BtHeader(b, p)
      r == IF t.root = -1 \/ t.nroot = 0 THEN [recs |-> <<>>, spans |-> <<>>] ELSE BtNode(b, t, t.root, t.nroot, t.depth)
  IN IF Need(Len(r.recs) = t.total, <<"number of B-tree records", p>>)
     THEN [recs |-> r.recs, spans |-> <<<<p, p + 38>>>> \o r.spans] ELSE <<>>

\* The blocks of a heap that have checksums; those of direct blocks only if the heap says so
HeapSpans(b, h, ds) ==
  <<<<h.at, h.at + 146>>>>
  \o (IF h.root # -1 /\ h.rows > 0
      THEN LET e == h.root + 13 + OffW(h) + 8 * h.rows * h.width IN IF Summed(b, h.root, e) THEN <<<<h.root, e + 4>>>> ELSE <<>>
      ELSE <<>>)

\* The checksum of a direct block is of the whole block with the checksum itself taken as zero
BlockOK(b, h, d) ==
  ~h.sums \/ LET c == d.at + 13 + OffW(h)
                 s == Bytes(b, d.at, c - d.at) \o <<0, 0, 0, 0>> \o Bytes(b, c + 4, d.size - (c + 4 - d.at))
             IN Need(Bytes(b, c, 4) = Lookup3(s, 0, d.size), <<"checksum of a heap block", d.at>>)

-----------------------------------------------------------------------------
(* Attributes of an object, in the order in which they were created *)

RawAttributes(b, h) ==
  LET inhdr == [i \in 1..Len(Msgs(h, 12)) |-> LET m == Msgs(h, 12)[i] IN AttrAt(b, m.at, m.size, m.corder)]
      dense ==
        IF ~HasMsg(h, 21) THEN <<>>
        ELSE LET p == OneMsg(h, 21).at
                 at == p + 2 + (IF Bit(B1(b, p + 1), 0) THEN 2 ELSE 0)
             IN IF Addr(b, at) = -1 THEN <<>>
                ELSE LET fh == FracHeap(b, Addr(b, at))
                         ds == DirectBlocks(b, fh)
                         rs == BtRecords(b, Addr(b, at + 8)).recs
                     IN IF \A i \in 1..Len(ds) : BlockOK(b, fh, ds[i])
                        THEN [i \in 1..Len(rs) |-> LET o == HeapObject(b, fh, ds, rs[i])
                                                   IN AttrAt(b, o.at, o.size, B4(b, rs[i] + 9))] ELSE <<>>
      all == inhdr \o dense
  IN IF Need(\A i, j \in 1..Len(all) : all[i].name = all[j].name => i = j, "attribute twice")
     THEN IF HasMsg(h, 21) THEN SortSeq(all, LAMBDA x, y : x.corder < y.corder) ELSE all ELSE <<>>
Attributes(b, h) == LET r == RawAttributes(b, h)
                    IN [i \in 1..Len(r) |-> [name |-> r[i].name, ty |-> r[i].ty, shape |-> r[i].shape, elems |-> Values(b, r[i].ty, r[i].raw, r[i].n)]]

-----------------------------------------------------------------------------
(* Links of a group, in the order in which they were created if that is known *)

LinkAt(b, p) ==
  LET f == B1(b, p + 1)
      q1 == p + 2 + (IF Bit(f, 3) THEN 1 ELSE 0)
      q2 == q1 + (IF Bit(f, 2) THEN 8 ELSE 0)
      q3 == q2 + (IF Bit(f, 4) THEN 1 ELSE 0)
      w == Pow2(f % 4)
      n == UW(b, q3, w)
  IN IF Need(B1(b, p) = 1 /\ (~Bit(f, 3) \/ B1(b, p + 2) = 0) /\ f < 32, <<"link", p>>) /\ Need(n > 0, <<"link name", p>>)
     THEN [name |-> Bytes(b, q3 + w, n), to |-> Addr(b, q3 + w + n), corder |-> IF Bit(f, 2) THEN B8(b, q1) ELSE 0] ELSE <<>>
Links(b, h) ==
  LET p == OneMsg(h, 2).at
      at == p + 2 + (IF Bit(B1(b, p + 1), 0) THEN 8 ELSE 0)
      inhdr == [i \in 1..Len(Msgs(h, 6)) |-> LinkAt(b, Msgs(h, 6)[i].at)]
      dense ==
        IF Addr(b, at) = -1 THEN <<>>
        ELSE LET fh == FracHeap(b, Addr(b, at))
                 ds == DirectBlocks(b, fh)
                 rs == BtRecords(b, Addr(b, at + 8)).recs
             IN IF \A i \in 1..Len(ds) : BlockOK(b, fh, ds[i])
                THEN [i \in 1..Len(rs) |-> LinkAt(b, HeapObject(b, fh, ds, rs[i] + 4).at)] ELSE <<>>
      all == inhdr \o dense
  IN IF Need(\A i, j \in 1..Len(all) : all[i].name = all[j].name => i = j, "link twice")
     THEN IF Bit(B1(b, p + 1), 0) THEN SortSeq(all, LAMBDA x, y : x.corder < y.corder) ELSE all ELSE <<>>

-----------------------------------------------------------------------------
(* Storage: the bytes of a dataset's value *)

Filters(b, h) ==
  IF ~HasMsg(h, 11) THEN <<>>
  ELSE LET p == OneMsg(h, 11).at
           v == B1(b, p)
           RECURSIVE From(_, _)
           From(q, n) ==
             IF n = 0 THEN <<>>
             ELSE LET id == B2(b, q)
                      named == v = 1 \/ id >= 256
                      nl == IF named THEN B2(b, q + 2) ELSE 0
                      q1 == q + (IF named THEN 4 ELSE 2)
                      nc == B2(b, q1 + 2)
                      c0 == q1 + 4 + (IF v = 1 THEN Pad8(nl) ELSE nl)
                  IN <<[id |-> id, cd |-> [i \in 1..nc |-> B4(b, c0 + 4 * (i - 1))]]>>
                     \o From(c0 + 4 * nc + (IF v = 1 /\ nc % 2 = 1 THEN 4 ELSE 0), n - 1)
       IN From(p + (IF v = 1 THEN 8 ELSE 2), B1(b, p + 1))

Unshuffle(s, w) == LET n == Len(s) \div w
                   IN [i \in 1..Len(s) |-> IF i > n * w THEN s[i] ELSE s[((i - 1) % w) * n + ((i - 1) \div w) + 1]]
RECURSIVE Unfilter(_, _, _)
\* Undoes the filters in reverse order; bit i of the mask says that filter i was not applied
Unfilter(fs, mask, s) ==
  IF fs = <<>> THEN s
  ELSE LET f == fs[Len(fs)]
           rest(x) == Unfilter(SubSeq(fs, 1, Len(fs) - 1), mask, x)
       IN IF Bit(mask, Len(fs) - 1) THEN rest(s)
          ELSE CASE f.id = 2 -> rest(Unshuffle(s, f.cd[1]))
                 [] f.id = 3 -> IF Need(SubSeq(s, Len(s) - 3, Len(s)) = Fletcher(SubSeq(s, 1, Len(s) - 4)), "checksum of a chunk")
                                THEN rest(SubSeq(s, 1, Len(s) - 4)) ELSE <<>>
                 [] OTHER -> IF Need(FALSE, <<"filter", f.id>>) THEN <<>> ELSE <<>>
CanUnfilter(fs) == \A i \in 1..Len(fs) : fs[i].id \in {2, 3}

RECURSIVE Tree(_, _, _)
\* The chunks [at, size, mask, off] below a node of a version 1 B-tree
Tree(b, p, rank) ==
  IF p = -1 THEN <<>>
  ELSE LET n == B2(b, p + 6)
           ks == 8 + 8 * (rank + 1)
           key(i) == p + 24 + (i - 1) * (ks + 8)
           one(i) == [at |-> Addr(b, key(i) + ks), size |-> B4(b, key(i)), mask |-> B4(b, key(i) + 4),
                      off |-> [j \in 1..rank |-> B8(b, key(i) + 8 + 8 * (j - 1))]]
       IN IF Sig(b, p, <<84, 82, 69, 69>>) /\ Need(B1(b, p + 4) = 1, <<"B-tree type", p>>)
          THEN IF B1(b, p + 5) = 0 THEN [i \in 1..n |-> one(i)]
               ELSE Join([i \in 1..n |-> Tree(b, Addr(b, key(i) + ks), rank)])
          ELSE <<>>

\* [class, at, size, cdims] of the storage
Layout(b, h) ==
  LET p == OneMsg(h, 8).at
      c == B1(b, p + 1)
      r == B1(b, p + 2) - 1
  IN IF Need(B1(b, p) = 3, <<"layout version", p>>)
     THEN CASE c = 0 -> [class |-> "compact", at |-> p + 4, size |-> B2(b, p + 2), cdims |-> <<>>]
            [] c = 1 -> [class |-> "contiguous", at |-> Addr(b, p + 2), size |-> B8(b, p + 10), cdims |-> <<>>]
            [] c = 2 -> [class |-> "chunked", at |-> Addr(b, p + 3), size |-> 0, cdims |-> [i \in 1..r |-> B4(b, p + 11 + 4 * (i - 1))]]
     ELSE <<>>

\* The fill value's bytes, <<>> if there is none
FillBytes(b, h) ==
  IF ~HasMsg(h, 5) THEN <<>>
  ELSE LET p == OneMsg(h, 5).at
           v == B1(b, p)
       IN IF v = 3 THEN (IF Bit(B1(b, p + 1), 5) THEN Bytes(b, p + 6, B4(b, p + 2)) ELSE <<>>)
          ELSE IF B1(b, p + 3) = 1 THEN Bytes(b, p + 8, B4(b, p + 4)) ELSE <<>>

\* The index in an array, from 0, of an element given by its position from 1
RECURSIVE Coord(_, _)
Coord(shape, k) == IF shape = <<>> THEN <<>>
                   ELSE LET below == Times(Tail(shape)) IN <<k \div below>> \o Coord(Tail(shape), k % below)
RECURSIVE Flat(_, _)
Flat(shape, c) == IF shape = <<>> THEN 0 ELSE Head(c) * Times(Tail(shape)) + Flat(Tail(shape), Tail(c))

\* The elements; <<-1>> stands for one that is not stored
Missing == <<-1>>
Elements(b, h, ty, sp) ==
  LET l == Layout(b, h)
      n == IF sp.null THEN 0 ELSE Times(sp.shape)
      rank == Len(sp.shape)
  IN CASE l.class = "compact" -> IF Need(l.size = n * ty.size, "size of compact data") THEN Values(b, ty, Bytes(b, l.at, l.size), n) ELSE <<>>
       [] l.class = "contiguous" ->
            IF l.at = -1 THEN [i \in 1..n |-> Missing]
            ELSE IF Need(l.size = n * ty.size, <<"size of contiguous data", l.size, n * ty.size>>) THEN Values(b, ty, Bytes(b, l.at, l.size), n) ELSE <<>>
       [] l.class = "chunked" ->
            LET cs == Tree(b, l.at, rank)
                fs == Filters(b, h)
                csize == Times(l.cdims)
                raw == [i \in 1..Len(cs) |-> Values(b, ty, Unfilter(fs, cs[i].mask, Bytes(b, cs[i].at, cs[i].size)), csize)]
                where(c) == {i \in 1..Len(cs) : \A j \in 1..rank : cs[i].off[j] <= c[j] /\ c[j] < cs[i].off[j] + l.cdims[j]}
            IN IF ~CanUnfilter(fs) THEN <<>>
               ELSE [k \in 1..n |->
                       LET c == Coord(sp.shape, k - 1)
                           W == where(c)
                       IN IF W = {} THEN Missing
                          ELSE LET i == CHOOSE i \in W : TRUE
                               IN IF Need(Cardinality(W) = 1, "overlapping chunks")
                                  THEN raw[i][Flat(l.cdims, [j \in 1..rank |-> c[j] - cs[i].off[j]]) + 1] ELSE <<>>]

-----------------------------------------------------------------------------
(* Objects *)

RECURSIVE Object(_, _, _)
\* A group with all below it, a dataset, or a named type.  withData: also the values
Object(b, p, withData) ==
  LET h == Header(b, p)
  IN IF HasMsg(h, 2)
     THEN LET ls == Links(b, h)
          IN [is |-> "group", addr |-> p, attrs |-> Attributes(b, h),
              links |-> [i \in 1..Len(ls) |-> [name |-> ls[i].name, obj |-> Object(b, ls[i].to, withData)]]]
     ELSE IF HasMsg(h, 8)
     THEN LET m == OneMsg(h, 3)
              ty == TypeOfMsg(b, m.at, Bit(m.flags, 1))
              sp == SpaceAt(b, OneMsg(h, 1).at)
              fb == FillBytes(b, h)
          IN [is |-> "dataset", addr |-> p, attrs |-> Attributes(b, h), ty |-> ty, shape |-> sp.shape, max |-> sp.max,
              class |-> Layout(b, h).class, cdims |-> Layout(b, h).cdims, filters |-> Filters(b, h),
              fill |-> IF fb = <<>> THEN <<>> ELSE <<Value(b, ty, fb)>>,
              known |-> CanUnfilter(Filters(b, h)),
              elems |-> IF withData THEN Elements(b, h, ty, sp) ELSE <<>>]
     ELSE LET m == OneMsg(h, 3) IN [is |-> "type", addr |-> p, attrs |-> Attributes(b, h), ty |-> TypeAt(b, m.at).val]

Signature == <<137, 72, 68, 70, 13, 10, 26, 10>>
Superblock(b) ==
  IF /\ Need(Bytes(b, 0, 8) = Signature, "signature")
     /\ Need(B1(b, 8) \in {2, 3} /\ B1(b, 9) = 8 /\ B1(b, 10) = 8 /\ Addr(b, 12) = 0 /\ Addr(b, 20) = -1, "superblock")
     /\ Summed(b, 0, 44)
  THEN [eof |-> B8(b, 28), root |-> Addr(b, 36)] ELSE <<>>

File(b, withData) ==
  LET s == Superblock(b)
  IN IF Need(s.eof <= Len(b), "end of file address") THEN [eof |-> s.eof, root |-> Object(b, s.root, withData)] ELSE <<>>

-----------------------------------------------------------------------------
(* The parts of the file: [from, to, kind].  kind "meta": with a checksum of   *)
(* all of it; "chunk": a chunk with fletcher32; "data", "heap", "tree",        *)
(* "block": without                                                            *)

Part(s, kind) == [from |-> s[1], to |-> s[2], kind |-> kind]
RECURSIVE TreeParts(_, _, _, _)
TreeParts(b, p, rank, summed) ==
  IF p = -1 THEN <<>>
  ELSE LET ks == 8 + 8 * (rank + 1)
           n == B2(b, p + 6)
           kid(i) == Addr(b, p + 24 + (i - 1) * (ks + 8) + ks)
           size(i) == B4(b, p + 24 + (i - 1) * (ks + 8))
           mask(i) == B4(b, p + 24 + (i - 1) * (ks + 8) + 4)
       IN <<Part(<<p, p + 24 + n * (ks + 8)>>, "tree")>>
          \o (IF B1(b, p + 5) = 0
              THEN [i \in 1..n |-> Part(<<kid(i), kid(i) + size(i)>>, IF summed >= 0 /\ ~Bit(mask(i), summed) THEN "chunk" ELSE "data")]
              ELSE Join([i \in 1..n |-> TreeParts(b, kid(i), rank, summed)]))

DenseParts(b, heap, tree) ==
  IF heap = -1 THEN <<>>
  ELSE LET fh == FracHeap(b, heap)
           ds == DirectBlocks(b, fh)
           sp == HeapSpans(b, fh, ds) \o BtRecords(b, tree).spans
       IN [i \in 1..Len(sp) |-> Part(sp[i], "meta")]
          \o [i \in 1..Len(ds) |-> Part(<<ds[i].at, ds[i].at + ds[i].size>>, IF fh.sums THEN "meta" ELSE "block")]

RECURSIVE ObjectParts(_, _)
ObjectParts(b, p) ==
  LET h == Header(b, p)
      own == [i \in 1..Len(h.spans) |-> Part(h.spans[i], "meta")]
      ai == IF HasMsg(h, 21) THEN LET q == OneMsg(h, 21).at
                                      at == q + 2 + (IF Bit(B1(b, q + 1), 0) THEN 2 ELSE 0)
                                  IN DenseParts(b, Addr(b, at), Addr(b, at + 8))
            ELSE <<>>
      data == IF ~HasMsg(h, 8) THEN <<>>
              ELSE LET l == Layout(b, h)
                       fs == Filters(b, h)
                       F == {i \in 1..Len(fs) : fs[i].id = 3}
                       rank == Len(SpaceAt(b, OneMsg(h, 1).at).shape)
                   IN CASE l.class = "contiguous" -> IF l.at = -1 THEN <<>> ELSE <<Part(<<l.at, l.at + l.size>>, "data")>>
                        [] l.class = "chunked" -> TreeParts(b, l.at, rank, IF F = {} THEN -1 ELSE (CHOOSE i \in F : TRUE) - 1)
                        [] OTHER -> <<>>
      below == IF ~HasMsg(h, 2) THEN <<>>
               ELSE LET q == OneMsg(h, 2).at
                        at == q + 2 + (IF Bit(B1(b, q + 1), 0) THEN 8 ELSE 0)
                        ls == Links(b, h)
                    IN DenseParts(b, Addr(b, at), Addr(b, at + 8)) \o Join([i \in 1..Len(ls) |-> ObjectParts(b, ls[i].to)])
  IN own \o ai \o data \o below

\* The heaps used below an object (those of chunked data left out)
RECURSIVE UsedHeaps(_, _)
UsedHeaps(b, p) ==
  LET h == Header(b, p)
      as == RawAttributes(b, h)
      ls == IF HasMsg(h, 2) THEN Links(b, h) ELSE <<>>
      m == OneMsg(h, 3)
  IN UNION {HeapsOf(b, as[i].ty, as[i].raw) : i \in 1..Len(as)}
     \cup UNION {UsedHeaps(b, ls[i].to) : i \in 1..Len(ls)}
     \cup (IF ~HasMsg(h, 8) THEN {}
           ELSE LET l == Layout(b, h)
                IN IF l.class = "chunked" \/ l.at = -1 THEN {}
                   ELSE HeapsOf(b, TypeOfMsg(b, m.at, Bit(m.flags, 1)), Bytes(b, l.at, l.size)))

Parts(b) ==
  LET root == Superblock(b).root
      hs == SetToSeq(UsedHeaps(b, root))
  IN <<Part(<<0, 48>>, "meta")>> \o ObjectParts(b, root)
     \o [i \in 1..Len(hs) |-> IF Need(Len(Collection(b, hs[i])) > 0, "empty global heap") THEN Part(<<hs[i], hs[i] + B8(b, hs[i] + 8)>>, "heap") ELSE <<>>]
\* All of them are in the file, and no two share a byte
PartsDisjoint(b) ==
  LET s == SortSeq(SelectSeq(Parts(b), LAMBDA x : x.to > x.from), LAMBDA x, y : x.from < y.from)
  IN /\ \A i \in 1..Len(s) : s[i].to <= Len(b)
     /\ \A i \in 1..(Len(s) - 1) : s[i].to <= s[i + 1].from
=============================================================================
