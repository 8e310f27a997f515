------------------------------- MODULE CdfBytes -------------------------------
(* The classic NetCDF formats (CDF-1, CDF-2, CDF-5): how a dataset is laid     *)
(* out as bytes (Encode) and which dataset the bytes of a file mean (Decode,   *)
(* written independently of Encode; CdfFormat checks that they agree).         *)
(* A file may end early: elements that are not completely in the file are the  *)
(* variable's fill value.                                                      *)
(* Text is a sequence of byte values; an element is the sequence of its bytes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

-----------------------------------------------------------------------------
(* Types: nc_type 1..11 = byte char short int float double ubyte ushort uint int64 uint64 *)

Width == <<1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8>>
DefaultFill == << <<129>>, <<0>>, <<128, 1>>, <<128, 0, 0, 1>>, <<124, 240, 0, 0>>, <<71, 158, 0, 0, 0, 0, 0, 0>>,
                  <<255>>, <<255, 255>>, <<255, 255, 255, 255>>, <<128, 0, 0, 0, 0, 0, 0, 2>>,
                  <<255, 255, 255, 255, 255, 255, 255, 254>> >>
TypesOf(ver) == IF ver = 5 THEN 1..11 ELSE 1..6
FillName == <<95, 70, 105, 108, 108, 86, 97, 108, 117, 101>>     \* _FillValue

Pad4(n) == ((n + 3) \div 4) * 4
Zeros(n) == [i \in 1..n |-> 0]
Junk(n) == [i \in 1..n |-> 171]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
           ELSE LET h == Len(ss) \div 2 IN Cat(SubSeq(ss, 1, h)) \o Cat(SubSeq(ss, h + 1, Len(ss)))

\* The bytes of element k (from 0) of the value with this token
ElemByte(tok, k, b) == (tok * 67 + k * 29 + b * 101 + ((k * k + tok) \div 7) * 3 + ((tok * 31 + k) % 11) * 23) % 256
Elem(ty, tok, k) == [b \in 1..Width[ty] |-> ElemByte(tok, k, b)]
Elems(ty, tok, n) == [k \in 1..n |-> Elem(ty, tok, k - 1)]

-----------------------------------------------------------------------------
(* Writing *)

NumW(ver) == IF ver = 5 THEN 8 ELSE 4
OffW(ver) == IF ver = 1 THEN 4 ELSE 8
BE(n, w) == [i \in 1..w |-> IF i + 4 <= w THEN 0 ELSE (n \div (256 ^ (w - i))) % 256]
Num(ver, n) == BE(n, NumW(ver))
EncName(ver, s) == Num(ver, Len(s)) \o s \o Zeros(Pad4(Len(s)) - Len(s))
EncList(ver, tag, items, tagEmpty) ==
  IF items = <<>> THEN BE(IF tagEmpty THEN tag ELSE 0, 4) \o Num(ver, 0)
  ELSE BE(tag, 4) \o Num(ver, Len(items)) \o Cat(items)
EncAtt(ver, a) == LET d == Cat(a.elems)
                  IN EncName(ver, a.name) \o BE(a.ty, 4) \o Num(ver, Len(a.elems)) \o d \o Zeros(Pad4(Len(d)) - Len(d))
EncDim(ver, d) == EncName(ver, d.name) \o Num(ver, d.len)

IsRec(ds, v) == v.dimids # <<>> /\ ds.dims[v.dimids[1] + 1].len = 0
\* The shape, and that of one record
FullShape(ds, v) == [i \in 1..Len(v.dimids) |-> IF i = 1 /\ IsRec(ds, v) THEN ds.numrecs ELSE ds.dims[v.dimids[i] + 1].len]
PartShape(ds, v) == IF IsRec(ds, v) THEN Tail(FullShape(ds, v)) ELSE FullShape(ds, v)
PartSize(ds, v) == Prod(PartShape(ds, v)) * Width[v.ty]
VSize(ds, v) == Pad4(PartSize(ds, v))

FixedIx(ds) == SelectSeq([i \in 1..Len(ds.vars) |-> i], LAMBDA i : ~IsRec(ds, ds.vars[i]))
RecIx(ds) == SelectSeq([i \in 1..Len(ds.vars) |-> i], LAMBDA i : IsRec(ds, ds.vars[i]))
InOrder(ds, s) == IF ds.rev THEN Reverse(s) ELSE s
RecSize(ds) == LET R == RecIx(ds)
               IN IF Len(R) = 1 THEN PartSize(ds, ds.vars[R[1]])
                  ELSE FoldLeft(LAMBDA acc, i : acc + VSize(ds, ds.vars[i]), 0, R)

EncVarHead(ds, v) == EncName(ds.ver, v.name) \o Num(ds.ver, Len(v.dimids))
                     \o Cat([i \in 1..Len(v.dimids) |-> Num(ds.ver, v.dimids[i])])
                     \o EncList(ds.ver, 12, [i \in 1..Len(v.atts) |-> EncAtt(ds.ver, v.atts[i])], ds.tagEmpty)
                     \o BE(v.ty, 4) \o Num(ds.ver, VSize(ds, v))

Encode(ds) ==
  LET ver == ds.ver
      nv == Len(ds.vars)
      heads == [i \in 1..nv |-> EncVarHead(ds, ds.vars[i])]
      pre == <<67, 68, 70, ver>> \o Num(ver, ds.numrecs)
             \o EncList(ver, 10, [i \in 1..Len(ds.dims) |-> EncDim(ver, ds.dims[i])], ds.tagEmpty)
             \o EncList(ver, 12, [i \in 1..Len(ds.atts) |-> EncAtt(ver, ds.atts[i])], ds.tagEmpty)
      listHead == IF nv = 0 THEN BE(IF ds.tagEmpty THEN 11 ELSE 0, 4) \o Num(ver, 0) ELSE BE(11, 4) \o Num(ver, nv)
      hlen == Len(pre) + Len(listHead) + FoldLeft(LAMBDA acc, h : acc + Len(h) + OffW(ver), 0, heads)
      fixed == InOrder(ds, FixedIx(ds))
      recs == InOrder(ds, RecIx(ds))
      \* where each fixed variable starts, each after its gap
      FixStart[j \in 1..Len(fixed) + 1] ==
        (IF j = 1 THEN hlen ELSE FixStart[j - 1] + VSize(ds, ds.vars[fixed[j - 1]]))
        + (IF j <= Len(fixed) THEN ds.vars[fixed[j]].gap ELSE 0)
      recBase == FixStart[Len(fixed) + 1] + ds.recgap
      RecStart[j \in 1..Len(recs)] == IF j = 1 THEN recBase ELSE RecStart[j - 1] + VSize(ds, ds.vars[recs[j - 1]])
      begin(i) == IF IsRec(ds, ds.vars[i]) THEN RecStart[CHOOSE j \in 1..Len(recs) : recs[j] = i]
                  ELSE FixStart[CHOOSE j \in 1..Len(fixed) : fixed[j] = i]
      header == pre \o listHead \o Cat([i \in 1..nv |-> heads[i] \o BE(begin(i), OffW(ver))])
      fixData(i) == LET d == Cat(ds.vars[i].elems)
                    IN Junk(ds.vars[i].gap) \o d \o Junk(Pad4(Len(d)) - Len(d))
      recData(i, r) == LET n == Prod(PartShape(ds, ds.vars[i]))
                           d == Cat(SubSeq(ds.vars[i].elems, r * n + 1, (r + 1) * n))
                       IN d \o Junk(IF Len(recs) = 1 THEN 0 ELSE Pad4(Len(d)) - Len(d))
      data == Cat([j \in 1..Len(fixed) |-> fixData(fixed[j])])
      rdata == Cat([r \in 1..ds.numrecs |-> Cat([j \in 1..Len(recs) |-> recData(recs[j], r - 1)])])
  IN [bytes |-> header \o data \o Junk(ds.recgap) \o rdata, hlen |-> hlen]

-----------------------------------------------------------------------------
(* Reading: what the bytes mean.  Positions are from 1. *)

U(b, p, w) == FoldLeft(LAMBDA acc, i : acc * 256 + b[p + i - 1], 0, [i \in 1..w |-> i])
NumAt(b, p, ver) == U(b, p, NumW(ver))
Slice(b, p, n) == SubSeq(b, p, p + n - 1)
Split(s, w) == [k \in 1..(Len(s) \div w) |-> SubSeq(s, (k - 1) * w + 1, k * w)]

NameAt(b, p, ver) == LET n == NumAt(b, p, ver)
                     IN [val |-> Slice(b, p + NumW(ver), n), next |-> p + NumW(ver) + Pad4(n)]
DimAt(b, p, ver) == LET n == NameAt(b, p, ver)
                    IN [val |-> [name |-> n.val, len |-> NumAt(b, n.next, ver)], next |-> n.next + NumW(ver)]
AttAt(b, p, ver) == LET n == NameAt(b, p, ver)
                        ty == U(b, n.next, 4)
                        cnt == NumAt(b, n.next + 4, ver)
                        at == n.next + 4 + NumW(ver)
                        sz == cnt * Width[ty]
                    IN [val |-> [name |-> n.val, ty |-> ty, elems |-> Split(Slice(b, at, sz), Width[ty])], next |-> at + Pad4(sz)]

RECURSIVE ItemsAt(_, _, _, _, _)
RECURSIVE ListAt(_, _, _, _)
RECURSIVE VarAt(_, _, _)
ItemAt(kind, b, p, ver) == CASE kind = 10 -> DimAt(b, p, ver) [] kind = 12 -> AttAt(b, p, ver) [] kind = 11 -> VarAt(b, p, ver)
ItemsAt(kind, b, p, ver, n) ==
  IF n = 0 THEN [val |-> <<>>, next |-> p]
  ELSE LET x == ItemAt(kind, b, p, ver)
           rest == ItemsAt(kind, b, x.next, ver, n - 1)
       IN [val |-> <<x.val>> \o rest.val, next |-> rest.next]
ListAt(kind, b, p, ver) ==
  LET tag == U(b, p, 4)
      n == NumAt(b, p + 4, ver)
  IN IF (tag = 0 /\ n = 0) \/ tag = kind THEN ItemsAt(kind, b, p + 4 + NumW(ver), ver, n)
     ELSE Assert(FALSE, <<"unexpected tag", tag, "for", kind>>)
VarAt(b, p, ver) ==
  LET n == NameAt(b, p, ver)
      nd == NumAt(b, n.next, ver)
      at == n.next + NumW(ver)
      dimids == [i \in 1..nd |-> NumAt(b, at + (i - 1) * NumW(ver), ver)]
      as == ListAt(12, b, at + nd * NumW(ver), ver)
      ty == U(b, as.next, 4)
      vsize == NumAt(b, as.next + 4, ver)
      off == as.next + 4 + NumW(ver)
  IN [val |-> [name |-> n.val, dimids |-> dimids, atts |-> as.val, ty |-> ty, vsize |-> vsize, begin |-> U(b, off, OffW(ver))],
      next |-> off + OffW(ver)]

FillOf(v) == LET F == {i \in 1..Len(v.atts) : v.atts[i].name = FillName}
                 a == v.atts[CHOOSE i \in F : TRUE]
             IN IF F = {} THEN DefaultFill[v.ty]
                ELSE IF a.ty = v.ty /\ Len(a.elems) = 1 THEN a.elems[1] ELSE <<>>   \* undefined

\* The dataset in a file whose header is complete
Decode(b) ==
  LET ver == b[4]
      numrecs == NumAt(b, 5, ver)
      dims == ListAt(10, b, 5 + NumW(ver), ver)
      atts == ListAt(12, b, dims.next, ver)
      vars == ListAt(11, b, atts.next, ver)
      head == [ver |-> ver, numrecs |-> numrecs, dims |-> dims.val]
      recsize == LET R == SelectSeq(vars.val, LAMBDA v : IsRec(head, v))
                 IN IF Len(R) = 1 THEN PartSize(head, R[1])
                    ELSE FoldLeft(LAMBDA acc, v : acc + v.vsize, 0, R)
      value(v) ==
        LET w == Width[v.ty]
            part == Prod(PartShape(head, v))
            fill == FillOf(v)
        IN [k \in 1..Prod(FullShape(head, v)) |->
              LET at == v.begin + (IF IsRec(head, v) THEN ((k - 1) \div part) * recsize + ((k - 1) % part) * w
                                   ELSE (k - 1) * w)
              IN IF at + w <= Len(b) THEN Slice(b, at + 1, w) ELSE fill]
  IN [ver |-> ver, numrecs |-> numrecs, dims |-> dims.val, atts |-> atts.val, hlen |-> vars.next - 1,
      vars |-> [i \in 1..Len(vars.val) |->
                  LET v == vars.val[i]
                  IN [name |-> v.name, ty |-> v.ty, dimids |-> v.dimids, atts |-> v.atts, shape |-> FullShape(head, v),
                      elems |-> value(v), vsizeok |-> v.vsize = VSize(head, v), begin |-> v.begin, rec |-> IsRec(head, v)]]]

Magic(b) == Len(b) >= 4 /\ SubSeq(b, 1, 3) = <<67, 68, 70>> /\ b[4] \in {1, 2, 5}
=============================================================================
