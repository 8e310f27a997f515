------------------------------ MODULE CdfFormat ------------------------------
(* Datasets of the classic formats are built step by step, written by Encode   *)
(* (CdfBytes) and emitted with what a reader must find in them.                *)
EXTENDS CdfBytes, Json

CONSTANTS Sim, MaxDims, MaxVars, MaxAtts, MaxRank,
          Lens,        \* lengths of dimensions
          RecCounts,   \* numbers of records
          AttLens,     \* numbers of elements of attributes
          Versions,
          MaxElems,    \* bound on the size of a variable
          OddFill      \* TRUE: also _FillValue attributes that do not fit the variable

-----------------------------------------------------------------------------
(* Building datasets *)

VARIABLES ds, phase, ntok

vars == <<ds, phase, ntok>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Names == << <<97>>, <<98, 99>>, <<120, 121, 122>>, <<108, 111, 110, 103>>, <<195, 169, 116, 195, 169>>, <<97, 32, 98>>,
            <<95, 100, 49>>, <<110, 97, 109, 101, 45, 57>> >>
NameSet == {Names[i] : i \in 1..Len(Names)}
\* A name not yet used; without simulation the choice doesn't matter
Fresh(used) == LET F == NameSet \ used
               IN IF Sim THEN {RandomElement(F)}
                  ELSE {Names[CHOOSE i \in 1..Len(Names) : Names[i] \in F /\ \A j \in 1..(i - 1) : Names[j] \notin F]}

HasUnlimited == \E i \in 1..Len(ds.dims) : ds.dims[i].len = 0

Init ==
  /\ \E v \in Versions, t \in IF Sim THEN BOOLEAN ELSE {FALSE}, r \in BOOLEAN, g \in IF Sim THEN {0, 8} ELSE {0} :
       ds = [ver |-> v, numrecs |-> 0, dims |-> <<>>, atts |-> <<>>, vars |-> <<>>, tagEmpty |-> t, rev |-> r, recgap |-> g]
  /\ phase = "dims"
  /\ ntok = 1

AddDim ==
  /\ phase = "dims" /\ Len(ds.dims) < MaxDims
  /\ \E n \in Fresh({ds.dims[i].name : i \in 1..Len(ds.dims)}),
        l \in Pick(IF HasUnlimited THEN Lens ELSE Lens \cup {0}) :
       ds' = [ds EXCEPT !.dims = Append(@, [name |-> n, len |-> l])]
  /\ UNCHANGED <<phase, ntok>>

\* the number of records is zero unless there is an unlimited dimension
EndDims ==
  /\ phase = "dims"
  /\ \E r \in Pick(RecCounts) : ds' = [ds EXCEPT !.numrecs = IF HasUnlimited THEN r ELSE 0]
  /\ phase' = "atts"
  /\ UNCHANGED ntok

Att(name, ty, n, tok) == [name |-> name, ty |-> ty, elems |-> Elems(ty, tok, n)]

\* Up to MaxAtts attributes, for a variable perhaps with its fill value among them
SomeAtts(base) ==
  IF ~Sim THEN {<<>>} \cup {<<[name |-> <<97>>, ty |-> ty, elems |-> Elems(ty, base, n)]>> : ty \in TypesOf(ds.ver), n \in AttLens}
  ELSE {[i \in 1..n |-> Att(Names[((first + i) % Len(Names)) + 1], p[i][1], p[i][2], base + i)] :
          n \in {RandomElement(0..MaxAtts)}, first \in {RandomElement(0..(Len(Names) - 1))},
          p \in {<< <<RandomElement(TypesOf(ds.ver)), RandomElement(AttLens)>>, <<RandomElement(TypesOf(ds.ver)), RandomElement(AttLens)>>,
                    <<RandomElement(TypesOf(ds.ver)), RandomElement(AttLens)>> >>}}

AddAtts ==
  /\ phase = "atts"
  /\ \E as \in SomeAtts(ntok) : ds' = [ds EXCEPT !.atts = as]
  /\ ntok' = ntok + MaxAtts + 1
  /\ phase' = "vars"

DimidSeqs ==
  LET D == 0..(Len(ds.dims) - 1)
      Fixed == {i \in D : ds.dims[i + 1].len # 0}
      Step(T) == T \cup {Append(t, d) : t \in T, d \in Fixed}
      One == {<<>>} \cup {<<d>> : d \in D}
      Two == One \cup {Append(t, d) : t \in {u \in One : Len(u) = 1}, d \in Fixed}
      Three == Two \cup {Append(t, d) : t \in {u \in Two : Len(u) = 2}, d \in Fixed}
      Four == Three \cup {Append(t, d) : t \in {u \in Three : Len(u) = 3}, d \in Fixed}
      All == CASE MaxRank = 1 -> One [] MaxRank = 2 -> Two [] MaxRank = 3 -> Three [] OTHER -> Four
  IN {s \in All : Prod([i \in 1..Len(s) |-> IF ds.dims[s[i] + 1].len = 0 THEN ds.numrecs ELSE ds.dims[s[i] + 1].len]) <= MaxElems}

RecSeqs(S) == {s \in S : s # <<>> /\ ds.dims[s[1] + 1].len = 0}

AddVar ==
  /\ phase = "vars" /\ Len(ds.vars) < MaxVars
  /\ \E n \in Fresh({ds.vars[i].name : i \in 1..Len(ds.vars)}),
        ty \in Pick(TypesOf(ds.ver)), gap \in (IF Sim THEN {RandomElement({0, 4})} ELSE {0}),
        dimids \in (IF ~Sim THEN DimidSeqs
                    ELSE LET S == DimidSeqs R == RecSeqs(S)
                         IN {RandomElement(IF R # {} /\ RandomElement(1..3) # 1 THEN R ELSE S)}),
        as \in SomeAtts(ntok + 1), fill \in Pick(IF MaxAtts = 0 THEN {FALSE} ELSE {TRUE, FALSE}),
        oddty \in (IF OddFill THEN Pick({0, 0} \cup TypesOf(ds.ver)) ELSE {0}), oddlen \in (IF OddFill THEN Pick(AttLens) ELSE {1}) :
     LET v0 == [name |-> n, ty |-> ty, dimids |-> dimids, gap |-> gap, atts |-> <<>>, elems |-> <<>>]
         fty == IF oddty > 0 THEN oddty ELSE ty
         fa == [name |-> FillName, ty |-> fty, elems |-> Elems(fty, ntok + MaxAtts + 2, IF oddty > 0 THEN oddlen ELSE 1)]
         v == [v0 EXCEPT !.atts = IF fill THEN Append(as, fa) ELSE as,
                         !.elems = Elems(ty, ntok, Prod(FullShape(ds, v0)))]
     IN ds' = [ds EXCEPT !.vars = Append(@, v)]
  /\ ntok' = ntok + MaxAtts + 3
  /\ UNCHANGED phase

\* What a reader must find in the file
Meaning(d, e) ==
  [numrecs |-> d.numrecs, dims |-> d.dims, atts |-> d.atts, hlen |-> e.hlen, bytes |-> e.bytes,
   vars |-> [i \in 1..Len(d.vars) |->
               LET v == d.vars[i]
               IN [name |-> v.name, ty |-> v.ty, dimids |-> v.dimids, shape |-> FullShape(d, v), atts |-> v.atts, elems |-> v.elems]]]

\* How long the file must be to hold each element, by the decoder's rules
Ends(b) ==
  LET x == Decode(b)
      head == [ver |-> x.ver, numrecs |-> x.numrecs, dims |-> x.dims]
      R == SelectSeq(x.vars, LAMBDA v : v.rec)
      rs == IF Len(R) = 1 THEN PartSize(head, R[1]) ELSE FoldLeft(LAMBDA acc, v : acc + VSize(head, v), 0, R)
  IN [i \in 1..Len(x.vars) |->
        LET v == x.vars[i]
            part == Prod(PartShape(head, v))
        IN [k \in 1..Len(v.elems) |->
              v.begin + Width[v.ty] + (IF v.rec THEN ((k - 1) \div part) * rs + ((k - 1) % part) * Width[v.ty]
                                       ELSE (k - 1) * Width[v.ty])]]

Emit ==
  /\ phase = "vars" /\ (Len(ds.vars) > 0 \/ MaxVars = 0)
  /\ phase' = "done"
  /\ LET e == Encode(ds)
     IN PrintT(<<"TRACE", ToJson([ver |-> ds.ver, file |-> Meaning(ds, e), ends |-> Ends(e.bytes),
                                  fills |-> [i \in 1..Len(ds.vars) |-> FillOf(ds.vars[i])]])>>)
  /\ UNCHANGED <<ds, ntok>>

SimNext ==
  CASE phase = "dims" -> (\E k \in {RandomElement(1..5)} : IF k > 1 /\ Len(ds.dims) < MaxDims THEN AddDim ELSE EndDims)
    [] phase = "atts" -> AddAtts
    [] phase = "vars" -> (\E k \in {RandomElement(1..6)} : IF Len(ds.vars) < MaxVars /\ (k > 1 \/ ds.vars = <<>>) THEN AddVar ELSE Emit)
    [] OTHER -> FALSE

Next == IF Sim THEN SimNext ELSE AddDim \/ EndDims \/ AddAtts \/ AddVar \/ Emit

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The two halves of the specification agree *)
RoundTrip ==
  phase = "done" =>
    LET e == Encode(ds)
        x == Decode(e.bytes)
        strip(v) == [name |-> v.name, ty |-> v.ty, dimids |-> v.dimids, atts |-> v.atts, elems |-> v.elems]
    IN /\ x.dims = ds.dims /\ x.atts = ds.atts /\ x.numrecs = ds.numrecs /\ x.ver = ds.ver
       /\ [i \in 1..Len(x.vars) |-> strip(x.vars[i])] = [i \in 1..Len(ds.vars) |-> strip(ds.vars[i])]
       /\ \A i \in 1..Len(x.vars) : x.vars[i].vsizeok
       /\ x.hlen = e.hlen

\* In a file that ends early, exactly the elements that end later are the fill value
CutMeaning ==
  phase = "done" =>
    LET b == Encode(ds).bytes
        d == Decode(b)
        n == d.hlen + (IF Sim THEN RandomElement(0..(Len(b) - d.hlen)) ELSE (Len(b) - d.hlen) \div 2)
        x == Decode(SubSeq(b, 1, n))
        ends == Ends(b)
    IN \A i \in 1..Len(x.vars) : \A k \in 1..Len(x.vars[i].elems) :
         x.vars[i].elems[k] = IF ends[i][k] <= n THEN d.vars[i].elems[k] ELSE FillOf(d.vars[i])

\* No two variables' elements share a byte, and none are in the header
NoOverlap ==
  phase = "done" =>
    LET e == Encode(ds)
        x == Decode(e.bytes)
        head == [ver |-> ds.ver, numrecs |-> ds.numrecs, dims |-> ds.dims]
        rs == RecSize(ds)
        spans(v) == IF v.rec THEN {<<v.begin + r * rs, v.begin + r * rs + PartSize(head, v)>> : r \in 0..(ds.numrecs - 1)}
                    ELSE {<<v.begin, v.begin + PartSize(head, v)>>}
    IN \A i, j \in 1..Len(x.vars) :
         /\ \A s \in spans(x.vars[i]) : s[1] >= e.hlen /\ s[2] <= Len(e.bytes)
         /\ i # j => \A s \in spans(x.vars[i]), t \in spans(x.vars[j]) : s[2] <= t[1] \/ t[2] <= s[1] \/ s[1] = s[2] \/ t[1] = t[2]
=============================================================================
