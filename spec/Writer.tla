------------------------------- MODULE Writer -------------------------------
(* The writing half of the API: what calls a writer accepts, and what dataset *)
(* a successful Close leaves in the file.  Values are abstract: an element    *)
(* type, the lengths of the nested slices, and a token from which the harness *)
(* derives the bits of every element.                                         *)
(* Kind is "cdf" (classic: one group, dimensions file wide, the last          *)
(* dimension of a string variable is its characters) or "hdf5" (a tree of     *)
(* groups, slice levels below the declared dimensions are ragged rows).       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kind,        \* "cdf" or "hdf5"
          Sim,         \* TRUE: choose parameters at random; FALSE: try all
          MaxOps,      \* calls before Close
          VarNames, BadNames, GroupNames, DimNames, BadDimNames, AttrNames,
          Types,       \* element types that can be written
          BadTypes,    \* element types that cannot
          BadAttrTypes,
          Lens,        \* lengths of slices
          MaxRank,
          StrLens,     \* length of the longest string of a value
          MaxAttrs,
          OnlyValid,   \* TRUE: only generate calls that are accepted
          LateCalls    \* TRUE: calls are also made after Close

VARIABLES groups,    \* sequence of groups; 1 is the root. [path, vars, attrs]
          dimtab,    \* sequence of [name, size], in order of creation
          phase,     \* "open", "closed", "done"
          ntok, hist

vars == <<groups, dimtab, phase, ntok, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET T == SeqsUpTo(S, n - 1)
                       IN T \cup {Append(t, s) : t \in {u \in T : Len(u) = n - 1}, s \in S}

ShapesOf == SeqsUpTo(Lens, MaxRank)

\* Sequences of distinct attribute names, by length
ShapesByRank == [n \in 0..MaxRank |-> {s \in ShapesOf : Len(s) = n}]

KeySeqs(S) == [n \in 0..MaxAttrs |-> {s \in SeqsUpTo(S, MaxAttrs) : Len(s) = n /\ IsInjective(s)}]
GoodKeys == KeySeqs(AttrNames)
AllKeys == KeySeqs(AttrNames \cup BadNames)

-----------------------------------------------------------------------------
(* Values *)

HasZero(s) == \E i \in 1..Len(s) : s[i] = 0

\* ragged: "no"; "last": the innermost slices differ in length; "mid": slices of slices do
Raggable(gs, r) ==
  CASE r = "no"   -> TRUE
    [] r = "last" -> Len(gs) >= 2 /\ ~HasZero(gs) /\ gs[Len(gs) - 1] >= 2
    [] r = "mid"  -> Len(gs) >= 3 /\ ~HasZero(gs) /\ gs[Len(gs) - 2] >= 2

\* How many of the innermost levels are not rectangular
Uneven(r) == CASE r = "no" -> 0 [] r = "last" -> 1 [] r = "mid" -> 2

MkVal(ty, gs, rag, ml, tok) == [ty |-> ty, gs |-> gs, rag |-> rag, ml |-> ml, tok |-> tok]

\* The lengths that a value shows: below an empty slice there is nothing to see.
Visible(gs) == [i \in 1..Len(gs) |-> IF \E j \in 1..i : gs[j] = 0 THEN 0 ELSE gs[i]]

\* Biased choices for simulation: mostly from S, now and then from B
Odd(S, B) == IF ~Sim THEN S \cup B
             ELSE IF B # {} /\ ~OnlyValid /\ RandomElement(1..12) = 1 THEN {RandomElement(B)} ELSE {RandomElement(S)}

-----------------------------------------------------------------------------
(* Dimensions *)

DimSize(tab, n) == LET I == {i \in 1..Len(tab) : tab[i].name = n}
                   IN IF I = {} THEN -1 ELSE tab[CHOOSE i \in I : TRUE].size

\* Adding dimensions in order; not ok if a size disagrees.  An unnamed dimension
\* of a classic file gets a name of its own, in HDF5 it leaves no dimension.
RECURSIVE AddDims(_, _, _)
AddDims(tab, names, sizes) ==
  IF names = <<>> THEN [ok |-> TRUE, tab |-> tab]
  ELSE IF Head(names) = ""
       THEN AddDims(IF Kind = "cdf" THEN Append(tab, [name |-> "", size |-> Head(sizes)]) ELSE tab,
                    Tail(names), Tail(sizes))
  ELSE LET have == DimSize(tab, Head(names))
       IN IF have = -1
          THEN AddDims(Append(tab, [name |-> Head(names), size |-> Head(sizes)]), Tail(names), Tail(sizes))
          ELSE IF have = Head(sizes) THEN AddDims(tab, Tail(names), Tail(sizes))
          ELSE [ok |-> FALSE, tab |-> tab]

PadNames(names, n) == [i \in 1..n |-> IF i <= Len(names) THEN names[i] ELSE ""]

GoodDimNames(names) == \A i \in 1..Len(names) : names[i] \notin BadDimNames

-----------------------------------------------------------------------------
(* Attributes: a sequence of <<key, value>> with distinct keys *)

AttrOK(a) ==
  /\ a[1] \notin BadNames
  /\ a[2].ty \in Types
  /\ IF Kind = "cdf"
     THEN IF a[2].ty = "string" THEN a[2].gs = <<>> ELSE Len(a[2].gs) <= 1
     ELSE TRUE

AttrsOK(as) == \A i \in 1..Len(as) : AttrOK(as[i])

\* How an attribute reads back: an array of one element is a scalar.
AttrShape(v) ==
  IF Kind = "cdf" THEN (IF v.gs = <<1>> THEN <<>> ELSE v.gs)
  ELSE IF v.gs = <<1>> THEN <<>> ELSE v.gs

ReadAttrs(as) == [i \in 1..Len(as) |->
                    [name |-> as[i][1], val |-> [as[i][2] EXCEPT !.gs = AttrShape(as[i][2])]]]

-----------------------------------------------------------------------------
(* Adding a variable.  The result has ok, the new dimension table, the shape  *)
(* and dimension names to read back.                                           *)

Refuse == [ok |-> FALSE, tab |-> dimtab, shape |-> <<>>, dims |-> <<>>]

NameFree(g, n) == \A i \in 1..Len(groups[g].vars) : groups[g].vars[i].name # n

SubgroupPath(g, n) == Append(groups[g].path, n)
IsGroup(p) == \E i \in 1..Len(groups) : groups[i].path = p

\* The dimensions of a classic variable, <<-1>> if there is no such variable
CdfShape(v, dims) ==
  IF v.ty = "string"
  THEN IF v.gs = <<>> THEN (IF v.ml = 1 /\ dims = <<>> THEN <<>> ELSE <<v.ml>>)
       ELSE IF HasZero(v.gs) \/ v.ml = 0 THEN <<-1>>
       ELSE Append(v.gs, v.ml)
  ELSE IF HasZero(v.gs) /\ Len(v.gs) > 1 THEN <<-1>>
  ELSE v.gs

CdfAddVar(n, v, dims, as) ==
  LET shape == CdfShape(v, dims)
      full == PadNames(dims, Len(shape))
      r == AddDims(dimtab, full, shape)
      zeros(t) == Cardinality({i \in 1..Len(t) : t[i].size = 0})
  IN IF n \in BadNames \/ ~GoodDimNames(dims) \/ ~AttrsOK(as) \/ ~NameFree(1, n)
        \/ v.ty \notin Types \/ v.rag # "no" \/ shape = <<-1>> \/ Len(dims) > Len(shape)
     THEN Refuse
     ELSE IF ~r.ok \/ zeros(r.tab) > 1 THEN Refuse
     ELSE [ok |-> TRUE, tab |-> r.tab, shape |-> shape, dims |-> full]

\* In HDF5 files all dimensions are stored with the root group's variables.
IsCoord(n, dims) == dims = <<n>>

H5AddVar(g, n, v, dims, as) ==
  LET nd == Len(dims)
      depth == Len(v.gs)
      shape == SubSeq(Visible(v.gs), 1, nd)
      r == AddDims(dimtab, dims, shape)
      rootVar(d) == {i \in 1..Len(groups[1].vars) : groups[1].vars[i].name = d}
      dimClash == \E i \in 1..nd : dims[i] # "" /\
                     \/ IsGroup(<<dims[i]>>)
                     \/ \E k \in rootVar(dims[i]) : ~IsCoord(dims[i], groups[1].vars[k].dims)
      isDim(x) == (DimSize(dimtab, x) # -1) \/ \E i \in 1..nd : dims[i] = x
  IN IF n \in BadNames \/ ~GoodDimNames(dims) \/ ~AttrsOK(as) \/ v.ty \notin Types
        \/ ~NameFree(g, n) \/ IsGroup(SubgroupPath(g, n))
        \/ nd > depth - Uneven(v.rag)
     THEN Refuse
     ELSE IF ~r.ok \/ dimClash \/ (g = 1 /\ ~IsCoord(n, dims) /\ isDim(n)) THEN Refuse
     ELSE [ok |-> TRUE, tab |-> r.tab, shape |-> shape, dims |-> dims]

TryAddVar(g, n, v, dims, as) ==
  IF Kind = "cdf" THEN CdfAddVar(n, v, dims, as) ELSE H5AddVar(g, n, v, dims, as)

\* Classic attributes are scalars or one-dimensional.  (The parameter keeps TLC from
\* evaluating the random choice only once.)
AttrPick(k) == IF ~Sim THEN ShapesOf
               ELSE {RandomElement(ShapesByRank[RandomElement(
                       IF Kind = "cdf" /\ RandomElement(1..10) > 1 THEN {0, 1} ELSE 0..MaxRank)])}
ShapePick(k) == IF ~Sim THEN ShapesOf ELSE {RandomElement(ShapesByRank[RandomElement(0..MaxRank)])}

-----------------------------------------------------------------------------
Init ==
  /\ groups = <<[path |-> <<>>, vars |-> <<>>, attrs |-> <<>>]>>
  /\ dimtab = <<>>
  /\ phase = "open"
  /\ ntok = 0
  /\ hist = <<>>

Calls == Len(hist)
Closed == phase = "closed"

Record(op) == hist' = Append(hist, op)

RagPick(gs) == IF Sim THEN LET r == RandomElement({"no", "last", "mid"}) IN {IF Raggable(gs, r) THEN r ELSE "no"}
               ELSE {r \in {"no", "last", "mid"} : Raggable(gs, r)}

AddVar ==
  \E g \in Pick(1..Len(groups)), n \in Odd(VarNames, BadNames),
     ty \in Odd(Types, BadTypes), gs \in ShapePick(ntok) :
  \E rag \in RagPick(gs), ml0 \in (IF Sim \/ ty = "string" THEN Pick(StrLens) ELSE {0}) :
  LET
      ml == IF ty = "string" THEN (IF HasZero(gs) THEN 0 ELSE ml0) ELSE 0
      v == MkVal(ty, gs, rag, ml, ntok)
      rank == Len(gs) + (IF Kind = "cdf" /\ ty = "string" THEN 1 ELSE 0)
      some == 0..(rank + 1)
      sizes == IF Kind = "cdf" /\ ty = "string" THEN Append(gs, ml) ELSE Visible(gs)
      \* in simulation mostly a dimension that fits
      DimPick(i, n1) ==
        IF ~Sim THEN IF i <= n1 THEN DimNames \cup BadDimNames ELSE {""}
        ELSE IF i <= Len(sizes) /\ (OnlyValid \/ RandomElement(1..6) # 1)
             THEN {RandomElement({d \in DimNames : d = "" \/ DimSize(dimtab, d) \in {-1, sizes[i]}} \cup {""})}
             ELSE Odd(DimNames, BadDimNames)
      AttrLet(na, i, S, base) == IF na >= i THEN S ELSE {base}
  IN \E nd \in Pick(some \cup {rank}), nd1 \in (IF Sim THEN Pick(some) ELSE {0}) :
     \E d1 \in DimPick(1, nd), d2 \in DimPick(2, nd), d3 \in DimPick(3, nd), d4 \in DimPick(4, nd), d5 \in DimPick(5, nd) :
     \E na \in Pick(0..MaxAttrs) :
     \E ks \in Odd(GoodKeys[na], AllKeys[na]) :
     \E t1 \in AttrLet(na, 1, Odd(Types, BadAttrTypes), ""), t2 \in AttrLet(na, 2, Odd(Types, BadAttrTypes), ""),
        s1 \in AttrLet(na, 1, AttrPick(ntok), <<>>), s2 \in AttrLet(na, 2, AttrPick(ntok + 1), <<>>),
        m1 \in AttrLet(na, 1, Pick(StrLens), 0), m2 \in AttrLet(na, 2, Pick(StrLens), 0) :
     LET names == SubSeq(<<d1, d2, d3, d4, d5, d5>>, 1, IF ~Sim \/ nd1 = 0 THEN nd ELSE IF nd1 % 4 = 2 THEN 0
                         ELSE IF nd1 % 4 = 3 /\ rank > 0 THEN rank - 1 ELSE rank)
         mka(ty1, s, m, k) == MkVal(ty1, s, "no", IF ty1 = "string" THEN (IF HasZero(s) THEN 0 ELSE m) ELSE 0, k)
         as == SubSeq(<< <<IF na >= 1 THEN ks[1] ELSE "", mka(t1, s1, m1, ntok + 1)>>,
                         <<IF na >= 2 THEN ks[2] ELSE "", mka(t2, s2, m2, ntok + 2)>> >>, 1, na)
         r == IF Closed THEN Refuse ELSE TryAddVar(g, n, v, names, as)
     IN IF OnlyValid /\ ~r.ok THEN UNCHANGED vars ELSE
        /\ ntok' = ntok + 3
        /\ Record([op |-> "addvar", g |-> g, name |-> n, val |-> v, dims |-> names, attrs |-> as, ok |-> r.ok])
        /\ dimtab' = r.tab
        /\ groups' = IF ~r.ok THEN groups
                     ELSE [groups EXCEPT ![g].vars =
                             Append(@, [name |-> n, val |-> v, shape |-> r.shape, dims |-> r.dims,
                                        attrs |-> ReadAttrs(as)])]
        /\ UNCHANGED phase

AddAttributes ==
  \E g \in Pick(1..Len(groups)), na \in Pick(0..MaxAttrs) :
  \E ks \in Odd(GoodKeys[na], AllKeys[na]) :
  \E t1 \in IF na >= 1 THEN Odd(Types, BadAttrTypes) ELSE {""}, t2 \in IF na >= 2 THEN Odd(Types, BadAttrTypes) ELSE {""},
     s1 \in IF na >= 1 THEN AttrPick(ntok) ELSE {<<>>}, s2 \in IF na >= 2 THEN AttrPick(ntok + 1) ELSE {<<>>} :
  \E m1 \in Pick(StrLens), m2 \in Pick(StrLens), r1 \in RagPick(s1) :
  LET mka(ty1, s, m, k, r) == MkVal(ty1, s, r, IF ty1 = "string" THEN (IF HasZero(s) THEN 0 ELSE m) ELSE 0, k)
      as == SubSeq(<< <<IF na >= 1 THEN ks[1] ELSE "", mka(t1, s1, m1, ntok, r1)>>,
                      <<IF na >= 2 THEN ks[2] ELSE "", mka(t2, s2, m2, ntok + 1, "no")>> >>, 1, na)
      ok == ~Closed /\ AttrsOK(as)
  IN IF OnlyValid /\ ~ok THEN UNCHANGED vars ELSE
     /\ ntok' = ntok + 2
     /\ Record([op |-> "addattrs", g |-> g, attrs |-> as, ok |-> ok])
     /\ groups' = IF ok THEN [groups EXCEPT ![g].attrs = ReadAttrs(as)] ELSE groups
     /\ UNCHANGED <<dimtab, phase>>

CreateGroup ==
  \E g \in Pick(1..Len(groups)), n \in Odd(GroupNames, BadNames) :
  LET p == SubgroupPath(g, n)
      dimClash == g = 1 /\ DimSize(dimtab, n) # -1
      ok == /\ Kind = "hdf5" /\ ~Closed /\ n \notin BadNames
            /\ (IsGroup(p) \/ (NameFree(g, n) /\ ~dimClash))
      old == {i \in 1..Len(groups) : groups[i].path = p}
      as == IF ~ok THEN 0 ELSE IF old # {} THEN CHOOSE i \in old : TRUE ELSE Len(groups) + 1
  IN IF (OnlyValid /\ ~ok) \/ Len(p) > 4 THEN UNCHANGED vars ELSE
     /\ Record([op |-> "creategroup", g |-> g, name |-> n, as |-> as, ok |-> ok])
     /\ groups' = IF ok /\ old = {} THEN Append(groups, [path |-> p, vars |-> <<>>, attrs |-> <<>>]) ELSE groups
     /\ UNCHANGED <<dimtab, phase, ntok>>

\* Closing a group's writer changes nothing
CloseGroup ==
  /\ Kind = "hdf5" /\ Len(groups) > 1
  /\ \E g \in Pick(2..Len(groups)) : Record([op |-> "closegroup", g |-> g, ok |-> TRUE])
  /\ UNCHANGED <<groups, dimtab, phase, ntok>>

\* Closing again reports no failure and changes nothing
Close ==
  /\ Calls >= 1 \/ ~Sim
  /\ phase' = "closed"
  /\ Record([op |-> "close", ok |-> TRUE])
  /\ UNCHANGED <<groups, dimtab, ntok>>

Emit ==
  /\ Closed
  /\ phase' = "done"
  /\ PrintT(<<"TRACE", ToJson([kind |-> Kind, hist |-> hist, groups |-> groups, dims |-> dimtab, ok |-> TRUE])>>)
  /\ UNCHANGED <<groups, dimtab, ntok, hist>>

LateLimit == Cardinality({i \in 1..Len(hist) : hist[i].op = "close"})

SimNext ==
  /\ phase # "done"
  /\ \E k \in {RandomElement(1..20)} :
       IF phase = "closed"
       THEN IF LateCalls /\ Calls < MaxOps + 5 /\ k <= 14
            THEN CASE k <= 4 -> AddVar [] k <= 7 -> AddAttributes [] k <= 10 -> CreateGroup
                   [] OTHER -> Close
            ELSE Emit
       ELSE IF Calls >= MaxOps \/ (Calls >= 3 /\ k = 20) THEN Close
       ELSE CASE k <= 12 -> AddVar
              [] k <= 14 -> AddAttributes
              [] k <= 17 -> (IF Kind = "hdf5" \/ ~OnlyValid THEN CreateGroup ELSE AddVar)
              [] OTHER   -> (IF k = 18 /\ Kind = "hdf5" /\ Len(groups) > 1 THEN CloseGroup ELSE AddVar)

AllNext ==
  \/ phase = "open" /\ Calls < MaxOps /\ (AddVar \/ AddAttributes \/ CreateGroup)
  \/ phase = "open" /\ Close
  \/ LateCalls /\ phase = "closed" /\ Calls < MaxOps /\ (AddVar \/ AddAttributes \/ CreateGroup)
  \/ Emit

\* In simulation a choice that OnlyValid rules out changes nothing; another is made next.
Next == IF Sim THEN SimNext ELSE AllNext

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the specification itself guarantees *)

UniqueNames ==
  \A g \in 1..Len(groups) : \A i, j \in 1..Len(groups[g].vars) :
     groups[g].vars[i].name = groups[g].vars[j].name => i = j

UniqueDims ==
  \A i, j \in 1..Len(dimtab) : dimtab[i].name = dimtab[j].name /\ dimtab[i].name # "" => i = j

DimsAgree ==
  \A g \in 1..Len(groups) : \A i \in 1..Len(groups[g].vars) :
     LET v == groups[g].vars[i]
     IN /\ Len(v.dims) = Len(v.shape)
        /\ \A k \in 1..Len(v.dims) : v.dims[k] # "" => DimSize(dimtab, v.dims[k]) = v.shape[k]

NoVarIsGroup ==
  \A g \in 1..Len(groups) : \A i \in 1..Len(groups[g].vars) :
     ~IsGroup(SubgroupPath(g, groups[g].vars[i].name))

ParentsExist ==
  \A g \in 2..Len(groups) : IsGroup(SubSeq(groups[g].path, 1, Len(groups[g].path) - 1))

\* Rejected calls, and calls after Close, leave no trace
NoTrace ==
  [][ Len(hist') > Len(hist) /\ ~hist'[Len(hist')].ok => UNCHANGED <<groups, dimtab>> ]_vars
FinalAfterClose ==
  [][ phase # "open" => UNCHANGED <<groups, dimtab>> ]_vars
=============================================================================
