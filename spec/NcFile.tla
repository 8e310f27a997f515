------------------------------- MODULE NcFile -------------------------------
(* A dataset as a user of the reader sees it: groups, dimensions, types,       *)
(* variables and attributes, built step by step by some other program, and     *)
(* then read through any number of handles.  Every answer is a function of the *)
(* dataset and the request; reading changes nothing.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kind,         \* "hdf5" or "cdf"
          MaxDefs, MaxReads, MaxGroups, MaxElems,
          BaseTypes,    \* built-in types of variables and attributes
          UserTypes,    \* are there user-defined types
          WUser,        \* how often a type is user-defined, of 10
          Bulk,         \* sizes of runs of many objects or attributes, {} for none
          Sessions      \* may the file be closed and extended later

VARIABLES grp, dim, typ, var, att, hist, hnd, gtr, reads, phase
vars == <<grp, dim, typ, var, att, hist, hnd, gtr, reads, phase>>
state == <<grp, dim, typ, var, att, hist>>

R(S) == {RandomElement(S)}
NamePool == {"a", "ab", "abc", "A", "a b", "_a", "x", "y", "b", "a.b", "z", "g1", "v1"}
Joined(s, sep) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o sep \o y, s[1], Tail(s))
Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
Where(s, P(_)) == SelectSeq([i \in 1..Len(s) |-> i], P)

\* ------------------------------------------------------------ the tree
RECURSIVE Above(_)
Above(g) == IF g = 0 THEN <<>> ELSE <<g>> \o Above(grp[g].up)       \* from a group to the root
IsAbove(a, g) == \E i \in 1..Len(Above(g)) : Above(g)[i] = a
Related(a, b) == IsAbove(a, b) \/ IsAbove(b, a)
GroupsOf(g) == Where(grp, LAMBDA i : grp[i].up = g)
DimsOf(g) == Where(dim, LAMBDA i : dim[i].g = g)
TypesOf(g) == Where(typ, LAMBDA i : typ[i].g = g)
VarsOf(g) == Where(var, LAMBDA i : var[i].g = g)
AttsOf(g, v) == Where(att, LAMBDA i : att[i].live /\ att[i].g = g /\ att[i].v = v)

Named(s, P, n) == \E i \in 1..Len(s) : s[i] = n
ObjNames(g) == {grp[i].n : i \in ToSet(GroupsOf(g))} \cup {typ[i].n : i \in ToSet(TypesOf(g))} \cup {var[i].n : i \in ToSet(VarsOf(g))}
DimNamesOf(g) == {dim[i].n : i \in ToSet(DimsOf(g))}
VisibleDims(g) == {i \in 1..Len(dim) : IsAbove(dim[i].g, g)}
VisibleTypes(g) == {i \in 1..Len(typ) : IsAbove(typ[i].g, g)}

\* ------------------------------------------------------------ types
\* A reference to a type: a built-in one (u = 0) or one of those defined
B(b) == [b |-> b, u |-> 0]
Cdl == [int8 |-> "byte", uint8 |-> "ubyte", int16 |-> "short", uint16 |-> "ushort", int32 |-> "int", uint32 |-> "uint", int64 |-> "int64",
        uint64 |-> "uint64", float32 |-> "float", float64 |-> "double", string |-> "string", char |-> "string"]
Go(b) == IF b = "char" THEN "string" ELSE b

\* Types are the same when these are
RECURSIVE Sig(_)
Sig(r) ==
  IF r.u = 0 THEN r.b
  ELSE LET t == typ[r.u]
       IN CASE t.k = "enum" -> t.base \o "{" \o Joined([i \in 1..Len(t.members) |-> t.members[i].n \o "=" \o ToString(t.members[i].v)], ",") \o "}"
            [] t.k = "opaque" -> "opaque" \o ToString(t.size)
            [] t.k = "vlen" -> "[" \o Sig(t.of) \o "]"
            [] OTHER -> "<" \o Joined([i \in 1..Len(t.fields) |-> t.fields[i].n \o ":" \o Sig(t.fields[i].t) \o ToString(t.fields[i].d)], ",") \o ">"

\* The name of a type where it is visible: two visible types are never the same
CdlName(r) == IF r.u = 0 THEN Cdl[r.b] ELSE typ[r.u].n
GoName(r) == IF r.u = 0 THEN Go(r.b) ELSE typ[r.u].n
CdlOf(i) ==
  LET t == typ[i]
  IN CASE t.k = "enum" -> Cdl[t.base] \o " enum {\n" \o
                          Joined([j \in 1..Len(t.members) |-> "\t" \o t.members[j].n \o " = " \o ToString(t.members[j].v)], ",\n") \o "\n}"
       [] t.k = "opaque" -> "opaque(" \o ToString(t.size) \o ")"
       [] t.k = "vlen" -> CdlName(t.of) \o "(*)"
       [] OTHER -> "compound {\n" \o
                   Joined([j \in 1..Len(t.fields) |->
                             LET f == t.fields[j]
                             IN "\t" \o CdlName(f.t) \o (IF f.d = <<>> THEN "" ELSE "(" \o Joined([k \in 1..Len(f.d) |-> ToString(f.d[k])], ",") \o ")")
                                \o " " \o f.n \o ";\n"], "") \o "}"
GoOf(i) ==
  LET t == typ[i]
  IN "type " \o t.n \o " " \o
     (CASE t.k = "enum" -> Go(t.base) \o "\nconst (\n" \o
                           Joined([j \in 1..Len(t.members) |-> "\t" \o t.members[j].n \o (IF j = 1 THEN " " \o t.n ELSE "") \o " = " \o ToString(t.members[j].v)], "\n") \o "\n)\n"
        [] t.k = "opaque" -> "[" \o ToString(t.size) \o "]uint8"
        [] t.k = "vlen" -> "[]" \o GoName(t.of)
        [] OTHER -> "struct {\n" \o
                    Joined([j \in 1..Len(t.fields) |->
                              LET f == t.fields[j]
                              IN "\t" \o f.n \o " " \o Joined([k \in 1..Len(f.d) |-> "[" \o ToString(f.d[k]) \o "]"], "") \o GoName(f.t)], "\n") \o "\n}\n")

\* ------------------------------------------------------------ shapes
\* Every variable is written to its full extent; nothing is written if there is nothing to write
Shape(v) == LET zero == \E d \in ToSet(var[v].dims) : dim[d].size = 0
            IN [i \in 1..Len(var[v].dims) |-> LET d == dim[var[v].dims[i]] IN IF zero /\ d.unlim /\ Kind = "hdf5" THEN 0 ELSE d.size]
IsCoord(d) == \E v \in 1..Len(var) : var[v].g = dim[d].g /\ var[v].n = dim[d].n /\ var[v].dims # <<>> /\ var[v].dims[1] = d

\* ------------------------------------------------------------ building the dataset
Session == Len(SelectSeq(hist, LAMBDA h : h.op = "reopen"))
H(op, i) == hist' = Append(hist, [op |-> op, i |-> i])

DefGroup ==
  /\ Kind = "hdf5" /\ Len(grp) < MaxGroups
  /\ \E up \in R(1..Len(grp)), n \in R(NamePool) :
       /\ n \notin ObjNames(up) \cup DimNamesOf(up)
       /\ grp' = Append(grp, [n |-> n, up |-> up])
       /\ H("group", Len(grp) + 1)
  /\ UNCHANGED <<dim, typ, var, att>>

DefDim ==
  /\ \E g \in R(1..Len(grp)), n \in R(NamePool), size \in R({1, 2, 3, 4, 5}), w \in R(1..6), z \in R(1..3) :
       LET unlim == w = 1 /\ (Kind = "hdf5" \/ \A i \in 1..Len(dim) : ~dim[i].unlim)
       IN /\ n \notin ObjNames(g) \cup DimNamesOf(g)
          /\ dim' = Append(dim, [n |-> n, g |-> g, size |-> IF unlim /\ z = 1 THEN 0 ELSE size, unlim |-> unlim, s |-> Session])
          /\ H("dim", Len(dim) + 1)
  /\ UNCHANGED <<grp, typ, var, att>>

Refs(g) == {B(b) : b \in BaseTypes}
RefPick(g, w) == LET us == VisibleTypes(g) IN IF w <= WUser /\ us # {} THEN R({[b |-> "", u |-> i] : i \in us}) ELSE R(Refs(g))

\* Now and then a variable that has the name of a dimension: of its own (a coordinate variable), or of another
DefVar ==
  /\ \E g \in R(1..Len(grp)), w \in R(1..10), k \in R(0..3), co \in R(1..4) :
     \E r \in RefPick(g, w) :
     \E own \in R(DimNamesOf(g) \cup {"none"}), n0 \in R(NamePool), tok \in R(1..10000),
        ds0 \in {IF VisibleDims(g) = {} THEN <<>> ELSE TLCEval([i \in 1..k |-> RandomElement(VisibleDims(g))])} :
       LET n == IF co <= 2 /\ own # "none" THEN own ELSE n0
           mine == {d \in ToSet(DimsOf(g)) : dim[d].n = n}
           ds1 == IF co = 1 /\ mine # {} THEN <<CHOOSE d \in mine : TRUE>> \o (IF k > 1 /\ Len(ds0) > 1 THEN SubSeq(ds0, 2, 2) ELSE <<>>) ELSE ds0
           \* the unlimited dimension of a classic file comes first
           ds == IF Kind = "hdf5" THEN ds1 ELSE SelectSeq(ds1, LAMBDA d : dim[d].unlim) \o SelectSeq(ds1, LAMBDA d : ~dim[d].unlim)
       IN /\ n \notin ObjNames(g)
          \* libnetcdf breaks files in which a dimension gets its variable in a later session
          /\ \A d \in mine : Kind = "hdf5" /\ ds # <<>> /\ ds[1] = d => dim[d].s = Session
          /\ Kind = "cdf" => Len(SelectSeq(ds, LAMBDA d : dim[d].unlim)) <= 1
          /\ Prod([i \in 1..Len(ds) |-> dim[ds[i]].size]) <= MaxElems
          /\ var' = Append(var, [n |-> n, g |-> g, t |-> r, dims |-> ds, tok |-> tok, s |-> Session])
          /\ H("var", Len(var) + 1)
  /\ UNCHANGED <<grp, dim, typ, att>>

PutAtt ==
  /\ \E g \in R(1..Len(grp)), w \in R(1..10), onvar \in R(1..2), n \in R(NamePool \cup {"units", "long_name"}), len \in R(0..4), tok \in R(1..10000) :
     \E r \in RefPick(g, w), v \in R(IF onvar = 1 \/ VarsOf(g) = <<>> THEN {0} ELSE ToSet(VarsOf(g))) :
       /\ n \notin {att[i].n : i \in ToSet(AttsOf(g, v))}
       /\ att' = Append(att, [n |-> n, g |-> g, v |-> v, t |-> r, len |-> len, tok |-> tok, live |-> TRUE])
       /\ H("att", Len(att) + 1)
  /\ UNCHANGED <<grp, dim, typ, var>>

DelAtt ==
  LET live == {i \in 1..Len(att) : att[i].live}
  IN /\ live # {}
     /\ \E i \in R(live) : att' = [att EXCEPT ![i].live = FALSE] /\ H("delatt", i)
     /\ UNCHANGED <<grp, dim, typ, var>>

\* ---- user-defined types
IntTypes == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
Signed(b) == b \in {"int8", "int16", "int32", "int64"}
MemberNames == {"RED", "GREEN", "b", "B_1", "a", "X9"}
EnumDef(n, g) ==
  \E base \in R(IntTypes) :
  \E k \in R(1..4), ns \in R(SetToSeqs(MemberNames)), vs \in R(SetToSeqs({0, 1, 2, 7, 100} \cup (IF Signed(base) THEN {-1, -128} ELSE {200, 255}))) :
    typ' = Append(typ, [k |-> "enum", n |-> n, g |-> g, base |-> base, members |-> [i \in 1..k |-> [n |-> ns[i], v |-> vs[i]]]])
OpaqueDef(n, g) == \E s \in R({1, 2, 3, 7, 8, 16, 40}) : typ' = Append(typ, [k |-> "opaque", n |-> n, g |-> g, size |-> s])
VlenDef(n, g) == \E w \in R(1..10) : \E r \in RefPick(g, w) : r.b # "char" /\ typ' = Append(typ, [k |-> "vlen", n |-> n, g |-> g, of |-> r])
FieldNames == {"f", "a", "b c", "F", "f2", "long_field_name"}
FieldDims(w) == CASE w = 1 -> R({<<1>>, <<2>>, <<3>>}) [] w = 2 -> R({<<2, 2>>, <<1, 3>>, <<2, 1, 2>>}) [] OTHER -> {<<>>}
\* libnetcdf finds the variable-length parts of a compound only where a C compiler would put them
RECURSIVE Varying(_)
Varying(r) == IF r.u = 0 THEN r.b = "string"
              ELSE LET t == typ[r.u] IN t.k = "vlen" \/ (t.k = "compound" /\ \E i \in 1..Len(t.fields) : Varying(t.fields[i].t))
CompoundDef(n, g) ==
  \E k \in R(1..5), ns \in R(SetToSeqs(FieldNames)), pad \in R({"packed", "natural", "loose"}) :
  \E fs0 \in {TLCEval([i \in 1..k |-> [n |-> ns[i], t |-> CHOOSE r \in RefPick(g, RandomElement({i} \cup 1..10)) : TRUE,
                                      d |-> CHOOSE d \in FieldDims(RandomElement({i} \cup 1..8)) : TRUE]])} :
  \* libhdf5 frees the contents of some arrays of types with variable-length parts
  \* ord: the fields in the order of their places in memory
  \E mixed \in R(BOOLEAN), perm \in R(SetToSeqs(1..k)) :
  LET fs == [i \in 1..k |-> IF fs0[i].t.u # 0 /\ Varying(fs0[i].t) THEN [fs0[i] EXCEPT !.d = <<>>] ELSE fs0[i]]
      p == IF \E i \in 1..k : Varying(fs[i].t) THEN "natural" ELSE pad
  IN typ' = Append(typ, [k |-> "compound", n |-> n, g |-> g, pad |-> p, fields |-> fs,
                         ord |-> IF mixed /\ p # "natural" THEN perm ELSE [i \in 1..k |-> i]])

RECURSIVE Weight(_)
Weight(r) == IF r.u = 0 THEN 1
             ELSE LET t == typ[r.u]
                  IN CASE t.k = "compound" -> FoldSeq(LAMBDA x, y : x + y, 0, [i \in 1..Len(t.fields) |-> Prod(t.fields[i].d) * Weight(t.fields[i].t)])
                       [] t.k = "vlen" -> 3 * Weight(t.of) [] OTHER -> 1

DefType ==
  /\ UserTypes /\ Kind = "hdf5"
  /\ \E g \in R(1..Len(grp)), n \in R(NamePool), k \in R(1..6) :
       /\ n \notin ObjNames(g) \cup DimNamesOf(g)
       /\ CASE k = 1 -> EnumDef(n, g) [] k = 2 -> OpaqueDef(n, g) [] k \in {3, 4} -> VlenDef(n, g) [] OTHER -> CompoundDef(n, g)
       /\ H("type", Len(typ) + 1)
  /\ UNCHANGED <<grp, dim, var, att>>

\* A new type differs from those it could be confused with, and is not enormous
TypeOK == LET new == [b |-> "", u |-> Len(typ)]
          IN typ # <<>> => /\ \A i \in 1..(Len(typ) - 1) : Related(typ[i].g, typ[Len(typ)].g) => Sig([b |-> "", u |-> i]) # Sig(new)
                           /\ Weight(new) <= 40

\* ---- many objects or attributes at once
Num(i) == ToString(1000 + i)
BulkDef ==
  /\ Bulk # {}
  /\ \E g \in R(1..Len(grp)), what \in R(1..4), n \in R(Bulk), px \in R({"n", "a"}), tok \in R(1..10000) :
       LET nm(i) == px \o Num(i)
           hs(op, from) == hist \o [i \in 1..n |-> [op |-> op, i |-> from + i]]
       IN CASE what = 1 /\ Kind = "hdf5" ->
                 /\ nm(1) \notin ObjNames(g) \cup DimNamesOf(g)
                 /\ grp' = grp \o [i \in 1..n |-> [n |-> nm(i), up |-> g]] /\ hist' = hs("group", Len(grp)) /\ UNCHANGED <<dim, typ, var, att>>
            [] what = 2 ->
                 /\ nm(1) \notin ObjNames(g) \cup DimNamesOf(g)
                 /\ var' = var \o [i \in 1..n |-> [n |-> nm(i), g |-> g, t |-> B("int32"), dims |-> <<>>, tok |-> tok + i, s |-> Session]]
                 /\ hist' = hs("var", Len(var)) /\ UNCHANGED <<grp, dim, typ, att>>
            [] what = 3 /\ n <= 64 ->
                 /\ nm(1) \notin ObjNames(g) \cup DimNamesOf(g)
                 /\ dim' = dim \o [i \in 1..n |-> [n |-> nm(i), g |-> g, size |-> 1 + (i % 3), unlim |-> FALSE, s |-> Session]]
                 /\ hist' = hs("dim", Len(dim)) /\ UNCHANGED <<grp, typ, var, att>>
            [] OTHER ->
                 \E v \in R({0} \cup ToSet(VarsOf(g))) :
                   /\ nm(1) \notin {att[i].n : i \in ToSet(AttsOf(g, v))}
                   /\ att' = att \o [i \in 1..n |-> [n |-> nm(i), g |-> g, v |-> v, t |-> B(IF i % 4 = 0 THEN "char" ELSE "int32"), len |-> 1 + (i % 3), tok |-> tok + i, live |-> TRUE]]
                   /\ hist' = hs("att", Len(att)) /\ UNCHANGED <<grp, dim, typ, var>>

\* libnetcdf forgets the layout of compounds that are not as a C compiler would make them, and the contents of arrays of strings in them
Reopen == /\ Sessions
          /\ \A i \in 1..Len(typ) : typ[i].k = "compound" =>
               typ[i].pad = "natural" /\ \A j \in 1..Len(typ[i].fields) : typ[i].fields[j].d # <<>> => ~Varying(typ[i].fields[j].t)
          /\ hist # <<>> /\ Last(hist).op # "reopen" /\ H("reopen", 0) /\ UNCHANGED <<grp, dim, typ, var, att>>

Build ==
  /\ phase = "build" /\ UNCHANGED <<hnd, gtr, reads>>
  /\ IF Len(hist) < MaxDefs
     THEN /\ UNCHANGED phase
          /\ \/ \E w \in R(1..30) :
                  CASE w <= 4 -> DefGroup [] w <= 9 -> DefDim [] w <= 17 -> DefVar [] w <= 21 -> PutAtt [] w = 22 -> DelAtt
                    [] w = 23 -> Reopen [] w = 24 -> BulkDef [] OTHER -> (DefType /\ TypeOK')
             \/ UNCHANGED state
     ELSE phase' = "read" /\ UNCHANGED state

\* ------------------------------------------------------------ reading
\* Following a path name by name; 0 when there is no such group
RECURSIVE Follow(_, _)
Follow(g, p) == IF g = 0 \/ p = <<>> THEN g
                ELSE LET I == {i \in ToSet(GroupsOf(g)) : grp[i].n = p[1]} IN Follow(IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE, Tail(p))
RECURSIVE PathOf(_)
PathOf(g) == IF g = 1 THEN <<>> ELSE Append(PathOf(grp[g].up), grp[g].n)

AllNames == {grp[i].n : i \in 2..Len(grp)} \cup {dim[i].n : i \in 1..Len(dim)} \cup {typ[i].n : i \in 1..Len(typ)} \cup {var[i].n : i \in 1..Len(var)}
\* Names that may or may not exist: those of the group, of others, close ones, and those only the file format uses
AskName(g, Q(_)) ==
  \E w \in R(1..12) :
  \E n \in (CASE w <= 5 -> R(ObjNames(g) \cup DimNamesOf(g) \cup {"a"})
      [] w <= 7 -> R(AllNames \cup {"b"})
      [] w = 8 -> R(NamePool)
      [] w = 9 -> R({"", " ", "/", ".", "..", "CLASS", "NAME", "_Netcdf4Dimid", "_nc4_non_coord_", "_NCProperties", "DIMENSION_LIST"})
      [] w = 10 -> R({x \o "x" : x \in AllNames \cup {"q"}})
      [] w = 11 -> R({"_nc4_non_coord_" \o x : x \in AllNames \cup {"q"}})
      [] OTHER -> R({Joined(PathOf(i), "/") : i \in 1..Len(grp)} \cup {"/" \o x : x \in AllNames})) : Q(n)

Open == {h \in 1..Len(hnd) : hnd[h].open}
Read(r) == reads' = Append(reads, r)
Find(I, P(_)) == LET J == {i \in ToSet(I) : P(i)} IN IF J = {} THEN 0 ELSE CHOOSE i \in J : TRUE

\* What the listings of a group are
VarNames(g) == LET I == VarsOf(g) IN [i \in 1..Len(I) |-> var[I[i]].n]
GroupNames(g) == LET I == GroupsOf(g) IN [i \in 1..Len(I) |-> grp[I[i]].n]
TypeNames(g) == LET I == TypesOf(g) IN [i \in 1..Len(I) |-> typ[I[i]].n]
DimRecs(g) == LET I == DimsOf(g) IN [i \in 1..Len(I) |-> [n |-> dim[I[i]].n, coord |-> IsCoord(I[i])]]
DimRec(d) == [size |-> dim[d].size, unlim |-> dim[d].unlim, coord |-> IsCoord(d)]
\* The files of libnetcdf do not record in which order the attributes of groups below the root, or of variables of later sessions, were made
AttRecs(g, v) == LET I == AttsOf(g, v)
                 IN [i \in 1..Len(I) |-> [i |-> I[i], ord |-> IF v = 0 THEN g = 1 ELSE var[v].s = 0, n |-> att[I[i]].n, cdl |-> CdlName(att[I[i]].t), go |-> GoName(att[I[i]].t)]]
VarRec(v) == [i |-> v, n |-> var[v].n, shape |-> Shape(v), dims |-> [k \in 1..Len(var[v].dims) |-> dim[var[v].dims[k]].n],
              cdl |-> CdlName(var[v].t), go |-> GoName(var[v].t), atts |-> AttRecs(var[v].g, v)]

\* The whole tree below a group
RECURSIVE Tree(_)
Tree(g) ==
  [n |-> grp[g].n, atts |-> AttRecs(g, 0),
   dims |-> LET I == DimsOf(g) IN [i \in 1..Len(I) |-> [n |-> dim[I[i]].n] @@ DimRec(I[i])],
   types |-> LET I == TypesOf(g) IN [i \in 1..Len(I) |-> [n |-> typ[I[i]].n, cdl |-> CdlOf(I[i]), go |-> GoOf(I[i])]],
   vars |-> LET I == VarsOf(g) IN [i \in 1..Len(I) |-> VarRec(I[i])],
   groups |-> LET I == GroupsOf(g) IN [i \in 1..Len(I) |-> Tree(I[i])]]

Listing ==
  \E h \in R(Open), w \in R(1..6) :
    LET g == hnd[h].g
    IN /\ UNCHANGED <<hnd, gtr>>
       /\ Read(CASE w = 1 -> [op |-> "listvars", h |-> h, want |-> VarNames(g)]
                 [] w = 2 -> [op |-> "listgroups", h |-> h, want |-> GroupNames(g)]
                 [] w = 3 -> [op |-> "listtypes", h |-> h, want |-> TypeNames(g)]
                 [] w = 4 -> [op |-> "listdims", h |-> h, want |-> DimRecs(g)]
                 [] OTHER -> [op |-> "attrs", h |-> h, want |-> AttRecs(g, 0)])

Lookup ==
  \E h \in R(Open), w \in R(1..7) :
    LET g == hnd[h].g
    IN AskName(g, LAMBDA n :
         LET v == Find(VarsOf(g), LAMBDA i : var[i].n = n)
             d == Find(DimsOf(g), LAMBDA i : dim[i].n = n)
             t == Find(TypesOf(g), LAMBDA i : typ[i].n = n)
             base == [h |-> h, name |-> n]
         IN /\ UNCHANGED hnd
            /\ CASE w <= 2 -> UNCHANGED gtr /\ Read(base @@ [op |-> "getvar", found |-> v # 0, want |-> IF v = 0 THEN <<>> ELSE <<VarRec(v)>>])
                 [] w <= 4 -> /\ gtr' = Append(gtr, [h |-> h, v |-> v])
                              /\ Read(base @@ [op |-> "getter", found |-> v # 0, as |-> Len(gtr) + 1])
                 [] w = 5 -> UNCHANGED gtr /\ Read(base @@ [op |-> "getdim", found |-> d # 0, want |-> IF d = 0 THEN <<>> ELSE <<DimRec(d)>>])
                 [] w = 6 -> UNCHANGED gtr /\ Read(base @@ [op |-> "gettype", found |-> t # 0, want |-> IF t = 0 THEN "" ELSE CdlOf(t)])
                 [] OTHER -> UNCHANGED gtr /\ Read(base @@ [op |-> "getgotype", found |-> t # 0, want |-> IF t = 0 THEN "" ELSE GoOf(t)]))

UseGetter ==
  LET G == {i \in 1..Len(gtr) : gtr[i].v # 0 /\ hnd[gtr[i].h].open}
  IN /\ G # {} /\ UNCHANGED <<hnd, gtr>>
     /\ \E one \in R(G), again \in R(BOOLEAN), w \in R(1..7) :
        \* often the same one again
        LET i == IF again THEN Max(G) ELSE one IN
        LET v == gtr[i].v
            n == IF Shape(v) = <<>> THEN 1 ELSE Shape(v)[1]
        IN CASE w = 1 -> Read([op |-> "ginfo", vg |-> i, want |-> VarRec(v)])
             [] w = 2 -> Read([op |-> "gvalues", vg |-> i, want |-> VarRec(v)])
             [] w \in {3, 4} -> \E b \in {[k \in 1..Len(Shape(v)) |-> RandomElement(0..Shape(v)[k])]} :
                             \E e \in {[k \in 1..Len(b) |-> RandomElement(b[k]..Shape(v)[k])]}, off \in R(1..6), k \in R(1..4) :
                             \* a box inside, or one whose end is outside
                             LET out == off = 1 /\ k <= Len(e)
                                 e1 == IF out THEN [e EXCEPT ![k] = Shape(v)[k] + 1] ELSE e
                             IN Read([op |-> "gslicemd", vg |-> i, b |-> b, e |-> e1, found |-> ~out, want |-> VarRec(v)])
             [] OTHER -> \E b \in R(-1..(n + 1)), e \in R(0..(n + 1)) :
                           /\ ~(Shape(v) = <<>> /\ b = e)
                           /\ Read([op |-> "gslice", vg |-> i, b |-> b, e |-> e, found |-> 0 <= b /\ b <= e /\ e <= n /\ (Shape(v) = <<>> => e = b + 1), want |-> VarRec(v)])

\* Paths: down from this group or from the root, the last name perhaps wrong, with or without extra slashes
RECURSIVE Down(_, _)
Down(g, k) == IF k = 0 \/ GroupsOf(g) = <<>> THEN <<>>
              ELSE LET i == RandomElement(ToSet(GroupsOf(g))) IN <<grp[i].n>> \o Down(i, k - 1)
Paths ==
  \E h \in R(Open), abs \in R({TRUE, FALSE}), k \in R(0..4), bad \in R(1..5), deco \in R(IF Kind = "hdf5" THEN {"none", "end", "double", "begin"} ELSE {"none"}), wild \in R(1..8) :
  \E bn \in R(AllNames \cup NamePool \cup {"..", "."}) :
    LET from == IF abs THEN 1 ELSE hnd[h].g
    IN \E good \in {TLCEval(IF wild = 1 THEN PathOf(RandomElement(1..Len(grp))) ELSE Down(from, k))} :
         LET p == IF bad = 1 THEN Append(good, bn) ELSE IF bad = 2 /\ good # <<>> THEN <<bn>> \o good ELSE good
             s0 == (IF abs THEN "/" ELSE "") \o Joined(p, IF deco = "double" THEN "//" ELSE "/") \o (IF deco = "end" /\ p # <<>> THEN "/" ELSE "")
             s == IF deco = "begin" /\ abs THEN "/" \o s0 ELSE s0
             g == Follow(from, p)
         IN /\ UNCHANGED gtr
            /\ hnd' = Append(hnd, [g |-> g, open |-> g # 0])
            /\ Read([op |-> "getgroup", h |-> h, name |-> s, found |-> g # 0, as |-> Len(hnd) + 1])

OpenAgain == hnd' = Append(hnd, [g |-> 1, open |-> TRUE]) /\ UNCHANGED gtr /\ Read([op |-> "open", as |-> Len(hnd) + 1])
CloseOne == /\ Cardinality(Open) > 1 /\ UNCHANGED gtr
            /\ \E h \in R(Open) : hnd' = [hnd EXCEPT ![h].open = FALSE] /\ Read([op |-> "closeg", h |-> h])

Result == [grp |-> grp, dim |-> dim, typ |-> typ, var |-> var, att |-> att, hist |-> hist, reads |-> reads, tree |-> Tree(1),
           shapes |-> [v \in 1..Len(var) |-> Shape(v)],
           handles |-> hnd, getters |-> gtr, paths |-> [g \in 1..Len(grp) |-> PathOf(g)]]
Emit == phase' = "done" /\ UNCHANGED <<state, hnd, gtr, reads>> /\ PrintT(<<"TRACE", ToJson(Result)>>)

OneRequest ==
  IF hnd = <<>> THEN OpenAgain
  ELSE \E w \in R(1..20) :
         CASE w <= 5 -> Listing [] w <= 10 -> Lookup [] w <= 14 -> (UseGetter \/ UNCHANGED <<hnd, gtr, reads>>) [] w <= 18 -> Paths
           [] w = 19 -> OpenAgain [] OTHER -> (CloseOne \/ UNCHANGED <<hnd, gtr, reads>>)

Reading ==
  /\ phase = "read" /\ UNCHANGED state
  /\ IF Len(reads) < MaxReads
     THEN UNCHANGED phase /\ OneRequest
     ELSE Emit

Init == /\ grp = <<[n |-> "", up |-> 0]>> /\ dim = <<>> /\ typ = <<>> /\ var = <<>> /\ att = <<>> /\ hist = <<>>
        /\ hnd = <<>> /\ gtr = <<>> /\ reads = <<>> /\ phase = "build"
Next == Build \/ Reading
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ what must be true of this
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
\* The listings of a group partition its names, and what is listed is found
Listed ==
  phase = "read" => \A g \in 1..Len(grp) :
    /\ Distinct(VarNames(g)) /\ Distinct(GroupNames(g)) /\ Distinct(TypeNames(g))
    /\ ToSet(VarNames(g)) \cap ToSet(GroupNames(g)) = {} /\ ToSet(TypeNames(g)) \cap ToSet(GroupNames(g)) = {}
    /\ ToSet(VarNames(g)) \cap ToSet(TypeNames(g)) = {}
    /\ DimNamesOf(g) \cap (ToSet(GroupNames(g)) \cup ToSet(TypeNames(g))) = {}
    /\ Follow(1, PathOf(g)) = g
\* A path leads where its names lead one after the other
Stepwise == phase = "read" => \A g, u \in 1..Len(grp) : IsAbove(u, g) =>
              Follow(u, SubSeq(PathOf(g), Len(PathOf(u)) + 1, Len(PathOf(g)))) = g
\* Sizes of dimensions and shapes agree
ShapesAgree == phase = "read" => \A v \in 1..Len(var) : \A i \in 1..Len(var[v].dims) :
                 LET d == dim[var[v].dims[i]] IN ~d.unlim => Shape(v)[i] = d.size
\* Dimensions and types are visible where they are used
InScope == phase = "read" => \A v \in 1..Len(var) : /\ \A d \in ToSet(var[v].dims) : IsAbove(dim[d].g, var[v].g)
                                                    /\ var[v].t.u # 0 => IsAbove(typ[var[v].t.u].g, var[v].g)
\* Reading does not change the dataset, and a request has one answer
ReadOnly == [][phase # "build" => UNCHANGED state]_vars
OneAnswer == \A i, j \in 1..Len(reads) :
               LET a == reads[i] b == reads[j]
               IN a.op = b.op /\ a.op \notin {"open", "closeg", "getter", "getgroup"} /\ "h" \in DOMAIN a /\ hnd[a.h].g = hnd[b.h].g
                  /\ ("name" \in DOMAIN a => a.name = b.name) => a.want = b.want
=============================================================================
