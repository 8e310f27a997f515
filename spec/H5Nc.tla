-------------------------------- MODULE H5Nc ---------------------------------
(* How NetCDF4 uses HDF5: which groups, dimensions, variables and attributes   *)
(* the objects of a file are.                                                  *)
EXTENDS H5Bytes

Text(s) == s    \* texts are sequences of byte values
ClassName == <<67, 76, 65, 83, 83>>
NameName == <<78, 65, 77, 69>>
DimListName == <<68, 73, 77, 69, 78, 83, 73, 79, 78, 95, 76, 73, 83, 84>>
RefListName == <<82, 69, 70, 69, 82, 69, 78, 67, 69, 95, 76, 73, 83, 84>>
DimidName == <<95, 78, 101, 116, 99, 100, 102, 52, 68, 105, 109, 105, 100>>
CoordsName == <<95, 78, 101, 116, 99, 100, 102, 52, 67, 111, 111, 114, 100, 105, 110, 97, 116, 101, 115>>
PropsName == <<95, 78, 67, 80, 114, 111, 112, 101, 114, 116, 105, 101, 115>>
StrictName == <<95, 110, 99, 51, 95, 115, 116, 114, 105, 99, 116>>
Hidden == {ClassName, NameName, DimListName, RefListName, DimidName, CoordsName, PropsName, StrictName}
ScaleClass == <<68, 73, 77, 69, 78, 83, 73, 79, 78, 95, 83, 67, 65, 76, 69>>
\* "This is a netCDF dimension but not a netCDF variable"
NotVar == <<84, 104, 105, 115, 32, 105, 115, 32, 97, 32, 110, 101, 116, 67, 68, 70, 32, 100, 105, 109, 101, 110, 115, 105, 111, 110,
            32, 98, 117, 116, 32, 110, 111, 116, 32, 97, 32, 110, 101, 116, 67, 68, 70, 32, 118, 97, 114, 105, 97, 98, 108, 101>>
\* "_nc4_non_coord_" is put before the name of a variable that has the name of a dimension it is not the scale of
NonCoord == <<95, 110, 99, 52, 95, 110, 111, 110, 95, 99, 111, 111, 114, 100, 95>>

HasAttr(o, n) == \E i \in 1..Len(o.attrs) : o.attrs[i].name = n
AttrOf(o, n) == o.attrs[CHOOSE i \in 1..Len(o.attrs) : o.attrs[i].name = n]
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
IsScale(o) == o.is = "dataset" /\ HasAttr(o, ClassName) /\ AttrOf(o, ClassName).elems = <<ScaleClass>>
IsOnlyDim(o) == IsScale(o) /\ HasAttr(o, NameName) /\ Len(AttrOf(o, NameName).elems) = 1 /\ StartsWith(AttrOf(o, NameName).elems[1], NotVar)
Shown(o) == SelectSeq(o.attrs, LAMBDA a : a.name \notin Hidden)
Unprefixed(n) == IF StartsWith(n, NonCoord) THEN SubSeq(n, Len(NonCoord) + 1, Len(n)) ELSE n

\* All the scales of a file: [addr, name, id]
RECURSIVE ScalesOf(_)
ScalesOf(g) ==
  Join([i \in 1..Len(g.links) |->
          LET l == g.links[i]
          IN IF l.obj.is = "group" THEN ScalesOf(l.obj)
             ELSE IF IsScale(l.obj)
             THEN <<[addr |-> l.obj.addr, name |-> l.name,
                     id |-> IF HasAttr(l.obj, DimidName) THEN AttrOf(l.obj, DimidName).elems[1] ELSE <<>>]>> ELSE <<>>])

AddrBytes(p) == [i \in 1..8 |-> IF i <= 4 THEN 0 ELSE (p \div (256 ^ (8 - i))) % 256]
\* The names of a variable's dimensions; <<>> for one without a name
DimNames(o, name, scales) ==
  LET ref(r) == LET I == {i \in 1..Len(scales) : AddrBytes(scales[i].addr) = r}
                IN IF Need(Cardinality(I) = 1, "reference to what is no dimension scale") THEN scales[CHOOSE i \in I : TRUE].name ELSE <<>>
      byId(x) == LET I == {i \in 1..Len(scales) : scales[i].id = x} IN IF I = {} THEN <<>> ELSE scales[CHOOSE i \in I : TRUE].name
  IN IF HasAttr(o, DimListName)
     THEN LET l == AttrOf(o, DimListName).elems
          IN IF Need(Len(l) = Len(o.shape) /\ \A i \in 1..Len(l) : Len(l[i]) = 1, "DIMENSION_LIST") THEN [i \in 1..Len(l) |-> ref(l[i][1])] ELSE <<>>
     ELSE IF IsScale(o) THEN (IF Len(o.shape) = 1 THEN <<name>> ELSE IF HasAttr(o, CoordsName) THEN [i \in 1..Len(o.shape) |-> byId(AttrOf(o, CoordsName).elems[i])]
                              ELSE [i \in 1..Len(o.shape) |-> IF i = 1 THEN name ELSE <<>>])
     ELSE [i \in 1..Len(o.shape) |-> <<>>]

RECURSIVE NcGroup(_, _)
NcGroup(g, scales) ==
  LET vs == SelectSeq(g.links, LAMBDA l : l.obj.is = "dataset" /\ ~IsOnlyDim(l.obj))
      ds == SelectSeq(g.links, LAMBDA l : l.obj.is = "dataset" /\ IsScale(l.obj))
      gs == SelectSeq(g.links, LAMBDA l : l.obj.is = "group")
      ts == SelectSeq(g.links, LAMBDA l : l.obj.is = "type")
  IN [attrs |-> Shown(g),
      dims |-> [i \in 1..Len(ds) |-> [name |-> ds[i].name, size |-> IF ds[i].obj.shape = <<>> THEN 1 ELSE ds[i].obj.shape[1],
                                      unlimited |-> ds[i].obj.max # <<>> /\ ds[i].obj.max[1] = -1]],
      vars |-> [i \in 1..Len(vs) |->
                  LET o == vs[i].obj
                  IN [name |-> Unprefixed(vs[i].name), ty |-> o.ty, shape |-> o.shape, dims |-> DimNames(o, vs[i].name, scales),
                      attrs |-> Shown(o), elems |-> o.elems, known |-> o.known, fill |-> o.fill]],
      types |-> [i \in 1..Len(ts) |-> [name |-> ts[i].name, ty |-> ts[i].obj.ty]],
      groups |-> [i \in 1..Len(gs) |-> [name |-> gs[i].name, group |-> NcGroup(gs[i].obj, scales)]]]

\* The dimension ids in the file are all different
ScalesOK(scales) == \A i, j \in 1..Len(scales) : i # j /\ scales[i].id # <<>> => scales[i].id # scales[j].id

Dataset(b) == LET r == File(b, TRUE).root
                  s == ScalesOf(r)
              IN IF Need(ScalesOK(s), "dimension id used twice") THEN NcGroup(r, s) ELSE <<>>
=============================================================================
