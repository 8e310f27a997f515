------------------------------ MODULE CdfCheck -------------------------------
(* Classic files that the code wrote, decoded by the specification.            *)
EXTENDS CdfBytes, Json, IOUtils

Files == JsonDeserialize(IOEnv.VERIF_FILES)

\* The dataset is consistent, and all its parts are where the format wants them
Conforms(b) ==
  LET x == Decode(b)
      head == [ver |-> x.ver, numrecs |-> x.numrecs, dims |-> x.dims]
      names(s) == {s[k].name : k \in 1..Len(s)}
      goodTypes(s) == \A k \in 1..Len(s) : s[k].ty \in TypesOf(x.ver)
  IN /\ Magic(b)
     /\ Cardinality(names(x.dims)) = Len(x.dims)
     /\ Cardinality(names(x.vars)) = Len(x.vars)
     /\ Cardinality(names(x.atts)) = Len(x.atts)
     /\ goodTypes(x.atts) /\ goodTypes(x.vars)
     /\ Cardinality({k \in 1..Len(x.dims) : x.dims[k].len = 0}) <= 1
     /\ \A k \in 1..Len(x.vars) :
          LET v == x.vars[k]
          IN /\ goodTypes(v.atts) /\ Cardinality(names(v.atts)) = Len(v.atts)
             /\ v.vsizeok
             /\ \A d \in 1..Len(v.dimids) : v.dimids[d] < Len(x.dims) /\ (d > 1 => x.dims[v.dimids[d] + 1].len # 0)
             /\ v.begin >= x.hlen /\ v.begin % 4 = 0
             /\ v.rec \/ v.begin + VSize(head, v) <= Len(b)
     \* no two variables share a byte (there are no records)
     /\ \A k, m \in 1..Len(x.vars) :
          LET size(v) == IF v.rec THEN 0 ELSE VSize(head, v)
          IN k # m => \/ x.vars[k].begin + size(x.vars[k]) <= x.vars[m].begin
                      \/ x.vars[m].begin + size(x.vars[m]) <= x.vars[k].begin
                      \/ size(x.vars[k]) = 0 \/ size(x.vars[m]) = 0

VARIABLE i
Init == i = 0
Next ==
  /\ i < Len(Files)
  /\ i' = i + 1
  /\ LET b == Files[i + 1].bytes
     IN PrintT(<<"TRACE", ToJson([id |-> Files[i + 1].id, file |-> Decode(b), conforms |-> Conforms(b)])>>)
Spec == Init /\ [][Next]_i
=============================================================================
