------------------------------- MODULE H5Check -------------------------------
(* Files that the code wrote, or is to read, decoded by the specification.     *)
EXTENDS H5Nc, Json, IOUtils

CONSTANTS WithData, WithParts

Files == JsonDeserialize(IOEnv.VERIF_FILES)

VARIABLE i
Init == i = 0
Next ==
  /\ i < Len(Files)
  /\ i' = i + 1
  /\ LET b == Files[i + 1].bytes
     IN PrintT(<<"TRACE", ToJson([id |-> Files[i + 1].id, eof |-> Superblock(b).eof, len |-> Len(b),
                                  file |-> IF WithData THEN Dataset(b) ELSE <<>>,
                                  disjoint |-> PartsDisjoint(b), parts |-> IF WithParts THEN Parts(b) ELSE <<>>])>>)
Spec == Init /\ [][Next]_i
=============================================================================
