----------------------------- MODULE H5Storage ------------------------------
(* NetCDF4 variables and how they are stored.  A file is defined (dimensions, *)
(* and variables with their storage, filters, byte order and fill value), and *)
(* then parts are written in any order.  The logical array does not depend on *)
(* any of it: an element is what was last written there, or the fill value.   *)
(* The physical side is modelled too: which chunks a write allocates, and     *)
(* with that which elements are fill because nothing stores them.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, Types, MaxDims, Sizes, MaxVars, MaxRank, MaxWrites, MaxElems, Storages, Groups, Unlimited,
          Filters,       \* TRUE: variables may be filtered
          MaxChunk, Endians, Fills,
          Masks,         \* TRUE: chunks may be stored without some of the filters
          Forms          \* in what other forms the library writes the complete file again (how many)

VARIABLES dims,      \* [size, unlim]
          vrs,       \* [ty, dimids, storage, chunks, deflate, shuffle, fletcher, endian, fill, group]
          extent,    \* per variable: its own extents
          data,      \* per variable: coordinates -> <<token, index>> for what was written
          alloc,     \* per variable: chunks stored (origin coordinates), or {<<>>} once a plain area is
          mask,      \* per variable: chunks stored without all of the variable's filters -> the filters left out
          form,      \* 0: as libnetcdf wrote the file, or the form in which it was written again
          phase, ntok, hist

vars == <<dims, vrs, extent, data, alloc, mask, form, phase, ntok, hist>>

R(S) == IF Sim THEN {RandomElement(S)} ELSE S
Prod(s) == FoldSeq(LAMBDA x, y : x * y, 1, s)
Max2(a, b) == IF a > b THEN a ELSE b
Rank(v) == Len(vrs[v].dimids)

\* All coordinates of a box, row by row
RECURSIVE Coords(_, _)
Coords(start, count) ==
  IF count = <<>> THEN <<<<>>>>
  ELSE LET rest == Coords(Tail(start), Tail(count))
       IN FlattenSeq([i \in 1..Head(count) |-> [j \in 1..Len(rest) |-> <<Head(start) + i - 1>> \o rest[j]]])

Init == /\ dims = <<>> /\ vrs = <<>> /\ extent = <<>> /\ data = <<>> /\ alloc = <<>> /\ mask = <<>> /\ form = 0
        /\ phase = "define" /\ ntok = 0 /\ hist = <<>>

AddDim ==
  /\ phase = "define" /\ vrs = <<>> /\ Len(dims) < MaxDims
  /\ \E n \in R(Sizes), u \in R({FALSE} \cup (IF Unlimited THEN {TRUE} ELSE {})) :
       dims' = Append(dims, [size |-> IF u THEN 0 ELSE n, unlim |-> u])
  /\ UNCHANGED <<vrs, extent, data, alloc, mask, form, phase, ntok, hist>>

\* A dimension is used once by a variable, and in order of its definition (as ncgen would)
RECURSIVE Increasing(_, _)
Increasing(lo, n) == IF n = 0 THEN {<<>>}
                     ELSE UNION {{<<i>> \o r : r \in Increasing(i + 1, n - 1)} : i \in lo..Len(dims)}
DimSeqs(n) == {s \in Increasing(1, n) : Prod([i \in 1..Len(s) |-> Max2(1, dims[s[i]].size)]) <= MaxElems}

HasUnlim(s) == \E i \in 1..Len(s) : dims[s[i]].unlim

Storage(s) == IF HasUnlim(s) THEN {"chunked"} ELSE IF s = <<>> THEN Storages \ {"chunked"} ELSE Storages

AddVar ==
  /\ phase = "define" /\ Len(vrs) < MaxVars
  /\ \E ty \in R(Types) : \E n \in R(0..(IF Len(dims) < MaxRank THEN Len(dims) ELSE MaxRank)) : \E s \in R(DimSeqs(n) \cup {<<>>}) :
     \E st \in R(Storage(s) \cup {"contiguous"}) :
     \E ch \in R([1..Len(s) -> 1..MaxChunk]), dflt \in R(IF Sim THEN BOOLEAN ELSE {FALSE}), de \in R(IF Filters THEN 0..5 ELSE {0}),
        sh \in R(IF Filters THEN BOOLEAN ELSE {FALSE}), fl \in R(IF Filters THEN BOOLEAN ELSE {FALSE}),
        en \in R(Endians), fi \in R(Fills), g \in R(1..Groups) :
     LET chunked == st = "chunked" /\ st \in Storage(s)
         filt == chunked /\ Filters /\ ty # "string"
         chunks == [i \in 1..Len(s) |-> IF dims[s[i]].unlim \/ ch[i] < dims[s[i]].size THEN ch[i] ELSE Max2(1, dims[s[i]].size)]
     IN /\ (st \in Storage(s))
        /\ vrs' = Append(vrs, [ty |-> ty, dimids |-> s, storage |-> st,
                               chunks |-> IF chunked /\ ~dflt THEN chunks ELSE <<>>,
                               deflate |-> IF filt /\ de > 0 THEN 2 * de - 1 ELSE 0,
                               shuffle |-> filt /\ sh, fletcher |-> filt /\ fl,
                               endian |-> IF ty \in {"string", "char"} THEN 0 ELSE en, fill |-> fi, group |-> g, ftok |-> ntok])
        /\ extent' = Append(extent, [i \in 1..Len(s) |-> dims[s[i]].size])
        /\ data' = Append(data, <<>>)
        /\ alloc' = Append(alloc, {})
        /\ mask' = Append(mask, <<>>)
        /\ ntok' = ntok + 1
  /\ UNCHANGED <<dims, form, phase, hist>>

\* The chunk an element is in (of the chunk sizes given; the library's own choice is not modelled)
ChunkOf(v, c) == [i \in 1..Len(c) |-> c[i] \div vrs[v].chunks[i]]
Modelled(v) == vrs[v].storage = "chunked" /\ vrs[v].chunks # <<>>

Write ==
  /\ phase \in {"define", "write"} /\ vrs # <<>> /\ Len(hist) < MaxWrites
  /\ \E v \in R(1..Len(vrs)) :
     LET n == Rank(v)
         lim == [i \in 1..n |-> IF dims[vrs[v].dimids[i]].unlim THEN extent[v][i] + 2 ELSE dims[vrs[v].dimids[i]].size]
     IN /\ \A i \in 1..n : lim[i] > 0
        /\ \E start \in (IF Sim THEN {[i \in 1..n |-> RandomElement(0..(lim[i] - 1))]} ELSE {f \in [1..n -> 0..4] : \A i \in 1..n : f[i] < lim[i]}) :
           \E full \in R({1, 2}) :
           \E count \in (IF Sim THEN {[i \in 1..n |-> IF full = 1 THEN lim[i] - start[i] ELSE RandomElement(1..(lim[i] - start[i]))]}
                         ELSE {f \in [1..n -> 1..5] : \A i \in 1..n : start[i] + f[i] <= lim[i]}) :
           LET cs == Coords(start, count)
               new == [c \in ToSet(cs) |-> <<ntok, CHOOSE k \in 1..Len(cs) : cs[k] = c>>]
               ext == [i \in 1..n |-> Max2(extent[v][i], start[i] + count[i])]
           IN /\ Prod(ext) <= MaxElems
              /\ data' = [data EXCEPT ![v] = new @@ @]
              /\ extent' = [extent EXCEPT ![v] = ext]
              /\ dims' = [i \in 1..Len(dims) |-> IF dims[i].unlim /\ Contains(vrs[v].dimids, i)
                            THEN [dims[i] EXCEPT !.size = Max2(@, ext[CHOOSE j \in 1..n : vrs[v].dimids[j] = i])] ELSE dims[i]]
              /\ alloc' = [alloc EXCEPT ![v] = @ \cup (IF Modelled(v) THEN {ChunkOf(v, c) : c \in ToSet(cs)} ELSE {<<>>})]
              /\ hist' = Append(hist, [op |-> "write", v |-> v, start |-> start, count |-> count, tok |-> ntok])
              /\ ntok' = ntok + 1
  /\ phase' = "write"
  /\ UNCHANGED <<vrs, mask, form>>

\* The file is flushed, or closed and opened again: nothing changes.
Sync == /\ phase = "write" /\ Len(hist) < MaxWrites
        /\ \E o \in R({"sync", "reopen"}) : hist' = Append(hist, [op |-> o])
        /\ UNCHANGED <<dims, vrs, extent, data, alloc, mask, form, phase, ntok>>

NFilters(v) == Cardinality({f \in {1, 2, 3} : <<vrs[v].shuffle, vrs[v].deflate > 0, vrs[v].fletcher>>[f]})

Rechunkable == {v \in 1..Len(vrs) : Modelled(v) /\ NFilters(v) > 0 /\ alloc[v] # {}}

\* A chunk is stored again, as a filter that is optional may have it: without some of the filters,
\* which the file notes for that chunk.  No element changes.
Rechunk ==
  /\ phase \in {"write", "finish"} /\ Masks /\ Len(hist) < MaxWrites + (IF Sim THEN 3 ELSE 1)
  /\ Rechunkable # {}
  /\ \E v \in R(Rechunkable) :
          \E c \in R(alloc[v]), skip \in R(SUBSET (1..NFilters(v))) :
            /\ mask' = [mask EXCEPT ![v] = (c :> skip) @@ @]
            /\ hist' = Append(hist, [op |-> "rechunk", v |-> v, origin |-> [i \in 1..Len(c) |-> c[i] * vrs[v].chunks[i]], skip |-> skip])
  /\ phase' = "finish"
  /\ UNCHANGED <<dims, vrs, extent, data, alloc, form, ntok>>

\* The complete file is written again in another form (other versions of its structures, other layouts,
\* other filters).  No element changes, and what was never written keeps its value.  (h5repack writes
\* files that not even the HDF5 library can read if a string has its own fill value.)
Repack ==
  /\ phase \in {"define", "write", "finish"} /\ vrs # <<>> /\ form = 0 /\ Forms > 0
  /\ \A v \in 1..Len(vrs) : ~(vrs[v].ty = "string" /\ vrs[v].fill = "own")
  /\ \E k \in R(1..Forms) : form' = k
  /\ phase' = "finish"
  /\ UNCHANGED <<dims, vrs, extent, data, alloc, mask, ntok, hist>>

\* <<0, 0>> stands for the fill value
Elems(v) == LET cs == Coords([i \in 1..Rank(v) |-> 0], extent[v])
            IN [k \in 1..Len(cs) |-> IF cs[k] \in DOMAIN data[v] THEN data[v][cs[k]] ELSE <<-1, 0>>]

Emit ==
  /\ phase \in {"define", "write", "finish"} /\ vrs # <<>>
  /\ phase' = "done"
  /\ PrintT(<<"TRACE", ToJson([dims |-> dims, hist |-> hist, form |-> form,
        vars |-> [v \in 1..Len(vrs) |-> vrs[v] @@ [shape |-> extent[v], elems |-> Elems(v), nalloc |-> Cardinality(alloc[v])]]])>>)
  /\ UNCHANGED <<dims, vrs, extent, data, alloc, mask, form, ntok, hist>>

SimNext ==
  /\ phase # "done"
  /\ \E r \in {RandomElement(1..24)} :
       CASE phase = "define" /\ vrs = <<>> /\ (dims = <<>> \/ r <= 12) /\ Len(dims) < MaxDims -> AddDim
         [] phase = "define" /\ (vrs = <<>> \/ r <= 12) /\ Len(vrs) < MaxVars -> AddVar \/ UNCHANGED vars
         [] phase # "finish" /\ Len(hist) < MaxWrites /\ r <= 16 -> Write \/ UNCHANGED vars
         [] phase = "write" /\ Len(hist) < MaxWrites /\ r = 17 -> Sync
         [] r \in {18, 19, 20} /\ Forms > 0 /\ (phase # "define" \/ MaxWrites = 0) -> Repack \/ UNCHANGED vars
         [] r > 20 /\ phase \in {"write", "finish"} /\ Masks /\ Rechunkable # {} -> Rechunk \/ UNCHANGED vars
         [] OTHER -> (IF vrs = <<>> \/ (r <= 22 /\ hist = <<>> /\ MaxWrites > 0) THEN UNCHANGED vars ELSE Emit)

AllNext == \/ AddDim \/ AddVar \/ Write \/ Rechunk \/ (Forms > 0 /\ Len(vrs) = MaxVars /\ Repack)
           \/ (phase # "done" /\ Len(vrs) = MaxVars /\ Emit)
Next == IF Sim THEN SimNext ELSE AllNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What was written lies inside the variable, and in chunks that are stored.
Inside == \A v \in 1..Len(vrs) : \A c \in DOMAIN data[v] :
            /\ \A i \in 1..Rank(v) : c[i] < extent[v][i]
            /\ (IF Modelled(v) THEN ChunkOf(v, c) \in alloc[v] ELSE alloc[v] # {})
\* An element of a chunk that is not stored was never written.
UnstoredIsFill == \A v \in 1..Len(vrs) : Modelled(v) =>
            \A c \in DOMAIN data[v] : ChunkOf(v, c) \in alloc[v]
\* Only an unlimited dimension lets a variable grow, and no variable is larger than its dimensions.
WithinDims == \A v \in 1..Len(vrs) : \A i \in 1..Rank(v) :
            LET d == dims[vrs[v].dimids[i]] IN extent[v][i] <= d.size /\ (~d.unlim => extent[v][i] = d.size)
\* Only what is stored can be stored without filters.
Masked == \A v \in 1..Len(vrs) : \A c \in DOMAIN mask[v] : c \in alloc[v] /\ mask[v][c] \subseteq 1..NFilters(v)
\* Only a write changes what is in a variable.
OnlyWrites == [][(data' # data /\ Len(vrs') = Len(vrs)) => phase' = "write" /\ Len(hist') > Len(hist)]_vars
\* Writing never loses what was written elsewhere.
Kept == [][\A v \in 1..Len(data) : DOMAIN data[v] \subseteq DOMAIN data'[v]]_vars
=============================================================================
