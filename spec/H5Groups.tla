------------------------------ MODULE H5Groups -------------------------------
(* Files of the HDF5 library itself: groups, datasets and attributes that are  *)
(* created and deleted one by one or many at once, in each of the ways the     *)
(* library stores them (symbol tables; links in the header or in a heap, with  *)
(* or without the order of creation), and what is then listed.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim,
          Forms,        \* of {"old", "new", "tracked", "indexed"}: what is known of the order of links and attributes
          MaxOps, MaxDepth,
          Names,        \* number of names, in their order
          Kinds,        \* kinds of datasets
          AttKinds, AttNames,
          Bulks         \* how many are created at once

VARIABLES form, k, nodes, kids, ops, done
vars == <<form, k, nodes, kids, ops, done>>

\* A node: [parent, name, kind, depth, alive, atts], of which the first is the root.  kids[g]: what is in group g, by name.
Root == [parent |-> 0, name |-> 0, kind |-> 0, depth |-> 0, alive |-> TRUE, atts |-> <<>>]
Group == 0
Node(g, n, kind) == [parent |-> g, name |-> n, kind |-> kind, depth |-> nodes[g].depth + 1, alive |-> TRUE, atts |-> <<>>]

Ids == 1..Len(nodes)
Alive == {i \in Ids : nodes[i].alive}
Groups == {i \in Alive : nodes[i].kind = Group}
RECURSIVE Path(_)
Path(i) == IF i = 1 THEN <<>> ELSE Append(Path(nodes[i].parent), nodes[i].name)
RECURSIVE Below(_, _)
Below(i, g) == i = g \/ (i # 1 /\ Below(nodes[i].parent, g))

Tracked == form \in {"tracked", "indexed"}
ByName(g) == CHOOSE r \in {TLCEval([j \in 1..Len(ns) |-> kids[g][ns[j]]]) : ns \in {SelectSeq([n \in 1..Names |-> n], LAMBDA n : n \in DOMAIN kids[g])}} : TRUE
ByCreation(g) == SelectSeq([i \in Ids |-> i], LAMBDA i : nodes[i].alive /\ nodes[i].parent = g)
Listing(g) == IF Tracked THEN ByCreation(g) ELSE ByName(g)

\* What a sequence without repetitions has at each place: [value |-> place + n]
RECURSIVE PlaceOf(_, _)
PlaceOf(s, n) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] :> (n + 1)
                 ELSE LET h == Len(s) \div 2 IN PlaceOf(SubSeq(s, 1, h), n) @@ PlaceOf(SubSeq(s, h + 1, Len(s)), n + h)

R(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == /\ form \in Forms /\ nodes = <<Root>> /\ kids = <<<<>>>> /\ ops = <<>> /\ done = FALSE
        /\ k \in (IF form = "old" THEN {0, 1, 2} ELSE {0})      \* the size of the nodes of symbol tables, or the default

Op(o) == ops' = Append(ops, o)

Create ==
  \E g \in R({x \in Groups : nodes[x].depth < MaxDepth}), n \in R(1..Names), kind \in R({Group} \cup Kinds) :
    IF n \in DOMAIN kids[g] \/ (kind = Group /\ nodes[g].depth + 1 >= MaxDepth) THEN UNCHANGED <<nodes, kids, ops>>
    ELSE /\ nodes' = Append(nodes, Node(g, n, kind))
         /\ kids' = TLCEval(Append([kids EXCEPT ![g] = (n :> (Len(nodes) + 1)) @@ @], <<>>))
         /\ Op([op |-> "create", at |-> Path(g), name |-> n, kind |-> kind, id |-> Len(nodes) + 1])

\* Many datasets, with every step-th name
Bulk ==
  \E g \in R({x \in Groups : nodes[x].depth < MaxDepth}), c \in R(Bulks), s \in R({1, 3, 7}), kind \in R(Kinds) :
    \E new \in {SetToSeq({((i * s) % Names) + 1 : i \in 0..(c - 1)} \ DOMAIN kids[g])}, n0 \in {Len(nodes)} :
       IF new = <<>> THEN UNCHANGED <<nodes, kids, ops>>
       ELSE /\ nodes' = TLCEval(nodes \o [i \in 1..Len(new) |-> Node(g, new[i], kind)])
            /\ kids' = TLCEval([kids EXCEPT ![g] = PlaceOf(new, n0) @@ @] \o [i \in 1..Len(new) |-> <<>>])
            /\ Op([op |-> "bulk", at |-> Path(g), names |-> new, kind |-> kind, id |-> n0 + 1])

\* Removes names of a group: every step-th of those there are
Unlink ==
  \E g \in R(Groups) : \E s \in R({1, 2, 3, 5}), from \in R(0..4), one \in R(BOOLEAN) :
    \E all \in {ByName(g)} : \E pick \in {SelectSeq([j \in 1..Len(all) |-> j], LAMBDA j : j % s = from % s)} :
    \E gone \in {IF one /\ pick # <<>> THEN <<all[pick[1]]>> ELSE [j \in 1..Len(pick) |-> all[pick[j]]]} :
    \E dead \in {{gone[j] : j \in 1..Len(gone)}} : \E gs \in {{x \in dead : nodes[x].kind = Group}} :
    \E left \in {DOMAIN kids[g] \ {nodes[d].name : d \in dead}} :
       IF gone = <<>> THEN UNCHANGED <<nodes, kids, ops>>
       ELSE /\ nodes' = TLCEval([i \in Ids |-> IF nodes[i].alive /\ (i \in dead \/ \E d \in gs : Below(i, d))
                                       THEN [nodes[i] EXCEPT !.alive = FALSE] ELSE nodes[i]])
            /\ kids' = TLCEval([kids EXCEPT ![g] = TLCEval([n \in left |-> kids[g][n]])])
            /\ Op([op |-> "unlink", at |-> Path(g), names |-> TLCEval([j \in 1..Len(gone) |-> nodes[gone[j]].name])])

Has(i, n) == \E j \in 1..Len(nodes[i].atts) : nodes[i].atts[j].name = n
Attribute ==
  \E i \in R(Alive), n \in R(1..AttNames), c \in R({1, 1, 2, AttNames}), kind \in R(AttKinds) :
    \E new \in {SetToSeq({x \in {((n * j) % AttNames) + 1 : j \in 1..c} : ~Has(i, x)})} :
    \E rev \in {n % 2 = 0} : \E as \in {TLCEval([j \in 1..Len(new) |-> [name |-> IF rev THEN new[Len(new) + 1 - j] ELSE new[j], kind |-> ((kind + j) % Cardinality(AttKinds)) + 1]])} :
       IF as = <<>> THEN UNCHANGED <<nodes, kids, ops>>
       ELSE /\ nodes' = [nodes EXCEPT ![i].atts = @ \o as] /\ UNCHANGED kids
            /\ Op([op |-> "att", at |-> Path(i), atts |-> as])
DropAttribute ==
  \E i \in R(Alive) : \E j \in R(0..Len(nodes[i].atts)) :
    IF j = 0 THEN UNCHANGED <<nodes, kids, ops>>
    ELSE /\ nodes' = [nodes EXCEPT ![i].atts = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))] /\ UNCHANGED kids
         /\ Op([op |-> "unatt", at |-> Path(i), name |-> nodes[i].atts[j].name])

\* The file is closed and opened again
Reopen == UNCHANGED <<nodes, kids>> /\ IF ops # <<>> /\ Last(ops).op # "reopen" THEN Op([op |-> "reopen"]) ELSE UNCHANGED ops

Emit ==
  /\ done' = TRUE /\ UNCHANGED <<form, k, nodes, kids, ops>>
  /\ PrintT(<<"TRACE", ToJson([form |-> form, k |-> k, ops |-> ops, tracked |-> Tracked,
       nodes |-> [i \in Ids |-> [name |-> nodes[i].name, kind |-> nodes[i].kind, alive |-> nodes[i].alive, atts |-> nodes[i].atts,
                                 list |-> IF nodes[i].alive /\ nodes[i].kind = Group THEN Listing(i) ELSE <<>>]]])>>)

Next ==
  /\ ~done
  /\ IF Len(ops) >= MaxOps \/ (Sim /\ Len(ops) > 2 /\ RandomElement(1..(25 + Len(ops) * 0)) = 1) THEN Emit
     ELSE /\ UNCHANGED <<form, k, done>>
          /\ IF Sim THEN \E r \in {RandomElement(1..(19 + Len(ops) * 0))} :
                 CASE r <= 8 -> Create [] r <= 10 -> Bulk [] r <= 13 -> Unlink [] r <= 17 -> Attribute [] r <= 18 -> DropAttribute
                   [] OTHER -> Reopen
             ELSE Create \/ Bulk \/ Unlink \/ Attribute \/ DropAttribute \/ Reopen
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Names are unique in a group, the map by name agrees with the nodes, and the dead have nothing alive below them.
Consistent ==
  /\ Len(kids) = Len(nodes)
  /\ \A g \in Groups : \A n \in DOMAIN kids[g] : nodes[kids[g][n]].alive /\ nodes[kids[g][n]].parent = g /\ nodes[kids[g][n]].name = n
  /\ \A i \in Alive \ {1} : LET p == nodes[i].parent IN nodes[p].alive /\ nodes[p].kind = Group /\ kids[p][nodes[i].name] = i
\* Both orders list the same, each once.
SameListed == \A g \in Groups : \A a \in {ByName(g)} : \A b \in {ByCreation(g)} :
                Len(a) = Len(b) /\ \A u \in {{a[j] : j \in 1..Len(a)}} : u = {b[j] : j \in 1..Len(b)} /\ Cardinality(u) = Len(a)
\* What is not deleted stays as it is.
Stays == [][\A i \in Ids : nodes'[i].alive => nodes'[i].name = nodes[i].name /\ nodes'[i].kind = nodes[i].kind /\ nodes[i].alive]_vars
=============================================================================
