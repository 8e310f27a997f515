------------------------------- MODULE Handles -------------------------------
(* Who has which file open.  A source is a file given by name or by the caller *)
(* (as an open file); the handles obtained from it are its root and subgroups. *)
(* The file is closed once, when its last handle is.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kind,      \* "hdf5" or "cdf"
          Sim,       \* random choices, or all of them
          MaxOps, MaxSources,
          Errors,    \* are there also calls that fail
          Getters    \* and getters of variables

VARIABLES src,   \* [by, what, state, closes]
          hnd,   \* [s, g, open]
          gtr,   \* [h]
          hist
vars == <<src, hnd, gtr, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* The groups of the file, each by its path; every one has a variable v that tells which it is
Tree == IF Kind = "hdf5" THEN << <<>>, <<"a">>, <<"a", "b">>, <<"c">>, <<"a", "b", "a">> >> ELSE << <<>> >>
GroupAt(p) == LET I == {i \in 1..Len(Tree) : Tree[i] = p} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Slashed(p) == IF p = <<>> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o "/" \o y, p[1], Tail(p))
Rel == IF Kind = "hdf5" THEN {<<>>, <<"a">>, <<"b">>, <<"a", "b">>} \cup (IF Errors THEN {<<"no">>, <<"a", "no">>, <<"v">>} ELSE {}) ELSE {<<>>} \cup (IF Errors THEN {<<"a">>} ELSE {})
Abs == IF Kind = "hdf5" THEN {<<>>, <<"a", "b">>} \cup (IF Errors THEN {<<"c">>, <<"no">>, <<"a", "b", "a">>} ELSE {}) ELSE {<<>>}

Holders(s) == {h \in 1..Len(hnd) : hnd[h].s = s /\ hnd[h].open}
Open == {h \in 1..Len(hnd) : hnd[h].open}
\* What can be seen of the sources: how often the caller's file was closed, or how many descriptors of the named file are open
Acc == [s \in 1..Len(src) |-> [by |-> src[s].by, closes |-> src[s].closes, fds |-> IF src[s].by = "path" /\ src[s].state = "open" THEN 1 ELSE 0]]
Did(r) == hist' = Append(hist, r @@ [acc |-> Acc', use |-> SetToSeq({[h |-> h, g |-> hnd'[h].g] : h \in {x \in 1..Len(hnd') : hnd'[x].open}})])

Good ==
  /\ Len(src) < MaxSources
  /\ \E by \in Pick({"path", "file"}) :
       /\ src' = Append(src, [by |-> by, what |-> "good", state |-> "open", closes |-> 0])
       /\ hnd' = Append(hnd, [s |-> Len(src) + 1, g |-> 1, open |-> TRUE])
       /\ UNCHANGED gtr
       /\ Did([op |-> "open", by |-> by, s |-> Len(src) + 1, as |-> Len(hnd) + 1, ok |-> TRUE])

\* What cannot be opened; "fault" is a good file that fails to be read for a while
Bad ==
  /\ Errors /\ Len(src) < MaxSources
  /\ \E by \in Pick({"path", "file"}) : \E what \in Pick({"empty", "unknown", "stub", "damaged"} \cup (IF by = "path" THEN {"missing", "directory"} ELSE {"fault"})), at \in (IF Sim THEN Pick(1..3) ELSE {1, 3}) :
       /\ src' = Append(src, [by |-> by, what |-> what, state |-> "failed", closes |-> 0])
       /\ UNCHANGED <<hnd, gtr>>
       /\ Did([op |-> "open", by |-> by, what |-> what, at |-> at, s |-> Len(src) + 1, as |-> 0, ok |-> FALSE])

\* After New failed the file is still the caller's, who may try again, or close it
Again ==
  /\ Errors
  /\ \E s \in Pick({0} \cup {i \in 1..Len(src) : src[i].by = "file" /\ src[i].what = "fault" /\ src[i].state = "failed"}) :
       /\ s # 0
       /\ src' = [src EXCEPT ![s].state = "open"]
       /\ hnd' = Append(hnd, [s |-> s, g |-> 1, open |-> TRUE])
       /\ UNCHANGED gtr
       /\ Did([op |-> "again", s |-> s, as |-> Len(hnd) + 1, ok |-> TRUE])

Get ==
  /\ Open # {} /\ UNCHANGED <<src, gtr>>
  /\ \E h \in Pick(Open), abs \in Pick({TRUE, FALSE}) : \E p \in Pick(IF abs THEN Abs ELSE Rel) :
       LET g == GroupAt(IF abs THEN p ELSE Tree[hnd[h].g] \o p)
       IN /\ g # 0 \/ Errors
          /\ hnd' = IF g = 0 THEN hnd ELSE Append(hnd, [s |-> hnd[h].s, g |-> g, open |-> TRUE])
          /\ Did([op |-> "getgroup", h |-> h, name |-> (IF abs THEN "/" ELSE "") \o Slashed(p), as |-> IF g = 0 THEN 0 ELSE Len(hnd) + 1, ok |-> g # 0])

Close ==
  /\ Open # {} /\ UNCHANGED gtr
  /\ \E h \in Pick(Open) :
       LET s == hnd[h].s last == Holders(s) = {h}
       IN /\ hnd' = [hnd EXCEPT ![h].open = FALSE]
          /\ src' = IF last THEN [src EXCEPT ![s].state = "closed", ![s].closes = @ + 1] ELSE src
          /\ Did([op |-> "close", h |-> h, ok |-> TRUE])

\* Using or closing a handle when its file is closed does nothing
Late ==
  /\ Errors /\ UNCHANGED <<src, hnd, gtr>>
  /\ \E h \in Pick({0} \cup {i \in 1..Len(hnd) : src[hnd[i].s].state = "closed"}), what \in Pick({"close", "getvar", "getgroup", "getter"}) :
       h # 0 /\ Did([op |-> "late", what |-> what, h |-> h, ok |-> FALSE])

GetGetter ==
  /\ Getters /\ Open # {} /\ UNCHANGED <<src, hnd>>
  /\ \E h \in Pick(Open) : gtr' = Append(gtr, [h |-> h]) /\ Did([op |-> "getter", h |-> h, as |-> Len(gtr) + 1, ok |-> TRUE])
\* A getter can be used as long as its handle is open; afterwards it is only harmless
UseGetter ==
  /\ Getters /\ gtr # <<>> /\ UNCHANGED <<src, hnd, gtr>>
  /\ \E i \in Pick(1..Len(gtr)) :
       Did([op |-> "gvalues", vg |-> i, g |-> hnd[gtr[i].h].g, ok |-> hnd[gtr[i].h].open])

Emit ==
  /\ Len(hist) = MaxOps
  /\ hist' = Append(hist, [op |-> "end"])
  /\ PrintT(<<"TRACE", ToJson([kind |-> Kind, hist |-> hist, src |-> src, hnd |-> hnd])>>)
  /\ UNCHANGED <<src, hnd, gtr>>

Step == \/ Good \/ Get \/ Close \/ Bad \/ Again \/ Late \/ GetGetter \/ UseGetter
SimStep == \E w \in {RandomElement(1..20)} :
             CASE w <= 3 -> Good [] w <= 9 -> Get [] w <= 14 -> Close [] w = 15 -> Bad [] w = 16 -> Again [] w = 17 -> Late
               [] w = 18 -> GetGetter [] OTHER -> UseGetter
Init == src = <<>> /\ hnd = <<>> /\ gtr = <<>> /\ hist = <<>>
Next == IF Len(hist) < MaxOps THEN (IF Sim THEN SimStep \/ UNCHANGED vars ELSE Step) ELSE Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A source is closed once, exactly if it has no handle left; a failed one never
ClosedOnce == \A s \in 1..Len(src) :
                /\ src[s].closes = IF src[s].state = "closed" THEN 1 ELSE 0
                /\ (src[s].state = "open") <=> (Holders(s) # {})
                /\ (src[s].state = "failed") => ~\E h \in 1..Len(hnd) : hnd[h].s = s
\* What is closed stays closed, and the handles of one source do not affect another
Final == [][ /\ \A h \in 1..Len(hnd) : ~hnd[h].open => ~hnd'[h].open
             /\ \A s \in 1..Len(src) : src[s].state = "closed" => src'[s] = src[s]
             /\ Cardinality({s \in 1..Len(src) : src'[s] # src[s]}) <= 1 ]_vars
=============================================================================
