-------------------------------- MODULE Faults --------------------------------
(* Reading a dataset (NcFile) from files of the caller that fail now and then.  *)
(* A request may be attempted while the file fails: such an attempt ends with   *)
(* an error or with the right answer, and has no other effect, so that the same *)
(* request afterwards has its answer.  How many bytes a read returns does not   *)
(* matter at all.  A file is closed when the last handle obtained from it is.   *)
EXTENDS NcFile

CONSTANTS Modes,    \* how the file fails
          Shorts,   \* how its reads are cut short
          Rate      \* of ten requests, how many are attempted under failure first

VARIABLES src,   \* the opened files: [short]
          hs,    \* of which file a handle is
          att0   \* per request: what happened before it, and which files are closed after it
fvars == <<vars, src, hs, att0>>

NoFault == [mode |-> "none", at |-> 0, fresh |-> FALSE]
\* at: which of the operations on the file fails, in thousandths of all; fresh: on a handle just opened
FaultPick(w) == IF w > Rate THEN {NoFault} ELSE {[mode |-> RandomElement(Modes), at |-> RandomElement(0..999), fresh |-> RandomElement({TRUE, FALSE})]}

HoldersOf(s) == {h \in 1..Len(hnd) : h <= Len(hs) /\ hs[h] = s /\ hnd[h].open}
Closes == [s \in 1..Len(src) |-> IF HoldersOf(s) = {} THEN 1 ELSE 0]

Request ==
  /\ phase = "read" /\ Len(reads) < MaxReads /\ UNCHANGED <<state, phase>>
  /\ OneRequest
  /\ IF reads' = reads THEN UNCHANGED <<src, hs, att0>>
     ELSE LET r == Last(reads')
              open == r.op = "open"
          IN /\ \E x \in R(Shorts) : src' = IF open THEN Append(src, [short |-> x]) ELSE src
             /\ hs' = IF Len(hnd') = Len(hnd) THEN hs ELSE Append(hs, IF open THEN Len(src) + 1 ELSE hs[r.h])
             /\ \E w \in R(1..10) : \E f \in FaultPick(w) : att0' = Append(att0, [fault |-> f, closes |-> Closes'])

FEmit == /\ phase = "read" /\ Len(reads) >= MaxReads /\ phase' = "done" /\ UNCHANGED <<state, hnd, gtr, reads, src, hs, att0>>
         /\ PrintT(<<"TRACE", ToJson(Result @@ [src |-> src, hs |-> hs, before |-> att0])>>)

FInit == Init /\ src = <<>> /\ hs = <<>> /\ att0 = <<>>
FNext == (Build /\ UNCHANGED <<src, hs, att0>>) \/ Request \/ FEmit
FSpec == FInit /\ [][FNext]_fvars

\* Every request has its history, every handle its file; handles of a closed file are closed
Paired == Len(att0) = Len(reads) /\ Len(hs) = Len(hnd) /\ \A h \in 1..Len(hs) : hs[h] \in 1..Len(src)
ClosedOnce == [][\A s \in 1..Len(src) : HoldersOf(s) = {} => HoldersOf(s)' = {}]_fvars
===============================================================================
