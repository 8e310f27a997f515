------------------------------- MODULE Names --------------------------------
(* Which names the writers accept.  A name is a sequence of characters, each  *)
(* given by its class; words are whole names with a meaning in HDF5 files.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, Kind, MaxLen, MaxCalls, Contexts, Classes, Words

VARIABLES accepted,   \* context -> names accepted, in order
          hist, done

vars == <<accepted, hist, done>>

AllClasses == {"letter", "uletter", "digit", "unumber", "under", "space", "uspace", "punct", "symbol", "mark",
               "control", "format", "private", "unassigned", "invalid", "slash"}
ASSUME Classes \subseteq AllClasses

\* Names of dimension scale bookkeeping in HDF5 files
Reserved == {"CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST"}

Start == {"letter", "uletter", "digit", "unumber"}
Never == {"control", "format", "private", "unassigned", "invalid", "slash"}
White == {"space", "uspace"}

ValidTail(s) == /\ \A i \in 1..Len(s) : s[i] \notin Never
                /\ s[Len(s)] \notin White
Valid(s) == s # <<>> /\ s[1] \in Start /\ ValidTail(s)
ValidDim(s) == s # <<>> /\ s[1] \in Start \cup {"under"} /\ ValidTail(s)

\* A name is [word, chars]: one of the two is empty.
WordOK(ctx, w) == /\ ctx = "dim" \/ w \notin {"_NCProperties", "_FillValue", "_Netcdf4Dimid", "_nc3_strict"}
                  /\ ~(Kind = "hdf5" /\ ctx \in {"varattr", "attr"} /\ w \in Reserved)

OK(ctx, n) == IF n.word # "" THEN WordOK(ctx, n.word)
              ELSE IF ctx = "dim" THEN ValidDim(n.chars) ELSE Valid(n.chars)

RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>}
                ELSE LET T == SeqsOf(S, n - 1)
                     IN T \cup {Append(t, s) : t \in {u \in T : Len(u) = n - 1}, s \in S}

Names == {[word |-> "", chars |-> s] : s \in SeqsOf(Classes, MaxLen)} \cup {[word |-> w, chars |-> <<>>] : w \in Words}

\* In simulation: a good name of some length with now and then another character in it
RandomName(k) ==
  {IF w = 1 THEN [word |-> RandomElement(Words), chars |-> <<>>]
   ELSE [word |-> "", chars |-> [i \in 1..n |-> IF i = bad THEN b ELSE cs[i]]] :
     w \in {RandomElement(1..10)}, n \in {RandomElement(1..MaxLen)}, b \in {RandomElement(Classes)},
     bad \in {RandomElement(0..MaxLen)},
     cs \in {<<RandomElement(Start)>> \o [i \in 1..MaxLen |-> RandomElement(Classes \ Never)]}}

\* The empty name of a dimension means that it has none.
Try ==
  \E ctx \in (IF Sim THEN {RandomElement(Contexts)} ELSE Contexts), n \in (IF Sim THEN RandomName(Len(hist)) ELSE Names) :
    /\ ~(ctx = "dim" /\ n.word = "" /\ n.chars = <<>>)
    /\ \A i \in 1..Len(hist) : hist[i].name # n
    /\ accepted' = IF OK(ctx, n) THEN [accepted EXCEPT ![ctx] = Append(@, n)] ELSE accepted
    /\ hist' = Append(hist, [ctx |-> ctx, name |-> n, ok |-> OK(ctx, n)])
    /\ UNCHANGED done

Emit ==
  /\ ~done /\ done' = TRUE
  /\ PrintT(<<"TRACE", ToJson([hist |-> hist, accepted |-> accepted])>>)
  /\ UNCHANGED <<accepted, hist>>

Init == accepted = [c \in Contexts |-> <<>>] /\ hist = <<>> /\ done = FALSE
Next == ~done /\ (IF Len(hist) < MaxCalls THEN Try \/ (Sim /\ UNCHANGED vars) ELSE Emit)
Spec == Init /\ [][Next]_vars

\* A name is accepted for a dimension if it is for a variable; the classes matter only where the rule says.
Monotone == \A i \in 1..Len(hist) : hist[i].name.word = "" /\ Valid(hist[i].name.chars) => ValidDim(hist[i].name.chars)
NoLoss == \A c \in Contexts : Cardinality({i \in 1..Len(hist) : hist[i].ctx = c /\ hist[i].ok}) = Len(accepted[c])
=============================================================================
