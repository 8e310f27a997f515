----------------------------- MODULE OrderedMap -----------------------------
(* An attribute map: what its listing, lookups and type descriptions must be  *)
(* after every call.  Store writes the map as the attributes of a variable or *)
(* of the root group of a file and reads it back: the map then is the file's. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Sim, KeyNames, Types, Lens, MaxRank, MaxKeys, MaxSteps, Kinds

VARIABLES src,      \* "none", "user", "cdf" or "hdf5": where the map came from
          keys,     \* every key, in the order supplied
          vals,     \* key -> value
          hidden,   \* keys that are not listed
          hist, done

vars == <<src, keys, vals, hidden, hist, done>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET T == SeqsUpTo(S, n - 1)
                       IN T \cup {Append(t, s) : t \in {u \in T : Len(u) = n - 1}, s \in S}

Shapes == SeqsUpTo(Lens, MaxRank)
KeySeqs == SeqsUpTo(KeyNames, MaxKeys)
HasZero(s) == \E i \in 1..Len(s) : s[i] = 0
Val(ty, gs, tok) == [ty |-> ty, gs |-> gs, rag |-> "no", ml |-> IF ty = "string" /\ ~HasZero(gs) THEN 1 + (tok % 5) ELSE 0, tok |-> tok]

-----------------------------------------------------------------------------
(* Descriptions *)

CdlBase(ty) ==
  CASE ty = "int8" -> "byte" [] ty = "uint8" -> "ubyte" [] ty = "int16" -> "short" [] ty = "uint16" -> "ushort"
    [] ty = "int32" -> "int" [] ty = "uint32" -> "uint" [] ty = "float32" -> "float" [] ty = "float64" -> "double"
    [] OTHER -> ty

\* Below an empty slice there is nothing to see.
Unknown(gs, i) == \E j \in 1..i : gs[j] = 0

RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN f[1] ELSE Join(f, n - 1) \o "," \o f[n]

Cdl(from, v) ==
  LET n == Len(v.gs)
      d == [i \in 1..n |-> IF from = "hdf5" \/ Unknown(v.gs, i) THEN "*" ELSE ToString(v.gs[i])]
  IN IF n = 0 THEN CdlBase(v.ty)
     ELSE IF from = "hdf5" THEN CdlBase(v.ty) \o FoldSeq(LAMBDA x, y : y \o "(*)", "", d)
     ELSE CdlBase(v.ty) \o "(" \o Join(d, n) \o ")"

RECURSIVE Brackets(_)
Brackets(n) == IF n = 0 THEN "" ELSE "[]" \o Brackets(n - 1)
GoT(v) == Brackets(Len(v.gs)) \o v.ty

Visible(ks, hs) == SelectSeq(ks, LAMBDA k : k \notin hs)

Obs(s, ks, vs, hs) ==
  [keys |-> Visible(ks, hs),
   has |-> [i \in 1..Len(ks) |-> ks[i]],
   vals |-> [i \in 1..Len(ks) |-> vs[ks[i]]],
   cdl |-> [i \in 1..Len(ks) |-> Cdl(s, vs[ks[i]])],
   go |-> [i \in 1..Len(ks) |-> GoT(vs[ks[i]])]]

Record(op) == hist' = Append(hist, op @@ [obs |-> Obs(src', keys', vals', hidden')])

-----------------------------------------------------------------------------
Init == src = "none" /\ keys = <<>> /\ vals = <<>> /\ hidden = {} /\ hist = <<>> /\ done = FALSE

Steps == Len(hist)
Tok(i) == Steps * 8 + i

\* A value for each of n entries.
PickVals(n, k) ==
  IF Sim THEN {[i \in 1..n |-> Val(RandomElement(Types), RandomElement(Shapes), k + i)]}
  ELSE {[i \in 1..n |-> Val(t, s, k + i)] : t \in Types, s \in Shapes}

\* The distinct elements of a sequence, in order
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) IN IF Contains(r, s[Len(s)]) THEN r ELSE Append(r, s[Len(s)])

\* Construction from a list of keys and the entries of a Go map, which need not match.
KeyPick(k) == IF Sim THEN {SubSeq(s, 1, RandomElement(0..Len(s))) : s \in {RandomElement(KeySeqs)}} ELSE KeySeqs
EntryPick(ks, k) == IF Sim /\ RandomElement(1..3) < 3 THEN {Dedup(ks)}
                    ELSE {Dedup(e) : e \in KeyPick(k)}
New ==
  /\ src = "none"
  /\ \E ks \in KeyPick(Steps) : \E es \in EntryPick(ks, Steps) : \E vs \in PickVals(Len(es), Tok(0)) :
     LET match == IsInjective(ks) /\ ToSet(ks) = ToSet(es)
         f == [k \in ToSet(es) |-> vs[CHOOSE i \in 1..Len(es) : es[i] = k]]
     IN /\ src' = IF match THEN "user" ELSE "none"
        /\ keys' = IF match THEN ks ELSE <<>>
        /\ vals' = IF match THEN f ELSE <<>>
        /\ hidden' = {}
        /\ Record([op |-> "new", keys |-> ks, entries |-> [i \in 1..Len(es) |-> <<es[i], f[es[i]]>>], ok |-> match])
        /\ UNCHANGED done

Add ==
  /\ src = "user"
  \* a key hidden before it was ever added is nobody's business
  /\ \E k \in Pick(KeyNames \ (hidden \ ToSet(keys))) : \E vs \in PickVals(1, Tok(0)) :
     /\ keys' = IF Contains(keys, k) THEN keys ELSE Append(keys, k)
     /\ vals' = [x \in DOMAIN vals \cup {k} |-> IF x = k THEN vs[1] ELSE vals[x]]
     /\ UNCHANGED <<src, hidden, done>>
     /\ Record([op |-> "add", key |-> k, val |-> vs[1], ok |-> TRUE])

Hide ==
  /\ src = "user"
  /\ \E k \in Pick(KeyNames) :
     /\ hidden' = hidden \cup {k}
     /\ UNCHANGED <<src, keys, vals, done>>
     /\ Record([op |-> "hide", key |-> k, ok |-> TRUE])

\* Through a file: what is listed is stored, and an array of one element comes back as a scalar.
Storable(kind, v) == IF kind = "hdf5" THEN TRUE
                     ELSE IF v.ty = "string" THEN v.gs = <<>> ELSE Len(v.gs) <= 1
Back(v) == IF v.gs = <<1>> THEN [v EXCEPT !.gs = <<>>] ELSE v

Store ==
  /\ src = "user"
  /\ LET ks == Visible(keys, hidden)
     IN \E kind \in Pick(Kinds), onvar \in Pick(BOOLEAN) :
        /\ \A i \in 1..Len(ks) : Storable(kind, vals[ks[i]]) /\ ks[i] \notin {"", "_NCProperties"}
        /\ src' = kind
        /\ keys' = ks
        /\ vals' = [k \in ToSet(ks) |-> Back(vals[k])]
        /\ hidden' = {}
        /\ Record([op |-> "store", kind |-> kind, onvar |-> onvar, ok |-> TRUE])
        /\ UNCHANGED done

Emit ==
  /\ ~done /\ Steps > 0 /\ done' = TRUE
  /\ PrintT(<<"TRACE", ToJson(hist)>>)
  /\ UNCHANGED <<src, keys, vals, hidden, hist>>

SimNext ==
  /\ ~done
  /\ \E r \in {RandomElement(1..20)} :
     IF src = "none" THEN (IF Steps >= 3 THEN Emit ELSE New)
     ELSE IF src # "user" \/ Steps >= MaxSteps THEN Emit
     ELSE IF r <= 10 THEN Add
     ELSE IF r <= 14 THEN Hide
     ELSE IF r <= 16 /\ ENABLED Store THEN Store
     ELSE UNCHANGED vars

\* A behaviour is emitted where it ends: its prefixes are part of it.
AllNext ==
  /\ ~done
  /\ \/ Steps = 0 /\ New
     \/ Steps < MaxSteps /\ (Add \/ Hide \/ Store)
     \/ Steps > 0 /\ (Steps = MaxSteps \/ src # "user") /\ Emit

Next == IF Sim THEN SimNext ELSE AllNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
KeysOnce == IsInjective(keys) /\ ToSet(keys) = DOMAIN vals
ListedOnce == LET v == Visible(keys, hidden) IN IsInjective(v) /\ ToSet(v) = ToSet(keys) \ hidden
\* Hiding loses nothing, and adding never reorders.
GetSurvives == [][src = "user" /\ src' = "user" => DOMAIN vals \subseteq DOMAIN vals']_vars
OrderKept == [][src = "user" /\ src' = "user" => IsPrefix(keys, keys')]_vars
=============================================================================
