--------------------------------- MODULE Copy ---------------------------------
(* What a program reads from a dataset (NcFile) it writes to a new file: all    *)
(* groups, variables and attributes, or some, in any order.  The new file holds *)
(* the same types, values and dimensions, as far as the two differ in nothing   *)
(* that the API cannot carry: all dimensions are the root group's, and types    *)
(* have no names.  A call is refused only if dimensions or names clash, or if   *)
(* the values have no element that would tell their type.                       *)
EXTENDS NcFile

CONSTANT MaxCalls

VARIABLES calls,    \* what was asked of the writer
          made,     \* the groups of the new file
          outdims   \* its dimensions: [n, size]
cvars == <<vars, calls, made, outdims>>

\* ------------------------------------------------------------ types without names
RECURSIVE Text(_, _)
Commas(d) == Joined([k \in 1..Len(d) |-> ToString(d[k])], ",")
\* An array member whose elements are no enumeration reads like a variable-length one, and is written as one (lost: it is told so);
\* the last dimension of an array of characters is that of a text
Stars(d, s) == FoldLeft(LAMBDA x, y : x \o s, "", d)
Kept(f) == f.t.u # 0 /\ typ[f.t.u].k = "enum"
TextDims(f) == IF f.t.b = "char" THEN Front(f.d) ELSE f.d
Member(f, lost) ==
  IF f.d = <<>> THEN Text(f.t, lost)
  ELSE IF lost /\ ~Kept(f) THEN Text(f.t, lost) \o Stars(TextDims(f), "(*)")
  ELSE Text(f.t, lost) \o "(" \o Commas(f.d) \o ")"
Text(r, lost) ==
  IF r.u = 0 THEN Cdl[r.b]
  ELSE LET t == typ[r.u]
       IN CASE t.k = "enum" -> CdlOf(r.u)
            [] t.k = "opaque" -> CdlOf(r.u)
            [] t.k = "vlen" -> Text(t.of, lost) \o "(*)"
            [] OTHER -> "compound {\n" \o Joined([j \in 1..Len(t.fields) |-> "\t" \o Member(t.fields[j], lost) \o " " \o t.fields[j].n \o ";\n"], "") \o "}"

\* The values of user-defined types: an element is made from a token and a position.  What is made of it are its parts' tokens.
Mix(u, e) == (e[1] * 31 + e[2] * 17 + u * 101 + 7) % 9973
Rows(r, E) == UNION {{<<Mix(r.u, e), i>> : i \in 0..((Mix(r.u, e) % 4) - 1)} : e \in E}
FieldOf(r, j, E) == LET n == Prod(typ[r.u].fields[j].d) IN UNION {{<<Mix(r.u, e) + j - 1, i>> : i \in 0..(n - 1)} : e \in E}
\* Do elements (a set of them) tell their type
RECURSIVE Tells(_, _)
Tells(r, E) ==
  IF r.u = 0 THEN TRUE
  ELSE LET t == typ[r.u]
       IN CASE t.k = "vlen" -> IF t.of.u = 0 THEN TRUE ELSE Tells(t.of, Rows(r, E))
            [] t.k = "compound" -> E # {} /\ \A j \in 1..Len(t.fields) : Tells(t.fields[j].t, FieldOf(r, j, E))
            [] OTHER -> E # {}
\* A variable or attribute of an enumeration is one value that knows the names
TellsAll(r, tok, n) == (r.u # 0 /\ typ[r.u].k = "enum") \/ Tells(r, {<<tok, k>> : k \in 0..(n - 1)})

\* ------------------------------------------------------------ the writer
SizeOf(n) == LET I == {i \in 1..Len(outdims) : outdims[i].n = n} IN IF I = {} THEN -1 ELSE outdims[CHOOSE i \in I : TRUE].size
Added == {calls[i].v : i \in {j \in 1..Len(calls) : calls[j].op = "var" /\ calls[j].ok}}
IsOwn(n, ds) == ds = <<n>>
RootVars(n) == {v \in Added : var[v].g = 1 /\ var[v].n = n}
\* Below an empty slice there is nothing to see
Seen(v) == LET s == Shape(v) IN [k \in 1..Len(s) |-> IF \E j \in 1..k : s[j] = 0 THEN 0 ELSE s[k]]
DimNamesIn(v) == [k \in 1..Len(var[v].dims) |-> dim[var[v].dims[k]].n]
\* Only dimensions may have a name that begins with an underscore
May(n) == n # "_a"
VarFits(v) ==
  LET ds == DimNamesIn(v)
      sh == Seen(v)
  IN /\ May(var[v].n)
     /\ \A k \in 1..Len(ds) : SizeOf(ds[k]) \in {-1, sh[k]} /\ \A l \in 1..Len(ds) : ds[l] = ds[k] => sh[l] = sh[k]
     /\ \A k \in 1..Len(ds) : /\ \A g \in ToSet(GroupsOf(1)) : g \in made => grp[g].n # ds[k]
                              /\ \A w \in RootVars(ds[k]) : IsOwn(ds[k], DimNamesIn(w))
     /\ var[v].g = 1 => IsOwn(var[v].n, ds) \/ (SizeOf(var[v].n) = -1 /\ var[v].n \notin ToSet(ds))
GroupFits(g) == May(grp[g].n) /\ (grp[g].up = 1 => SizeOf(grp[g].n) = -1)

Call(c) == calls' = Append(calls, c)
MakeGroup ==
  LET G == {g \in 2..Len(grp) : g \notin made /\ grp[g].up \in made}
  IN G # {} /\ \E g \in R(G) :
       /\ Call([op |-> "group", g |-> g, ok |-> GroupFits(g)])
       /\ made' = IF GroupFits(g) THEN made \cup {g} ELSE made
       /\ UNCHANGED outdims
AttsTell(g, v) == \A a \in ToSet(AttsOf(g, v)) : May(att[a].n) /\ TellsAll(att[a].t, att[a].tok, att[a].len)
CopyVar ==
  LET V == {v \in 1..Len(var) : var[v].g \in made /\ var[v].t.b # "char" /\ ~\E i \in 1..Len(calls) : calls[i].op = "var" /\ calls[i].v = v}
  IN V # {} /\ \E v \in R(V), atts \in R({TRUE, TRUE, FALSE}) :
       LET ok == VarFits(v) /\ TellsAll(var[v].t, var[v].tok, Prod(Shape(v))) /\ (atts => AttsTell(var[v].g, v))
       IN /\ Call([op |-> "var", v |-> v, g |-> var[v].g, atts |-> atts, ok |-> ok])
          /\ outdims' = IF ~ok THEN outdims
                        ELSE FoldSeq(LAMBDA d, t : IF \E i \in 1..Len(t) : t[i].n = d.n THEN t ELSE Append(t, d), outdims,
                                     [k \in 1..Len(var[v].dims) |-> [n |-> DimNamesIn(v)[k], size |-> Seen(v)[k]]])
          /\ UNCHANGED made
CopyAtts == \E g \in R(made) : Call([op |-> "atts", g |-> g, ok |-> AttsTell(g, 0)]) /\ UNCHANGED <<made, outdims>>

\* ------------------------------------------------------------ the new file
GoodCalls == SelectSeq(calls, LAMBDA c : c.ok)
HasAtts(g) == \E i \in 1..Len(calls) : calls[i].op = "atts" /\ calls[i].g = g /\ calls[i].ok
AttText(a) == [i |-> a, n |-> att[a].n, ord |-> IF att[a].v = 0 THEN att[a].g = 1 ELSE var[att[a].v].s = 0, text |-> Text(att[a].t, FALSE), lost |-> Text(att[a].t, TRUE)]
Atts(g, v) == LET I == AttsOf(g, v) IN [i \in 1..Len(I) |-> AttText(I[i])]
NewVars(g) == LET V == SelectSeq(GoodCalls, LAMBDA c : c.op = "var" /\ c.g = g)
              IN [i \in 1..Len(V) |->
                    LET v == V[i].v
                    IN [i |-> v, n |-> var[v].n, shape |-> Seen(v), dims |-> DimNamesIn(v), text |-> Text(var[v].t, FALSE), lost |-> Text(var[v].t, TRUE),
                        atts |-> IF V[i].atts THEN Atts(g, v) ELSE <<>>]]
RECURSIVE NewTree(_)
NewTree(g) == LET I == SelectSeq(GroupsOf(g), LAMBDA i : i \in made)
              IN [n |-> grp[g].n, vars |-> NewVars(g), atts |-> IF HasAtts(g) THEN Atts(g, 0) ELSE <<>>,
                  dims |-> IF g = 1 THEN outdims ELSE <<>>, groups |-> [i \in 1..Len(I) |-> NewTree(I[i])]]

Copying ==
  /\ phase = "read" /\ UNCHANGED <<state, hnd, gtr, reads>>
  /\ IF Len(calls) < MaxCalls
     THEN /\ UNCHANGED phase
          /\ \/ \E w \in R(1..10) : CASE w <= 3 -> MakeGroup [] w <= 8 -> CopyVar [] OTHER -> CopyAtts
             \/ Call([op |-> "none", ok |-> TRUE]) /\ UNCHANGED <<made, outdims>>
     ELSE /\ phase' = "done" /\ UNCHANGED <<calls, made, outdims>>
          /\ PrintT(<<"TRACE", ToJson(Result @@ [calls |-> calls, copy |-> NewTree(1)])>>)

CInit == Init /\ calls = <<>> /\ made = {1} /\ outdims = <<>>
CNext == (Build /\ UNCHANGED <<calls, made, outdims>>) \/ Copying
CSpec == CInit /\ [][CNext]_cvars

\* The dimensions of the new file have one size each, and its names are its own
OneSize == \A i, j \in 1..Len(outdims) : outdims[i].n = outdims[j].n => i = j
FitsStill == \A v \in Added : \A k \in 1..Len(var[v].dims) : SizeOf(DimNamesIn(v)[k]) = Seen(v)[k]
NamesApart == \A g \in made \ {1} : /\ grp[g].up \in made
                                    /\ grp[g].up = 1 => SizeOf(grp[g].n) = -1
\* What is refused leaves no trace
NoTrace == [][Len(calls') > Len(calls) /\ ~Last(calls').ok => UNCHANGED <<made, outdims>>]_cvars
===============================================================================
