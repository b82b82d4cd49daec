---------------------------- MODULE FileMutants ----------------------------
(* Well formed files and their mutants, up to MaxMut changes; printed and then loaded by the code. *)
EXTENDS FileGrammar, TLC, Json
CONSTANTS MaxMut, Sim
VARIABLES ls, nmut, muts
vars == <<ls, nmut, muts>>

Zone(nn, tris, nv) == <<L("zone", 0), L("nodes", nn), L("elems", Len(tris)), L("pack", 0), L("ztype", 0), L("varloc", nv),
                        L("row", nn), L("row", nn), L("row", nn)>>
                      \o [k \in 1..(nv-3) |-> L("row", Len(tris))] \o [k \in DOMAIN tris |-> Conn(tris[k])]
Head1(nv) == <<L("comment", 0), L("title", 0), L("vars", nv)>>
Bases == { Head1(5) \o Zone(4, <<<<1, 2, 3>>, <<1, 3, 4>>>>, 5) \o Zone(3, <<<<3, 1, 2>>>>, 5),
           Head1(4) \o Zone(5, <<<<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 5>>, <<1, 5, 2>>>>, 4),
           \* as many nodes as faces; the first zone smaller than the second
           Head1(4) \o Zone(3, <<<<1, 2, 3>>>>, 4) \o Zone(4, <<<<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 2>>, <<2, 4, 3>>>>, 4),
           \* without a title; no variables but the coordinates and one more
           <<L("vars", 4)>> \o Zone(3, <<<<2, 3, 1>>>>, 4) }

Cut(i) == SubSeq(ls, 1, i - 1) \o SubSeq(ls, i + 1, Len(ls))
Ins(i, x) == SubSeq(ls, 1, i) \o <<x>> \o SubSeq(ls, i + 1, Len(ls))
Put(i, x) == [ls EXCEPT ![i] = x]
Alter(i) ==
    LET x == ls[i] IN
    CASE x.k \in {"nodes", "elems", "vars", "varloc"} ->
             {Put(i, [x EXCEPT !.n = x.n + 1])} \cup (IF x.n > 1 THEN {Put(i, [x EXCEPT !.n = x.n - 1])} ELSE {})
             \cup (IF x.k \in {"nodes", "elems"} THEN {Put(i, [x EXCEPT !.n = -x.n]), Put(i, [x EXCEPT !.n = 0]), Put(i, L("bad" \o x.k, x.n))}
                   ELSE IF x.k = "varloc" THEN {Put(i, L("badvarloc", x.n))} ELSE {})
      [] x.k = "row" -> {Put(i, [x EXCEPT !.n = x.n - 1]), Put(i, [x EXCEPT !.n = x.n + 1]), Put(i, [x EXCEPT !.n = 2 * x.n]), Put(i, L("badrow", x.n))}
      [] x.k \in {"pack", "ztype"} -> {Put(i, L("bad" \o x.k, 0))}
      [] x.k = "conn" /\ Len(x.ids) = 3 ->
             {Put(i, Conn(SubSeq(x.ids, 1, 2))), Put(i, Conn(Append(x.ids, 1)))}
             \cup UNION {{Put(i, Conn([x.ids EXCEPT ![k] = 0])), Put(i, Conn([x.ids EXCEPT ![k] = -1])), Put(i, Conn([x.ids EXCEPT ![k] = 9])), Put(i, Conn([x.ids EXCEPT ![k] = 4])),
                        Put(i, Conn([x.ids EXCEPT ![k] = 5])), Put(i, Conn([x.ids EXCEPT ![k] = -3])), Put(i, L("badconn", k))} : k \in 1..3}
             \cup {Put(i, Conn(y)) : y \in {<<1, 2, 3>>, <<3, 1, 2>>, <<1, 3, 4>>} \ {x.ids}}
      [] OTHER -> {}
\* (what a face with a repeated node is, the format does not say)
Said(y) == \A i \in DOMAIN y : (y[i].k = "conn" /\ Len(y[i].ids) = 3) => Cardinality({y[i].ids[k] : k \in DOMAIN y[i].ids}) = Len(y[i].ids)
Init == ls \in Bases /\ nmut = 0 /\ muts = <<>>
Mutant(i) == {Cut(i), Ins(i, ls[i]), Put(i, L("junk", 0)), Put(i, L("row", 0))} \cup Alter(i)
             \cup (IF i < Len(ls) THEN {[ls EXCEPT ![i] = ls[i+1], ![i+1] = ls[i]]} ELSE {})
             \* another line of the neighbourhood in its place
             \cup {Put(i, ls[j]) : j \in (i-3 .. i+3) \cap DOMAIN ls}
             \cup (IF ls[i].k = "nodes" THEN {Put(i, L("elems", ls[i].n))} ELSE IF ls[i].k = "elems" THEN {Put(i, L("nodes", ls[i].n))} ELSE {})
             \cup {Ins(i, L("comment", 0)), SubSeq(ls, 1, i)}
Next == /\ nmut < MaxMut
        /\ \E i \in (IF Sim THEN {RandomElement(DOMAIN ls)} ELSE DOMAIN ls) : \E m \in Mutant(i) : Said(m) /\ m # <<>> /\ ls' = m
        /\ nmut' = nmut + 1 /\ muts' = muts
Spec == Init /\ [][Next]_vars
\* the unchanged files are accepted, and every file is decided
BasesAccepted == nmut = 0 => Accepts(ls)
Decided == Accepts(ls) \in BOOLEAN
Emit == PrintT(ToJson([lines |-> ls, mut |-> nmut]))
=============================================================================
