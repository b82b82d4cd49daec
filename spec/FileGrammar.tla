---------------------------- MODULE FileGrammar ----------------------------
(***************************************************************************)
(* The grid file format as a recognizer over abstract lines, and what a    *)
(* file means.  Lines are records [k, n, ids]:                             *)
(*   comment | title | vars (n variables) | zone | nodes (n) | elems (n)   *)
(*   pack | ztype | varloc (n) | row (n real numbers)                      *)
(*   conn (ids) | junk | bad... (a line of that kind that is not well      *)
(*   formed)                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

L(k, n) == [k |-> k, n |-> n, ids |-> <<>>]
Conn(ids) == [k |-> "conn", n |-> Len(ids), ids |-> ids]

Numeric(x, n) == x.k \in {"row", "conn"} /\ x.n = n
KindAt(ls, i, k) == i <= Len(ls) /\ ls[i].k = k
RowAt(ls, i, n) == IF i <= Len(ls) THEN Numeric(ls[i], n) ELSE n = 0    \* a missing line is an empty row
ConnAt(ls, i, nn) == /\ KindAt(ls, i, "conn") /\ Len(ls[i].ids) = 3
                     /\ \A k \in 1..3 : ls[i].ids[k] \in 1..nn

\* Size of the zone block that starts at line i (its ZONE line), 0 : not a zone block.
ZoneBlock(ls, i, nv) ==
    IF ~ (KindAt(ls, i+1, "nodes") /\ KindAt(ls, i+2, "elems") /\ KindAt(ls, i+3, "pack") /\ KindAt(ls, i+4, "ztype")
          /\ KindAt(ls, i+5, "varloc") /\ ls[i+5].n = nv) THEN 0
    ELSE LET nn == ls[i+1].n  ne == ls[i+2].n  c == i + 5  d == c + 3  t == d + (nv - 3) IN
         IF /\ \A k \in 1..3 : RowAt(ls, c + k, nn)
            /\ \A k \in 1..(nv - 3) : RowAt(ls, d + k, ne)
            /\ \A k \in 1..ne : ConnAt(ls, t + k, nn)
         THEN 6 + 3 + (nv - 3) + ne ELSE 0
ZoneConn(ls, i, nv) == {ls[k].ids : k \in (i + 9 + nv - 3)..(i + 8 + nv - 3 + ls[i+2].n)}
ZoneConnSeq(ls, i, nv) == [k \in 1..ls[i+2].n |-> ls[i + 8 + nv - 3 + k].ids]

\* In these files the zones share no points: an edge belongs to one zone.
EdgesOnce(cs) ==
    LET sides(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[1], t[3]}}
        all == UNION {sides(cs[k]) : k \in DOMAIN cs} IN
    \A e \in all : Cardinality({k \in DOMAIN cs : e \in sides(cs[k])}) <= 2

RECURSIVE Scan(_, _, _)
Scan(ls, i, nv) ==
    IF i > Len(ls) THEN TRUE
    ELSE CASE ls[i].k \in {"comment", "title"} -> Scan(ls, i + 1, nv)
           [] ls[i].k = "vars" -> Scan(ls, i + 1, ls[i].n)
           [] ls[i].k = "zone" -> LET b == ZoneBlock(ls, i, nv) IN
                                  b > 0 /\ EdgesOnce(ZoneConnSeq(ls, i, nv)) /\ Scan(ls, i + b, nv)
           [] OTHER -> FALSE
Accepts(ls) == Scan(ls, 1, 0)
=============================================================================
