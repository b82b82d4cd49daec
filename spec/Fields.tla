------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Values of variables on the faces of a grid as working fields: what is   *)
(* set, cleared, loaded from results, written and read again.              *)
(* A state is [faces, zones]: faces[i] = [t, g, v]: the triangle, the      *)
(* global number and the list of <<name, value, floor of 8 values>> (names *)
(* differ); zones[i] = list of faces (positions in the list of faces).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FRng(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

Zero == <<"0x0.0p+0", 0>>
Stalls == {"Stall", "StallD", "StallVX", "StallVY", "StallVZ"}
Three == <<"T", "Hw", "Hi">>

Has(v, n) == \E i \in DOMAIN v : v[i][1] = n
\* The value of a variable that a face does not have is zero.
Val(v, n) == IF Has(v, n) THEN LET x == v[CHOOSE i \in DOMAIN v : v[i][1] = n] IN <<x[2], x[3]>> ELSE Zero
Put(v, n, x) == IF Has(v, n) THEN [i \in DOMAIN v |-> IF v[i][1] = n THEN <<n, x[1], x[2]>> ELSE v[i]]
                ELSE Append(v, <<n, x[1], x[2]>>)
Cleaned(v) == Put(Put(Put(v, "T", Zero), "Hw", Zero), "Hi", Zero)
NoStall(v) == SelectSeq(v, LAMBDA x : x[1] \notin Stalls)
AllStall(s) == \A i \in DOMAIN s.faces : \A n \in Stalls : Has(s.faces[i].v, n)

Each(s, F(_)) == [s EXCEPT !.faces = [i \in DOMAIN @ |-> [@[i] EXCEPT !.v = F(@)]]]

\* The last line about a face counts; the variables of the file replace those of the face.
FromLines(f, names, lines) ==
    LET mine == {j \in DOMAIN lines : lines[j].g = f.g} IN
    IF mine = {} THEN f
    ELSE LET j == CHOOSE j \in mine : \A k \in mine : k <= j IN
         [f EXCEPT !.v = [c \in DOMAIN names |-> <<names[c], lines[j].x[c][1], lines[j].x[c][2]>>]]

\* All variables of the faces, as they come.
RECURSIVE Firsts(_)
Firsts(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Firsts(SelectSeq(Tail(q), LAMBDA x : x # Head(q)))
Names(s) == Firsts(Cat([i \in DOMAIN s.faces |-> [c \in DOMAIN s.faces[i].v |-> s.faces[i].v[c][1]]]))
\* Written and read again: faces zone by zone, all variables on each face.
Again(s) ==
    LET ns == Names(s)
        order == Cat(s.zones)
        start == [z \in DOMAIN s.zones |-> Len(Cat(SubSeq(s.zones, 1, z - 1)))]
    IN [faces |-> [i \in DOMAIN order |-> LET f == s.faces[order[i]] IN
                    [t |-> f.t, g |-> i - 1, v |-> [c \in DOMAIN ns |-> <<ns[c]>> \o Val(f.v, ns[c])]]],
        zones |-> [z \in DOMAIN s.zones |-> [k \in DOMAIN s.zones[z] |-> start[z] + k]]]

Apply(s, o) ==
    CASE o.op = "set" -> [s EXCEPT !.faces[o.f].v = Put(@, o.n, o.x)]
      [] o.op = "load" -> [s EXCEPT !.faces = [i \in DOMAIN @ |-> FromLines(@[i], o.names, o.lines)]]
      [] o.op = "clean" -> Each(s, Cleaned)
      [] o.op = "checkpoint" -> Each(s, NoStall)
      [] o.op = "again" -> Again(s)
      [] OTHER -> s            \* get, write, decompose

\* Equal up to the order of the variables of a face (any order is as good).
SameFaces(p, q) ==
    /\ Len(p) = Len(q)
    /\ \A i \in DOMAIN p : /\ p[i].t = q[i].t /\ p[i].g = q[i].g
                           /\ Len(p[i].v) = Len(q[i].v) /\ FRng(p[i].v) = FRng(q[i].v)

\* The file of results written: a line for each face, its three values and less than one more.
RightLines(s, lines) ==
    /\ Len(lines) = Len(s.faces)
    /\ \A i \in DOMAIN lines : LET f == s.faces[i] IN
         /\ lines[i].g = f.g
         /\ Len(lines[i].x) = 3
         /\ \A c \in 1..3 : LET a == Val(f.v, Three[c])[2] IN lines[i].x[c][2] >= a /\ lines[i].x[c][2] <= a + 8
=============================================================================
