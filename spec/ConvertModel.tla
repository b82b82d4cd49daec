---------------------------- MODULE ConvertModel ----------------------------
(***************************************************************************)
(* The conversions as transition systems, checked by TLC against the       *)
(* definitions of Convert, and a generator of inputs.                      *)
(* kind "quad"  : all quads over four nodes (at least three distinct);     *)
(* kind "block" : all structured blocks up to the size Max;                *)
(* kind "ansys" : the stages of the ANSYS conversion (zones are chosen,    *)
(*   variables are chosen, files are joined, values computed, faces made)  *)
(*   over small files; the two choices commute for each file, the outcome  *)
(*   is the grid defined in Convert for every order of the stages.         *)
(***************************************************************************)
EXTENDS Convert, Json
CONSTANTS Kind, Max, Emit
VARIABLES inp, st
vars == <<inp, st>>

--------------------------------- (* inputs *) -------------------------------
Quads == {q \in [1..4 -> 1..4] : Cardinality({q[i] : i \in 1..4}) >= 3}
\* small files: two zones of one quad, other columns among the needed ones
Columns(f) == CASE f = "fensap" -> <<"X", "Y", "Z", "ts", "tau", "flux">>
                [] f = "drop3d" -> <<"X", "Y", "Z", "beta">>
                [] f = "adiabatic" -> <<"X", "Y", "Z", "a">>
Files == {"fensap", "drop3d", "adiabatic"}
Insert(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
ZoneNames == <<"a", "b">>
\* the value of the node n of the zone z in the column c
Val(z, n, c) == CASE c = "ts" -> 10 * z + n
                  [] c = "a" -> 10 * z + n - 2
                  [] c = "flux" -> 4 * (n - z)
                  [] c = "other" -> 99
                  [] OTHER -> 7 * z + n
AnsysInputs ==
    {[zones |-> zn, reversed |-> rv, extra |-> ex] :
        zn \in SUBSET {"a", "b", "c"}, rv \in BOOLEAN,
        ex \in {e \in [Files -> 0..6] : \A f \in Files : e[f] <= Len(Columns(f))}}
Opt(x) == [zones |-> SelectSeq(<<"a", "b", "c">>, LAMBDA n : n \in x.zones), reversed |-> x.reversed, tair |-> 1, cp |-> 2, v |-> 2]
Cols(x, f) == IF x.extra[f] = 0 THEN Columns(f) ELSE Insert(Columns(f), x.extra[f], "other")
Ans(z, n) == [x |-> <<Val(z, n, "X"), Val(z, n, "Y"), Val(z, n, "Z")>>, flux |-> Val(z, n, "flux"), ts |-> Val(z, n, "ts"),
              tau |-> <<Val(z, n, "tau"), Val(z, n, "tau"), Val(z, n, "tau")>>, beta |-> Val(z, n, "beta"), a |-> Val(z, n, "a")]
Direct(x) == AnsysGrid([z \in 1..2 |-> [name |-> ZoneNames[z], nodes |-> [n \in 1..4 |-> Ans(z, n)], quads |-> << <<1, 2, 3, 4>> >>]], Opt(x))
\* a file: columns and zones, a zone: name and rows of nodes
File(x, f) == [cols |-> Cols(x, f), zones |-> [z \in 1..2 |-> [name |-> ZoneNames[z], rows |-> [n \in 1..4 |-> [c \in DOMAIN Cols(x, f) |-> Val(z, n, Cols(x, f)[c])]]]]]

Init == /\ inp \in CASE Kind = "quad" -> Quads
                     [] Kind = "block" -> (2..Max) \X (2..Max)
                     [] Kind = "ansys" -> AnsysInputs
        /\ st = IF Kind = "ansys"
                THEN [files |-> [f \in Files |-> File(inp, f)], done |-> [f \in Files |-> {}], out |-> <<>>, stage |-> "filter"]
                ELSE [stage |-> "end"]
Pick(s, cols, need) == [k \in DOMAIN need |-> s[CHOOSE i \in DOMAIN cols : cols[i] = need[k]]]
ChooseZones(f) ==
    /\ st.stage = "filter" /\ "zones" \notin st.done[f]
    /\ st' = [st EXCEPT !.files[f].zones = SelectSeq(@, LAMBDA z : z.name \in inp.zones), !.done[f] = @ \cup {"zones"}]
ChooseColumns(f) ==
    /\ st.stage = "filter" /\ "cols" \notin st.done[f]
    /\ st' = [st EXCEPT !.files[f] = [cols |-> Columns(f),
                                      zones |-> [z \in DOMAIN @.zones |-> [@.zones[z] EXCEPT !.rows =
                                          [n \in DOMAIN @ |-> Pick(@[n], st.files[f].cols, Columns(f))]]]],
                        !.done[f] = @ \cup {"cols"}]
Join ==
    /\ st.stage = "filter" /\ \A f \in Files : st.done[f] = {"zones", "cols"}
    /\ LET F == st.files["fensap"].zones  D == st.files["drop3d"].zones  A == st.files["adiabatic"].zones IN
       st' = [st EXCEPT !.stage = "joined",
              !.out = [z \in DOMAIN F |-> [name |-> F[z].name, quads |-> << <<1, 2, 3, 4>> >>,
                  nodes |-> [n \in DOMAIN F[z].rows |->
                      LET r == F[z].rows[n] IN
                      [x |-> SubSeq(r, 1, 3), ts |-> r[4], tau |-> <<r[5], r[5], r[5]>>, flux |-> r[6], beta |-> D[z].rows[n][4], a |-> A[z].rows[n][4]]]]]]
MakeFaces ==
    /\ st.stage = "joined"
    /\ st' = [st EXCEPT !.stage = "end", !.out = [z \in DOMAIN @ |-> AnsysZone(@[z], Opt(inp))]]
Next == /\ Kind = "ansys" /\ UNCHANGED inp
        /\ \/ \E f \in Files : ChooseZones(f) \/ ChooseColumns(f)
           \/ Join \/ MakeFaces
Spec == Init /\ [][Next]_vars

------------------------------- (* invariants *) -----------------------------
Side(t, k) == <<t[k], t[1 + (k % Len(t))]>>
Sides(t) == {Side(t, k) : k \in DOMAIN t}
Back(s) == <<s[2], s[1]>>
Border(ts) == LET all == UNION {Sides(ts[i]) : i \in DOMAIN ts} IN {s \in all : Back(s) \notin all}
QuadGood == Kind = "quad" =>
    LET ts == QuadTris(inp, FALSE)  rs == QuadTris(inp, TRUE) IN
    /\ \A i \in DOMAIN ts : Cardinality(Rng(ts[i])) = 3
    /\ UNION {Rng(ts[i]) : i \in DOMAIN ts} = {inp[i] : i \in 1..4}
    /\ Len(ts) = Len(rs) /\ Len(ts) = Cardinality({inp[i] : i \in 1..4}) - 2
    \* the triangles have the border of the quad, turned when reversed (opposite corners may coincide)
    /\ inp[1] # inp[3] /\ inp[2] # inp[4] => Border(ts) = {s \in Sides(inp) : s[1] # s[2]} /\ Border(rs) = {Back(s) : s \in Border(ts)}
BlockGood == Kind = "block" =>
    LET n == inp[1]  m == inp[2]  ts == BlockTris(n, m)
        at(p) == <<(p - 1) % n, (p - 1) \div n>>
        all == [k \in DOMAIN ts |-> Sides(ts[k])] IN
    /\ Len(ts) = 2 * (n - 1) * (m - 1)
    \* every side belongs to one triangle in its direction; inner sides are met twice
    /\ \A i, j \in DOMAIN ts : i # j => all[i] \cap all[j] = {}
    /\ Cardinality(Border(ts)) = 2 * (n - 1) + 2 * (m - 1)
    \* both triangles of a cell lie in this cell, cells follow with i faster
    /\ \A k \in DOMAIN ts : LET c == (k + 1) \div 2  o == Cell(n, c) IN
        /\ \A q \in 1..3 : at(ts[k][q]) \in {<<o[1] + a, o[2] + b>> : a \in 0..1, b \in 0..1}
        /\ o[1] + o[2] * (n - 1) = c - 1
AnsysGood == Kind = "ansys" /\ st.stage = "end" => st.out = Direct(inp)
Emitted == Emit /\ st.stage = "end" => PrintT(ToJson([kind |-> Kind, inp |-> inp]))
=============================================================================
