-------------------------------- MODULE Fly --------------------------------
(***************************************************************************)
(* Flight of a droplet through an air grid past a surface.                 *)
(*                                                                         *)
(* A flight f has tris (the surface), air (points of the air grid), start, *)
(* v (displacement in one step, constant for a droplet that feels no       *)
(* drag), max (largest number of points of a trajectory).                  *)
(* The state of a flight is the last point p and the number n of points.   *)
(***************************************************************************)
EXTENDS Geom3

Space(f) == BoxOf({f.air[i] : i \in DOMAIN f.air})
InSpace(f, p) == InBox(Space(f), p)

\* What happens next at the point number n.
Decide(f, p, n) ==
    IF n > f.max THEN "N"
    ELSE IF ~ InSpace(f, p) THEN "O"
    ELSE IF f.v = Zero3 THEN "S"
    ELSE "go"

\* Triangles that the hop from p to q must / may hit.
Class(f, k, p, q) == Must(f.tris[k], <<p, q>>)
MustHit(f, p, q) == \E k \in DOMAIN f.tris : Class(f, k, p, q) = "yes"
MayHit(f, p, q) == {k \in DOMAIN f.tris : Class(f, k, p, q) # "no"}

\* The point number n (from 1).
At(f, n) == Add3(f.start, Mul3(n - 1, f.v))

(***************************************************************************)
(* A complete flight: n points, outcome o, face hit (0 - none).            *)
(***************************************************************************)
GoesTo(f, n) == \A k \in 1..(n - 1) : Decide(f, At(f, k), k) = "go"
NoHitBefore(f, n) == \A k \in 1..(n - 1) : ~ MustHit(f, At(f, k), At(f, k + 1))
FlightOk(f, n, o, face) ==
    /\ n >= 1
    /\ GoesTo(f, n)
    /\ IF o = "C" THEN /\ n > 1
                       /\ NoHitBefore(f, n - 1)
                       /\ face \in MayHit(f, At(f, n - 1), At(f, n))
       ELSE /\ NoHitBefore(f, n)
            /\ o = Decide(f, At(f, n), n)
            /\ face = 0

(***************************************************************************)
(* The drag.  In one step a droplet moves by its velocity, and a part Lam  *)
(* of its velocity relative to the air at the nearest point of the air     *)
(* grid is lost.  Lam = Cd(Re) * |relative displacement| * lu, where lu    *)
(* depends on densities and the diameter only, and Re is proportional to   *)
(* the relative speed.                                                     *)
(* Table of the law: <<10 Re, 1000 Cd>>.                                   *)
(***************************************************************************)
CdLow == <<
    <<5, 54339>>, <<6, 45610>>, <<7, 39345>>, <<8, 34626>>, <<9, 30942>>, <<10, 27984>>, <<11,
    25556>>, <<12, 23526>>, <<13, 21803>>, <<14, 20323>>, <<15, 19036>>, <<16, 17908>>, <<17,
    16910>>, <<18, 16020>>, <<19, 15223>>, <<20, 14504>>, <<21, 13852>>, <<22, 13258>>, <<23,
    12715>>, <<24, 12216>>, <<25, 11756>>, <<26, 11331>>, <<27, 10937>>, <<28, 10570>>, <<29,
    10228>>, <<30, 9908>>, <<32, 9328>>, <<33, 9063>>, <<34, 8814>>, <<36, 8356>>, <<37, 8145>>,
    <<38, 7945>>, <<40, 7574>>, <<42, 7237>>, <<43, 7081>>, <<45, 6788>>, <<47, 6519>>, <<49,
    6272>>, <<51, 6043>>, <<53, 5832>>, <<55, 5635>>, <<57, 5452>>, <<59, 5281>>, <<62, 5044>>,
    <<64, 4899>>, <<67, 4696>>, <<69, 4570>>, <<72, 4395>>, <<75, 4233>>, <<78, 4083>>, <<81,
    3944>>, <<84, 3814>>, <<88, 3655>>, <<91, 3545>>, <<95, 3408>>, <<99, 3282>>, <<102, 3193>>,
    <<107, 3057>>, <<111, 2956>>, <<115, 2863>>, <<120, 2754>>, <<125, 2653>>, <<130, 2561>>, <<135,
    2474>>, <<140, 2394>>, <<146, 2305>>, <<152, 2222>>, <<158, 2146>>, <<164, 2075>>, <<171,
    1998>>, <<177, 1937>>, <<185, 1861>>, <<192, 1800>>, <<200, 1735>>, <<208, 1675>>, <<216,
    1620>>, <<224, 1568>>, <<233, 1513>>, <<243, 1458>>, <<253, 1406>>, <<263, 1358>>, <<273,
    1314>>, <<284, 1268>>, <<295, 1226>>, <<307, 1183>>, <<320, 1141>>, <<332, 1104>>, <<346,
    1064>>, <<359, 1030>>, <<374, 994>>, <<389, 960>>, <<404, 928>>, <<420, 897>>, <<437, 866>>,
    <<455, 836>>, <<473, 808>>, <<492, 781>>, <<512, 754>>, <<532, 729>>, <<553, 705>>, <<575,
    681>>, <<598, 658>>, <<622, 636>>, <<647, 615>>, <<673, 594>>, <<700, 574>>, <<728, 555>>,
    <<757, 536>>, <<788, 518>>, <<819, 501>>, <<852, 484>>, <<886, 468>>, <<921, 453>>, <<958,
    438>>, <<996, 424>>, <<1036, 409>>, <<1078, 396>>, <<1121, 383>>, <<1166, 370>>, <<1212, 358>>,
    <<1261, 346>>, <<1311, 335>>, <<1364, 324>>, <<1418, 313>>, <<1475, 303>>, <<1534, 293>>,
    <<1595, 284>>, <<1659, 274>>, <<1726, 265>>, <<1795, 257>>, <<1866, 249>>, <<1941, 240>>,
    <<2019, 233>>, <<2099, 225>>, <<2183, 218>>, <<2271, 211>>, <<2362, 204>>, <<2456, 197>>,
    <<2554, 191>>, <<2656, 185>>, <<2763, 179>>, <<2873, 173>>, <<2988, 168>>, <<3108, 162>>,
    <<3232, 157>>, <<3361, 152>>, <<3496, 147>>, <<3500, 147>>
    >>
CdHigh == <<
    <<3501, 635>>, <<3640, 640>>, <<3931, 651>>, <<4246, 662>>, <<4585, 673>>, <<4952, 684>>,
    <<5348, 696>>, <<5776, 707>>, <<6238, 719>>, <<6737, 731>>, <<7276, 744>>, <<7858, 756>>,
    <<8487, 769>>, <<9166, 782>>, <<9899, 795>>, <<10691, 809>>, <<11547, 822>>, <<12470, 836>>,
    <<13468, 850>>, <<14546, 864>>, <<15709, 879>>, <<16966, 894>>, <<18323, 909>>, <<19789, 924>>,
    <<21372, 940>>, <<23082, 956>>, <<24928, 972>>, <<26923, 988>>, <<29077, 1005>>, <<31403,
    1022>>, <<33915, 1039>>, <<36628, 1056>>, <<39558, 1074>>, <<42723, 1092>>, <<46141, 1111>>,
    <<49832, 1129>>, <<53819, 1148>>, <<58124, 1168>>, <<62774, 1187>>, <<67796, 1207>>, <<73220,
    1228>>, <<79077, 1248>>, <<85403, 1269>>, <<92236, 1291>>, <<99615, 1312>>, <<107584, 1334>>,
    <<116190, 1357>>, <<125486, 1380>>, <<135525, 1403>>, <<146366, 1427>>, <<158076, 1451>>,
    <<170722, 1475>>, <<184380, 1500>>, <<199130, 1525>>, <<215060, 1551>>, <<232265, 1577>>,
    <<250846, 1604>>, <<270914, 1631>>, <<292587, 1658>>
    >>
\* Linear interpolation between neighbouring rows; rem is the rest of the key in parts 1/q.
Interpolate(tab, key, rem, q) ==
    LET k == CHOOSE i \in 1..(Len(tab) - 1) : tab[i][1] <= key /\ (key < tab[i + 1][1] \/ i = Len(tab) - 1)
        a == tab[k]  b == tab[k + 1] IN
    a[2] + ((b[2] - a[2]) * ((key - a[1]) * q + rem)) \div ((b[1] - a[1]) * q)
\* The Reynolds number is given as 10 q Re.
InTable(re, q) == re >= q * CdLow[1][1] /\ re <= q * CdHigh[Len(CdHigh)][1]
Cd1000(re, q) == Interpolate(IF re <= 3500 * q THEN CdLow ELSE CdHigh, re \div q, re % q, q)
\* Close to the joint of the two branches either may be taken.
Cd1000s(re, q) == IF re \div q \in 3465..3535 THEN {Cd1000(3500, 1), Cd1000(3501, 1)} ELSE {Cd1000(re, q)}

RECURSIVE NewtonR(_, _)
NewtonR(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE NewtonR(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE NewtonR(n, n)
=============================================================================
