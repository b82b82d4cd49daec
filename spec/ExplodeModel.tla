---------------------------- MODULE ExplodeModel ----------------------------
(* The closed form of repeated explosions against their step by step law,  *)
(* on small zones of points of a line; rationals by a common denominator.  *)
EXTENDS Explode
CONSTANTS Max, Steps
VARIABLES zs, kn, pos, p
vars == <<zs, kn, pos, p>>
KD == 2
Seqs(n) == UNION {[1..i -> 0..Max] : i \in 1..n}
Line(s) == [i \in DOMAIN s |-> <<s[i], 0, 0>>]
D(z) == Count(z) * Len(z[1]) * (IF Len(z) > 1 THEN Len(z[2]) ELSE 1) * (IF Len(z) > 2 THEN Len(z[3]) ELSE 1)
\* pos : the first coordinates, times D * KD^Steps * ... (so that each step divides exactly)
Unit(z) == Pow(D(z) * KD, Steps)
Init == /\ \E a, b \in Seqs(2), c \in Seqs(1) \cup {<<>>} : zs = IF c = <<>> THEN <<Line(a), Line(b)>> ELSE <<Line(a), Line(b), Line(c)>>
        /\ kn \in -1..3
        /\ p = 0
        /\ pos = [i \in DOMAIN zs |-> [j \in DOMAIN zs[i] |-> zs[i][j][1] * Unit(zs)]]
Step == /\ p < Steps /\ p' = p + 1 /\ UNCHANGED <<zs, kn>>
        /\ LET N == Count(zs)  all == SumSeq([i \in DOMAIN pos |-> SumSeq(pos[i])]) IN
           pos' = [i \in DOMAIN pos |-> [j \in DOMAIN pos[i] |->
                    pos[i][j] + (kn * (N * SumSeq(pos[i]) - Len(pos[i]) * all)) \div (KD * N * Len(pos[i]))]]
Spec == Init /\ [][Step]_vars
Closed == \A i \in DOMAIN zs : \A j \in DOMAIN zs[i] :
    (pos[i][j] - zs[i][j][1] * Unit(zs)) * Count(zs) * Len(zs[i]) * Pow(KD, p) = WayAfter(zs, i, kn, KD, p)[1] * Unit(zs)
MeanKept == SumSeq([i \in DOMAIN pos |-> SumSeq(pos[i])]) = Total(zs, 1) * Unit(zs)
OneIsWay == \A i \in DOMAIN zs : WayAfter(zs, i, kn, KD, 1) = Way(zs, i, kn)
=============================================================================
