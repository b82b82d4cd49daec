--------------------------- MODULE TraceAdjacency ---------------------------
(***************************************************************************)
(* The zones adjacency matrix and all the statistics derived from it, as   *)
(* functions of the grid.                                                  *)
(***************************************************************************)
EXTENDS Mesh, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

\* kinds of edges, found once per grid
Kinds(G) ==
    LET E == DOMAIN G.edges
        at == TLCEval([j \in E |-> {G.faces[G.edges[j].f[k]].z : k \in DOMAIN G.edges[j].f}])
        border == TLCEval({j \in E : Len(G.edges[j].f) = 1})
        cross == TLCEval({j \in E : Cardinality(at[j]) = 2})
        inner == TLCEval({j \in E : Len(G.edges[j].f) = 2 /\ Cardinality(at[j]) = 1})
    IN [at |-> at, border |-> border, cross |-> cross, inner |-> inner]
Matrix(G, K) ==
    LET n == Len(G.zones)
        crossOf == TLCEval([a \in 1..n |-> {j \in K.cross : a \in K.at[j]}])
        bordersOf == TLCEval([a \in 1..n |-> Cardinality({j \in K.border : K.at[j] = {a}})])
        innersOf == TLCEval([a \in 1..n |-> Cardinality({j \in K.inner : K.at[j] = {a}})])
    IN TLCEval([a \in 1..(n+1) |-> [b \in 1..(n+1) |->
        IF a = n+1 /\ b = n+1 THEN 0
        ELSE IF a = n+1 THEN bordersOf[b]
        ELSE IF b = n+1 THEN bordersOf[a]
        ELSE IF a = b THEN innersOf[a]
        ELSE Cardinality({j \in crossOf[a] : b \in K.at[j]})]])
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* thousandths of a percent
Percent(p, part, all) == p * all - 100000 * part \in (-all)..all

(***************************************************************************)
(* The printed summary.                                                    *)
(***************************************************************************)
\* hundredths of a percent, rounded
Percent2(p, part, all) == 2 * (p * all - 10000 * part) \in (-all - 2)..(all + 2)
RECURSIVE Bisect(_, _, _)
Bisect(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Bisect(n, m, hi) ELSE Bisect(n, lo, m)
\* 1000 * sqrt(f) / o, rounded (up to 2147 faces in a zone)
Quality(q, f, o) == LET root == Bisect(1000000 * f, 0, 46341) IN (2 * q - 1) * o <= 2 * root + 2 + o /\ (2 * q + 1) * o + o >= 2 * root
Outer(G, K, i) == Cardinality({j \in RangeOf(G.zones[i].e) : j \notin K.inner})
Info(r, G, K, n, m, be, ie, ce, row) == LET p == r.info  all == be + ie + ce  nf == Len(G.faces)  zf(i) == Len(G.zones[i].f) IN
    /\ p.name /\ p.zonenames /\ p.rest = 0
    /\ p.counts = <<Len(G.nodes), Len(G.edges), nf, n>>
    /\ IF r.flags[1] THEN p.stat = <<be, ie, ce>> /\ Percent2(p.sperc[1], be, all) /\ Percent2(p.sperc[2], ie, all) /\ Percent2(p.sperc[3], ce, all) ELSE p.stat = <<>>
    /\ IF r.flags[2] THEN
            LET most == MaxOf({zf(i) : i \in 1..n}) IN
            /\ p.dist = [i \in 1..n |-> <<zf(i), Outer(G, K, i)>>]
            /\ Len(p.qf) = n /\ \A i \in 1..n : Quality(p.qf[i], zf(i), Outer(G, K, i))
            /\ p.summary = <<most>>
            /\ Percent2(p.dev, most * n - nf, nf)
            /\ p.minmax = <<-MaxOf({-p.qf[i] : i \in 1..n}), MaxOf({p.qf[i] : i \in 1..n})>>
       ELSE p.dist = <<>>
    /\ IF r.flags[3] THEN p.matrix = m /\ p.border = <<MaxOf(UNION {RangeOf(row[i]) : i \in 1..n})>> ELSE p.matrix = <<>>
Counts(r, G, n) == r.counts = <<Len(G.nodes), Len(G.edges), Len(G.faces), n, SumSeq([i \in 1..n |-> Len(G.zones[i].f)]),
                                SumSeq([i \in 1..n |-> IF r.fixed[i] THEN Len(G.zones[i].f) ELSE 0])>>

BadOf(r) ==
    IF r.ev = "crash" THEN {"Crash"}
    ELSE IF r.ev = "setup" THEN (IF r.exc = "" THEN {} ELSE {"SetupRaises"})
    ELSE IF r.exc # "" THEN {"Raises"}
    ELSE LET G == r.G  n == Len(G.zones)  K == Kinds(G)  m == Matrix(G, K)
             row == TLCEval([i \in 1..n |-> [k \in 1..(n+1) |-> IF k = i \/ k = n+1 THEN 0 ELSE m[i][k]]])
             be == Cardinality(K.border)  ie == Cardinality(K.inner)  ce == Cardinality(K.cross) IN
        (IF r.m1 = m /\ r.m = m THEN {} ELSE {"Matrix"}) \cup     \* asking does not change it
        (IF r.maxs = [i \in 1..n |-> MaxOf(RangeOf(row[i]))] THEN {} ELSE {"Maxima"}) \cup
        (IF r.stat = <<be + ie + ce, be, ie, ce>> THEN {} ELSE {"Statistics"}) \cup
        (IF Percent(r.perc[1], be, be+ie+ce) /\ Percent(r.perc[2], ie, be+ie+ce) /\ Percent(r.perc[3], ce, be+ie+ce)
         THEN {} ELSE {"Percents"}) \cup
        (IF \A i \in 1..n : r.rows[i] = row[i] THEN {} ELSE {"CrossEdgesArray"}) \cup
        (IF \A i \in 1..n : r.sums[i] = SumSeq(row[i]) THEN {} ELSE {"CrossEdgesCount"}) \cup
        (IF \A i \in 1..n : r.nbs[i] = Cardinality({k \in 1..n : k # i /\ m[i][k] > 0}) THEN {} ELSE {"CrossBordersCount"}) \cup
        (IF r.maxlen = MaxOf(UNION {RangeOf(row[i]) : i \in 1..n}) THEN {} ELSE {"MaxBorder"}) \cup
        (IF \A i \in 1..n : r.outer[i] = Outer(G, K, i) THEN {} ELSE {"OuterEdges"}) \cup
        (IF \A j \in DOMAIN G.edges : r.kinds[j] = IF j \in K.border THEN "border" ELSE IF j \in K.inner THEN "inner" ELSE "cross"
         THEN {} ELSE {"EdgeKinds"}) \cup
        (IF Counts(r, G, n) THEN {} ELSE {"Counts"}) \cup
        (IF r.infoexc # "" THEN {"PrintInfoRaises"} ELSE IF Info(r, G, K, n, m, be, ie, ce, row) THEN {} ELSE {"PrintInfo"})
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
