----------------------------- MODULE Decompose -----------------------------
(***************************************************************************)
(* Histories of decompositions of one grid.  The state is the current      *)
(* list of zones over a small dual graph; every decomposition may produce  *)
(* any result its shape allows.  Checked: the zones always partition the   *)
(* faces, fixed zones survive untouched.  The histories are replayed in    *)
(* the code on real grids.                                                 *)
(***************************************************************************)
EXTENDS DecompShape, TLC, Json

CONSTANTS MaxLen, N, MaxCount, Sim

VARIABLES zones, hist, kept
vars == <<zones, hist, kept>>

Adj == {{i, i+1} : i \in 1..(N-1)}
Cen == [i \in 1..N |-> <<i, i * i % 3, 0>>]
Names(zs) == {zs[i].name : i \in DOMAIN zs}
Num == <<"0", "1", "2", "3", "4", "5", "6", "7">>

Some(k, S) == IF ~ Sim \/ Cardinality(S) <= k THEN S ELSE {RandomElement(S) : i \in 1..k}
Init == /\ zones = <<[name |-> "wing", f |-> 1..2], [name |-> "tail", f |-> 3..N]>>
        /\ hist = <<>> /\ kept = {}

Free(fx) == 1..N \ UNION {zones[i].f : i \in {j \in DOMAIN zones : zones[j].name \in fx}}
FixedZones(fx) == SelectSeq(zones, LAMBDA z : z.name \in fx)
\* all sequences of c named disjoint zones covering the set S
Assign(S, c, nm(_)) == {[i \in 1..c |-> [name |-> nm(i), f |-> {x \in S : a[x] = i}]] : a \in [S -> 1..c]}

Do(o, zs, fx) == /\ Len(hist) < MaxLen
                 /\ hist' = Append(hist, o) /\ zones' = zs
                 /\ kept' = {z \in {zones[i] : i \in DOMAIN zones} : z.name \in fx}

Mono == Do([op |-> "mono", c |-> 1, fx |-> <<>>], <<[name |-> "mono", f |-> 1..N]>>, {})
Linear == \E c \in 1..MaxCount :
            Do([op |-> "linear", c |-> c, fx |-> <<>>],
               [i \in 1..c |-> [name |-> "linear " \o Num[i], f |-> (EvenStart(N, c, i-1)+1)..(EvenStart(N, c, i-1)+EvenSize(N, c, i-1))]], {})
Random == \E c \in 1..MaxCount : \E zs \in Some(2, Assign(1..N, c, LAMBDA i : "random " \o Num[i])) :
            Do([op |-> "random", c |-> c, fx |-> <<>>], zs, {})
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Fixes == {fx \in SUBSET Names(zones) : Cardinality(fx) <= 2}
Farhat == \E c \in 1..MaxCount : \E fx \in Some(2, Fixes) :
            \E zs \in Some(1, {zs \in Assign(Free(fx), c, LAMBDA i : "farhat " \o Num[i]) : FarhatOk(zs, Free(fx), c, Adj)}) :
               Do([op |-> "farhat", c |-> c, fx |-> SetSeq(fx)], FixedZones(fx) \o zs, fx)
RECURSIVE HierZones(_, _, _)
HierZones(F, name, depth) ==
    IF depth = 0 \/ Cardinality(F) < 2 \/ BestAxes(F, Cen, NbOf(F, Adj)) = {} THEN <<[name |-> name, f |-> F]>>
    ELSE LET a == CHOOSE a \in BestAxes(F, Cen, NbOf(F, Adj)) : \A b \in BestAxes(F, Cen, NbOf(F, Adj)) : a <= b
             L == LeftOf(F, a, Cen)
         IN HierZones(L, name \o "l", depth - 1) \o HierZones(F \ L, name \o "r", depth - 1)
Hier == \E lv \in 1..4 : \E fx \in Some(2, Fixes) :
            Do([op |-> "hier", c |-> lv, fx |-> SetSeq(fx)], FixedZones(fx) \o HierZones(Free(fx), "h", lv - 1), fx)
Next == Mono \/ Linear \/ Random \/ Farhat \/ Hier
Spec == Init /\ [][Next]_vars

Parts == Partition(zones, N)
FixedKept == \A z \in kept : \E i \in DOMAIN zones : zones[i] = z
HierShape == \* the constructive bisection satisfies the shape predicate
    (hist # <<>> /\ hist[Len(hist)].op = "hier") =>
        LET n == Cardinality(kept)
            new == SubSeq(zones, n + 1, Len(zones)) IN HierOk(new, Zoned(new), hist[Len(hist)].c, Cen, Adj)
LinearShape == (hist # <<>> /\ hist[Len(hist)].op = "linear") => LinearOk(zones, N, hist[Len(hist)].c)

Emit == Len(hist) = MaxLen => PrintT(ToJson([ops |-> hist]))
View == IF Sim THEN <<zones, hist, kept>> ELSE <<hist, kept>>
=============================================================================
