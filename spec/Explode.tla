------------------------------- MODULE Explode -------------------------------
(***************************************************************************)
(* Moving zones apart: every zone moves as a whole by k times the way from *)
(* the mean point of all nodes to the mean point of its nodes.             *)
(* zs : zones, each a sequence of points (triples of integers), every      *)
(* listed point is a node of its own.  k = kn / kd.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumAt(_, _)
SumAt(s, c) == IF s = <<>> THEN 0 ELSE Head(s)[c] + SumAt(Tail(s), c)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

Count(zs) == SumSeq([i \in DOMAIN zs |-> Len(zs[i])])
Total(zs, c) == SumSeq([i \in DOMAIN zs |-> SumAt(zs[i], c)])
\* The way of the zone i after one explosion, times N * Nz * kd.
Way(zs, i, kn) == [c \in 1..3 |-> kn * (Count(zs) * SumAt(zs[i], c) - Len(zs[i]) * Total(zs, c))]
\* After p explosions, times N * Nz * kd^p: the mean point of all does not move.
WayAfter(zs, i, kn, kd, p) ==
    [c \in 1..3 |-> (Pow(kn + kd, p) - Pow(kd, p)) * (Count(zs) * SumAt(zs[i], c) - Len(zs[i]) * Total(zs, c))]
=============================================================================
