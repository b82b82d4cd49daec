----------------------------- MODULE TraceTwice -----------------------------
(***************************************************************************)
(* The same run in several processes (other hashing of strings, another    *)
(* layout of memory).  A step of the system is a function of its input:    *)
(* the runs are behaviours of one deterministic machine, so what they      *)
(* produce step by step (outs[p][k] : outcome of step k in process p) is   *)
(* the same in all processes.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Clause(ok, n) == IF ok THEN {} ELSE {n}
\* The first step where processes part.
Part(r) == {k \in 1..Len(r.outs[1]) : \E p \in DOMAIN r.outs : k > Len(r.outs[p]) \/ r.outs[p][k] # r.outs[1][k]}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "twice" ->
            Clause(Len(r.outs) >= 2 /\ \A p \in DOMAIN r.outs : Len(r.outs[p]) = Len(r.outs[1]), "Steps")
            \cup Clause(Part(r) = {}, "Part")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
