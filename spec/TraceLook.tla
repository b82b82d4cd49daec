----------------------------- MODULE TraceLook -----------------------------
(***************************************************************************)
(* Recorded schedules.  st : the grid after the step, twin : a grid that   *)
(* went through the same changes and was never asked, ans : the answer,    *)
(* fresh : the answer of a copy of the twin.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cur, known
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "start" -> Clause(r.exc = "" /\ r.st = r.twin, "Start")
      [] r.ev = "change" -> Clause(r.exc = r.exc2, "Outcome") \cup Clause(r.st = r.twin, "Disturbed")
      [] r.ev = "ask" ->
            Clause(r.exc = r.exc2, "Raises") \cup Clause(r.st = cur, "Changed")
            \cup Clause(r.ans = r.fresh, "Stale")
            \cup Clause(\A k \in known : k[1] = r.q => k[2] = r.ans, "Answer")
TraceInit == l = 0 /\ cur = <<>> /\ known = {}
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Trace[l + 1]  bad == BadOf(r) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
       /\ IF r.ev = "crash" THEN cur' = <<>> /\ known' = {}
          ELSE /\ cur' = r.st
               /\ known' = IF r.ev = "ask" THEN known \cup {<<r.q, r.ans>>} ELSE {}
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cur, known>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
