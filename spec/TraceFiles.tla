----------------------------- MODULE TraceFiles -----------------------------
(* A file is loaded without an exception exactly if the grammar accepts it. *)
EXTENDS FileGrammar, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "file" -> IF Accepts(r.lines) THEN (IF r.exc = "" THEN {} ELSE {"RefusesValidFile"})
                          ELSE (IF r.exc # "" THEN {} ELSE {"AcceptsMalformedFile"})
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
