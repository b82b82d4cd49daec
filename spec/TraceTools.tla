---------------------------- MODULE TraceTools ----------------------------
(* Recorded requests: [r, exc, touched, gone, kept]: paths written, paths  *)
(* removed, and whether all else is as it was.                             *)
EXTENDS Tools, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Rng(q) == {q[i] : i \in DOMAIN q}
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(e) ==
    IF e.ev = "crash" THEN {"Crash"}
    ELSE LET touched == Rng(e.touched) IN
         Clause(e.gone = <<>>, "Removes")
         \cup (IF Free(e.r) THEN Clause(touched \subseteq Made(e.r), "Stray")
               ELSE IF Wrong(e.r)
               THEN Clause(e.exc # "", "Accepts") \cup Clause(touched \subseteq May(e.r), "Spoils")
               ELSE Clause(e.exc = "", "Refuses") \cup Clause(Made(e.r) \subseteq touched, "Lacks")
                    \cup Clause(touched \subseteq Made(e.r) \cup Also(e.r), "Stray"))
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
