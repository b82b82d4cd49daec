---------------------------- MODULE TraceFields ----------------------------
(* Recorded histories of fields on a grid: [old, o, new, out].             *)
EXTENDS Fields, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] OTHER -> LET want == Apply(r.old, r.o) IN
            Clause(SameFaces(want.faces, r.new.faces), "Values")
            \cup Clause(r.o.op = "decompose" \/ want.zones = r.new.zones, "Zones")
            \cup (IF r.o.op = "get" THEN Clause(r.out = Val(r.old.faces[r.o.f].v, r.o.n), "Answer") ELSE {})
            \cup (IF r.o.op = "write" THEN Clause(r.names = Three /\ RightLines(r.old, r.out), "File") ELSE {})
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
