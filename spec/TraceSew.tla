------------------------------ MODULE TraceSew ------------------------------
(* Recorded histories of the converters' grid object: [old, o, new, out].  *)
EXTENDS Sew, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.exc # "" -> {"Raises"}
      [] OTHER -> LET want == Apply(r.old, r.o) IN
            Clause(want.zones = r.new.zones, "Zones") \cup Clause(want.nodes = r.new.nodes, "Nodes")
            \cup (IF r.o.op = "export" THEN Clause(Exported(r.old) = r.out, "File") ELSE {})
            \cup (IF r.o.op = "info" THEN Clause(Info(r.old) = r.out, "Info") ELSE {})
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
