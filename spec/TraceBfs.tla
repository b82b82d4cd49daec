------------------------------ MODULE TraceBfs ------------------------------
EXTENDS Bfs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
SetOf(s) == RangeOfSeq(s)
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "setup" -> IF r.exc = "" THEN {} ELSE {"SetupRaises"}
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "walk" -> LET nb == [x \in DOMAIN r.nb |-> SetOf(r.nb[x])] IN
            IF WalkOk(r.path, nb, r.start, SetOf(r.sel)) THEN {} ELSE {"Walk"}
      [] r.ev = "component" -> LET nb == [x \in DOMAIN r.nb |-> SetOf(r.nb[x])] IN
            IF ComponentOk(r.path, nb, r.start, SetOf(r.sel)) THEN {} ELSE {"Component"}
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
