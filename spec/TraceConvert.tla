---------------------------- MODULE TraceConvert ----------------------------
(* Runs of the converters; m : the input, out : the grid written.          *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

Want(r) == IF r.ev = "ansys" THEN AnsysGrid(r.m.zones, r.m.opt) ELSE LazGrid(r.m.blocks)
Vars(r) == IF r.ev = "ansys" THEN AnsysVars ELSE LazVars
Clause(ok, n) == IF ok THEN {} ELSE {n}
BadGrid(r) ==
    LET w == TLCEval(Want(r))  o == r.out.zones IN
    IF r.out.vars # Vars(r) THEN {"Variables"}
    ELSE IF [i \in DOMAIN w |-> w[i].name] # [i \in DOMAIN o |-> o[i].name] THEN {"Zones"}
    ELSE UNION {IF Len(w[i].faces) # Len(o[i].faces) THEN {"FacesCount"}
                ELSE UNION {Clause(w[i].faces[k].d = o[i].faces[k].d, "Values")
                            \cup Clause(w[i].faces[k].x \in Rotations(o[i].faces[k].x), "Corners") : k \in DOMAIN w[i].faces} : i \in DOMAIN w}
BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "refuse" -> Clause(r.exc # "", "Accepted")
      [] r.exc # "" -> {"Raises"}
      [] OTHER -> BadGrid(r) \cup Clause(r.same, "InputChanged")
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
