------------------------------ MODULE TraceCry ------------------------------
(***************************************************************************)
(* Validates sets of solver files written by the code against the surface  *)
(* they were written for.  Judge: "content" or "borders".                  *)
(***************************************************************************)
EXTENDS Cry, DecompShape, TLC, Json, IOUtils

CONSTANT Judge
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l

\* What the split tool promises about the zones zs ([name, f], f a set of face numbers), given the faces
\* of the input file: the fixed zones as they were, the others of the shape of the strategy.
SidesOf3(t) == {{t[1], t[2]}, {t[2], t[3]}, {t[1], t[3]}}
AdjOf(fs) == LET sd == TLCEval([i \in DOMAIN fs |-> SidesOf3(fs[i].t)])
             IN {{i, j} : <<i, j>> \in {p \in (DOMAIN fs) \X (DOMAIN fs) : p[1] < p[2] /\ sd[p[1]] \cap sd[p[2]] # {}}}
CenOf(fs) == [i \in DOMAIN fs |-> LET t == fs[i].t IN
                <<PX(t[1]) + PX(t[2]) + PX(t[3]), PY(t[1]) + PY(t[2]) + PY(t[3]), PZ(t[1]) + PZ(t[2]) + PZ(t[3])>>]
SplitBad(r, zs) ==
    LET q == r.want  fs == r.faces  nfx == Len(q.fx)  n == Len(zs)
        fixed == TLCEval({[name |-> q.fx[k], f |-> {i \in DOMAIN fs : fs[i].z = q.fx[k]}] : k \in DOMAIN q.fx})
        fresh == TLCEval(SelectSeq(zs, LAMBDA z : z \notin fixed))
        free == DOMAIN fs \ UNION {z.f : z \in fixed}
        named(pre) == \A i \in DOMAIN fresh : fresh[i].name = pre \o ToString(i - 1)
    IN
    (IF fixed \subseteq RangeOf(zs) /\ Len(fresh) = n - nfx THEN {} ELSE {"FixedZones"}) \cup
    (CASE q.kind = "mono" -> IF zs = <<[name |-> "mono", f |-> DOMAIN fs]>> THEN {} ELSE {"Mono"}
       [] q.kind = "n" -> IF n = q.n /\ named("farhat ") /\ FarhatOk(fresh, free, q.n - nfx, TLCEval(AdjOf(fs))) THEN {} ELSE {"Domains"}
       [] q.kind = "h" -> IF HierOk(fresh, free, q.n + 1, TLCEval(CenOf(fs)), TLCEval(AdjOf(fs))) THEN {} ELSE {"Levels"})
CryZones(r) == [i \in DOMAIN r.files |-> [name |-> r.files[i].title, f |-> {r.files[i].gids[k] + 1 : k \in DOMAIN r.files[i].gids}]]

\* The grid file that the split tool writes: the same surface with the new zones.
DatBad(r) ==
    LET key(x) == <<Canon(x.t), x.c>>
        num == TLCEval([i \in DOMAIN r.out |-> {j \in DOMAIN r.faces : key(r.faces[j]) = key(r.out[i])}])
    IN IF /\ Len(r.out) = Len(r.faces) /\ \A i \in DOMAIN num : num[i] # {}
          /\ UNION {num[i] : i \in DOMAIN num} = DOMAIN r.faces
       THEN SplitBad(r, [k \in DOMAIN r.zones |-> [name |-> r.zones[k], f |-> UNION {num[i] : i \in {j \in DOMAIN r.out : r.out[j].k = k}}]])
            \cup (IF r.title = r.title0 THEN {} ELSE {"Title"}) \cup (IF r.others = 0 THEN {} ELSE {"OtherFiles"})
       ELSE {"Faces"}

BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "setup" -> IF r.exc = "" THEN {} ELSE {"SetupRaises"}
      [] r.ev = "refused" -> IF r.exc # "" /\ r.files = 0 THEN {} ELSE {"NotRefused"}
      [] r.ev = "cry" -> IF r.exc # "" THEN {"Raises"}
                         ELSE IF Judge = "content" THEN LET c == ContentBad(r.faces, r.files, r.names) IN
                              IF c # {} \/ "want" \notin DOMAIN r THEN c ELSE SplitBad(r, CryZones(r))
                         ELSE BordersBad(r.files)
      [] r.ev = "dat" -> IF r.exc # "" THEN {"Raises"} ELSE IF Judge = "content" THEN DatBad(r) ELSE {}

TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET bad == BadOf(Trace[l + 1]) IN IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
