--------------------------- MODULE TracePipeline ---------------------------
(***************************************************************************)
(* Recorded runs of the tools against PipelineOps.  Every record tells the *)
(* names of all files afterwards and the content of those that changed.    *)
(***************************************************************************)
EXTENDS PipelineOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs
vars == <<l, fs>>

Path(x) == <<x[1], x[2]>>
Names(r) == {Path(x) : x \in Ran(r.names)}
Changed(r) == [p \in {Path(c.p) : c \in Ran(r.changed)} |-> (CHOOSE c \in Ran(r.changed) : Path(c.p) = p).c]
After(r) == LET ch == Changed(r) IN [p \in Names(r) |-> IF p \in DOMAIN ch THEN ch[p] ELSE fs[p]]

Content(p, want, got) ==
    CASE got.k # want.k -> {"Unreadable"}
      [] want.k = "other" -> {}
      [] want.k = "grid" ->
            IF got = want THEN {}
            ELSE IF got.title # want.title THEN {"Title"}
            ELSE IF [k \in DOMAIN got.zones |-> <<got.zones[k].name, Len(got.zones[k].faces)>>] # [k \in DOMAIN want.zones |-> <<want.zones[k].name, Len(want.zones[k].faces)>>] THEN {"Zones"}
            ELSE IF \E k \in DOMAIN got.zones : \E j \in DOMAIN got.zones[k].faces : got.zones[k].faces[j].t # want.zones[k].faces[j].t THEN {"Geometry"}
            ELSE {"Values"}
      [] OTHER -> IF got = want THEN {} ELSE {"Content"}
\* the files of the file system `want' against what is there
Compare(want, got) ==
    (IF DOMAIN want \subseteq DOMAIN got THEN {} ELSE {"FileMissing"}) \cup
    (IF DOMAIN got \subseteq DOMAIN want THEN {} ELSE {"FileUnexpected"}) \cup
    UNION {Content(p, want[p], got[p]) : p \in DOMAIN want \cap DOMAIN got}

HiOf(G) == LET z == CHOOSE z \in DOMAIN G.zones : Len(G.zones[z].faces) > 0 IN G.zones[z].faces[1].d.Hi
Remeshed(G) == LET h == HiOf(G) IN RemeshGrid(G, LAMBDA p : p + h, 0)
SameFace(f, t, d) == /\ f.t = t
                     /\ \A v \in {"T", "Hw", "Hi"} : f.d[v] = d[v]

NamesBad(r) ==
    (IF r.has = HasTs(r.s) THEN {} ELSE {"HasTimestamp"}) \cup
    (IF r.pair = <<Stem(r.s), Ts(r.s)>> THEN {} ELSE {"NameAndTimestamp"}) \cup
    (IF \A i \in DOMAIN r.files : r.cry[i] = IsOf(r.files[i], r.s, "cry") THEN {} ELSE {"CryName"}) \cup
    (IF \A i \in DOMAIN r.files : r.txt[i] = IsOf(r.files[i], r.s, "txt") THEN {} ELSE {"TxtName"}) \cup
    (LET ok == SelectSeq(r.files, LAMBDA f : IsOf(f, r.s, "txt"))
         tss == {TsOfFile(f) : f \in Ran(ok)} IN
     IF {g.ts : g \in Ran(r.groups)} = tss /\ Len(r.groups) = Cardinality(tss)
        /\ \A g \in Ran(r.groups) : Ran(g.fs) = {f \in Ran(ok) : TsOfFile(f) = g.ts}
     THEN {} ELSE {"Groups"})

BadOf(r) ==
    CASE r.ev = "crash" -> {"Crash"}
      [] r.ev = "files" -> {}
      [] r.ev = "names" -> IF r.exc # "" THEN {"Raises"} ELSE NamesBad(r)
      [] r.exc # "" -> {"Raises"}
      [] r.ev = "calc" ->      \* values loaded into a grid in memory
            LET want(f) == LET mine == {x \in Ran(r.rows) : x.g = f.g} IN IF mine = {} THEN f ELSE [f EXCEPT !.d = (CHOOSE x \in mine : TRUE).d] IN
            IF Len(r.post) = Len(r.pre) /\ \A i \in DOMAIN r.pre : r.post[i] = want(r.pre[i]) THEN {} ELSE {"Values"}
      [] r.ev = "merge" ->
            LET g == Path(r.g) IN Compare(Update(fs, MergeFiles(fs, g, r.src, r.dst, r.csvdir)), After(r))
      [] r.ev = "split" ->
            LET g == Path(r.g)  names == SplitNames(g, r.n, r.dir)  after == After(r) IN
            IF DOMAIN after # DOMAIN fs \cup names THEN {"SplitFiles"}
            ELSE (IF \A p \in DOMAIN fs \ names : after[p] = fs[p] THEN {} ELSE {"OtherFiles"}) \cup
                 (IF SplitOk(fs[g], names, [p \in names |-> after[p]], SameFace) THEN {} ELSE {"SplitContent"})
      [] r.ev = "remesh" ->
            LET gs == {Path(x) : x \in Ran(r.grids)}
                name(p) == <<r.out, RemeshedName(p[2])>> IN
            Compare(Update(fs, [q \in {name(p) : p \in gs} |-> Remeshed(fs[CHOOSE p \in gs : name(p) = q])]), After(r))

TraceInit == l = 0 /\ fs = None
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Trace[l + 1]
           bad == BadOf(r)
       IN /\ (IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l + 1, bad>>))
          /\ fs' = IF "names" \in DOMAIN r THEN (IF r.first THEN Changed(r) ELSE After(r)) ELSE fs
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
