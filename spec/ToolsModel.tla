----------------------------- MODULE ToolsModel -----------------------------
(***************************************************************************)
(* Histories of requests over one file system.  A path holds 0 (an input,  *)
(* an older file) or the number of the request that wrote it last.         *)
(***************************************************************************)
EXTENDS Tools, Json
CONSTANTS MaxLen, Small, Emitting
Grids == {"wing", "plain", "missing", "bad", "txt"}
Jsons == {"", "plain", "strat3", "fix1", "fix2", "foreign", "missing", "broken"}
Split == IF Small THEN [tool : {"split"}, grid : {"wing", "missing"}, s : {"n0", "n3", "h1"}, j : {"", "fix1"}, out : {"old", "new", "file"}]
         ELSE [tool : {"split"}, grid : Grids, s : {"", "n1", "n2", "n3", "n5", "h0", "h1", "h2", "n0", "n-2", "h-1", "x2", "n", "nx"},
               j : Jsons, out : {"old", "new", "file", "none", "both"}]
Merge == IF Small THEN [tool : {"merge"}, grid : {"wing", "plain"}, src : {"two", "csv", "stranger", "missing"}, dst : {"old", "new"}]
         ELSE [tool : {"merge"}, grid : Grids \ {"txt"}, src : {"two", "none", "csv", "csvs", "stranger", "word", "missing"}, dst : {"old", "new"}]
Remesh == {r \in (IF Small THEN [tool : {"remesh"}, src : {"grid", "dir", "dir bad", "here"}, j : {"two", "loud", "missing"}, out : {"old", "new"}, v : {0}]
                  ELSE [tool : {"remesh"}, src : {"grid", "here", "missing", "bad", "txt", "dir", "dir bad", "dir none", "no dir", "nothing", "both"},
                        j : {"", "two", "loud", "missing", "broken", "steps"}, out : {"old", "new", ""}, v : {0, 2}]) :
             r.j = "" => r.v = 0}
Drops == [tool : {"drops"}, grid : {"wing", "missing", "bad"}, air : {"air", "missing", "bad", "none"}]
Interpolate == [tool : {"interpolate"}, src : Grids, dst : Grids, res : {"", "dat", "txt"}]
Beta == {r \in [tool : {"beta"}, lazurit : {"plain", "own", "missing", "bad"}, ansys : Grids \ {"txt"}, out : {"", "own"}] : r.out = "own" => r.lazurit = "own"}
Lazurit == [tool : {"lazurit"}, dir : {"pairs", "odd", "mismatch", "missing"}]
Ansys == [tool : {"ansys"}, base : {"case", "fensap", "drop3d", "adiabatic"}]
Smooth == [tool : {"smooth"}, n : {0, 1, 3, 12}, f : {0, 1}]
Requests == <<Split, Merge, Remesh, Drops, Interpolate, Beta, Lazurit, Ansys, Smooth>>

VARIABLES fs, hist
Paths == UNION {Made(hist[i]) \cup Also(hist[i]) \cup May(hist[i]) : i \in DOMAIN hist}
At(p) == IF p \in DOMAIN fs THEN fs[p] ELSE 0
Write(ps, k) == [p \in DOMAIN fs \cup ps |-> IF p \in ps THEN k ELSE fs[p]]
Init == fs = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E t \in DOMAIN Requests : \E r \in Requests[t] :
             /\ hist' = Append(hist, r)
             /\ fs' = Write(IF Wrong(r) THEN May(r) ELSE Made(r), Len(hist) + 1)
Spec == Init /\ [][Next]_<<fs, hist>>

OnlyMade == DOMAIN fs \subseteq Paths
\* The last request that is right has its files.
Latest == hist # <<>> /\ ~Wrong(hist[Len(hist)]) => \A p \in Made(hist[Len(hist)]) : At(p) = Len(hist)
\* A refused request leaves all results of others, unless it got as far as its own.
NotHurt == hist # <<>> /\ Wrong(hist[Len(hist)]) => \A p \in DOMAIN fs : fs[p] = Len(hist) => p \in May(hist[Len(hist)])
\* Every request is right or refused, and a refused one never promises more than a right one of the kind.
Emit == Emitting /\ Len(hist) = MaxLen => PrintT(ToJson(hist))
=============================================================================
