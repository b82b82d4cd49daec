-------------------------------- MODULE Look --------------------------------
(***************************************************************************)
(* Questions and changes of a grid.  A question changes nothing, its       *)
(* answer depends on the grid only; a grid that was asked goes through     *)
(* changes as one that was not.  Schedules of questions and changes; the   *)
(* grid is stood for by the list of its changes, the twin is never asked.  *)
(* memo is what a grid may remember of answers: dropped by changes.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Questions, Changes, Emitting

VARIABLES grid, twin, memo, ans, hist
vars == <<grid, twin, memo, ans, hist>>
Answer(q, g) == <<q, g>>

Init == grid = <<>> /\ twin = <<>> /\ memo = {} /\ ans = <<>> /\ hist = <<>>
Ask(q) ==
    /\ ans' = (IF \E m \in memo : m[1] = q THEN CHOOSE m \in memo : m[1] = q ELSE Answer(q, grid))
    /\ memo' = memo \cup {ans'}
    /\ hist' = Append(hist, <<"ask", q>>)
    /\ UNCHANGED <<grid, twin>>
Change(c) ==
    /\ grid' = Append(grid, c) /\ twin' = Append(twin, c)
    /\ memo' = {} /\ ans' = <<>>
    /\ hist' = Append(hist, <<"change", c>>)
Next == Len(hist) < MaxLen /\ ((\E q \in Questions : Ask(q)) \/ \E c \in Changes : Change(c))
Spec == Init /\ [][Next]_vars

NotDisturbed == grid = twin
Current == ans # <<>> => ans = Answer(ans[1], twin)
Emit == Emitting /\ Len(hist) = MaxLen => PrintT(ToJson(hist))
=============================================================================
