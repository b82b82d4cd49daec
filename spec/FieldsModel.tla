---------------------------- MODULE FieldsModel ----------------------------
(***************************************************************************)
(* All short histories over three faces in two zones.                      *)
(***************************************************************************)
EXTENDS Fields, Json
CONSTANTS MaxLen, Emitting

Tok(k) == <<ToString(k), 8 * k>>
V(ns, k) == [i \in DOMAIN ns |-> <<ns[i]>> \o Tok(k + i)]
Stall5 == <<"Stall", "StallD", "StallVX", "StallVY", "StallVZ">>
Starts == {<<"T", "Hw", "Hi">>, <<"Hi", "T">>, <<"Beta">> \o Stall5, <<"T", "Hw", "Hi", "MImp2">> \o Stall5, <<>>}
Start(ns) == [faces |-> [i \in 1..3 |-> [t |-> i, g |-> i - 1, v |-> V(ns, 10 * i)]], zones |-> << <<1, 2>>, <<3>> >>]

VARIABLES s, hist
vars == <<s, hist>>
Do(o) == hist' = Append(hist, o) /\ s' = Apply(s, o)
Init == \E ns \in Starts : s = Start(ns) /\ hist = <<[op |-> "start", names |-> ns]>>
Files == {[op |-> "load", names |-> <<"T", "Hw", "Hi">>, lines |-> <<[g |-> 1, x |-> <<Tok(7), Tok(8), Tok(9)>>]>>],
          [op |-> "load", names |-> <<"Hi", "Q">>, lines |-> <<[g |-> 2, x |-> <<Tok(5), Tok(6)>>], [g |-> 0, x |-> <<Tok(3), Tok(4)>>]>>],
          [op |-> "load", names |-> <<"T", "Hw", "Hi", "Q">>,
           lines |-> <<[g |-> 2, x |-> <<Tok(1), Tok(2), Tok(2), Tok(1)>>], [g |-> 2, x |-> <<Tok(2), Tok(4), Tok(4), Tok(2)>>]>>]}
Next ==
    /\ Len(hist) <= MaxLen
    /\ \/ \E f \in {1, 3}, n \in {"T", "MImp2"} : Do([op |-> "set", f |-> f, n |-> n, x |-> Tok(50 + f)])
       \/ \E o \in Files : Do(o)
       \/ Do([op |-> "clean"]) \/ Do([op |-> "again"])
       \/ AllStall(s) /\ s.faces[1].v # <<>> /\ Do([op |-> "checkpoint"])
       \/ \E f \in {1, 3}, n \in {"MImp2", "Q"} : hist[Len(hist)].op # "get" /\ Do([op |-> "get", f |-> f, n |-> n])
       \/ hist[Len(hist)].op # "write" /\ Do([op |-> "write"])
Spec == Init /\ [][Next]_vars

NamesDiffer == \A i \in DOMAIN s.faces : \A a, b \in DOMAIN s.faces[i].v : a # b => s.faces[i].v[a][1] # s.faces[i].v[b][1]
\* Written and read: nothing is lost, once is enough, the triangles stay.
NothingLost == LET a == Again(s) IN
    /\ \A i \in DOMAIN s.faces : \E j \in DOMAIN a.faces :
         a.faces[j].t = s.faces[i].t /\ \A n \in FRng(Names(s)) \cup {"none"} : Val(a.faces[j].v, n) = Val(s.faces[i].v, n)
    /\ Again(a) = a /\ Cardinality({a.faces[j].t : j \in DOMAIN a.faces}) = Len(s.faces)
CleanTwice == LET c == Apply(s, [op |-> "clean"]) IN
    /\ Apply(c, [op |-> "clean"]) = c
    /\ \A i \in DOMAIN c.faces : /\ \A k \in 1..3 : Val(c.faces[i].v, Three[k]) = Zero
                                 /\ \A n \in FRng(Names(s)) \ FRng(Three) : Val(c.faces[i].v, n) = Val(s.faces[i].v, n)
CheckpointOnly == LET c == Apply(s, [op |-> "checkpoint"]) IN
    \A i \in DOMAIN c.faces : \A n \in FRng(Names(s)) : Val(c.faces[i].v, n) = IF n \in Stalls THEN Zero ELSE Val(s.faces[i].v, n)
\* Results written just now and loaded are results of the same faces.
OwnLines == LET ls == [i \in DOMAIN s.faces |-> [g |-> s.faces[i].g, x |-> [c \in 1..3 |-> Val(s.faces[i].v, Three[c])]]]
                a == Apply(s, [op |-> "load", names |-> Three, lines |-> ls]) IN
    /\ RightLines(s, ls)
    /\ \A i \in DOMAIN s.faces : \A c \in 1..3 : Val(a.faces[i].v, Three[c]) = Val(s.faces[i].v, Three[c])
Emit == Emitting /\ Len(hist) = MaxLen + 1 => PrintT(ToJson(hist))
=============================================================================
