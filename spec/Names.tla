------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names of the files of the calculation cycle.                            *)
(*   <stem>.dat, <stem>_<timestamp>.dat      grids                         *)
(*   <stem>_<process>_<timestamp>.cry/.txt   calculation / result files    *)
(*   <stem>_r_<timestamp>.dat                merged grids                  *)
(* process : 5 digits, timestamp : 12 digits.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
At(s, i) == SubSeq(s, i, i)
Digits(s) == \A i \in 1..Len(s) : At(s, i) \in Digit
First(s, n) == SubSeq(s, 1, n)
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
EndsWith(s, x) == Len(s) >= Len(x) /\ Last(s, Len(x)) = x

ZeroTs == "000000000000"

\* name without extension
HasTs(s) == Len(s) >= 13 /\ At(s, Len(s) - 12) = "_" /\ Digits(Last(s, 12))
Stem(s) == IF HasTs(s) THEN First(s, Len(s) - 13) ELSE s
Ts(s) == IF HasTs(s) THEN Last(s, 12) ELSE ZeroTs

\* file of a process: <stem>_ddddd_dddddddddddd.<ext>
IsOf(fn, stem, ext) ==
    LET k == Len(stem) IN
    /\ Len(fn) = k + 20 + Len(ext)
    /\ First(fn, k) = stem
    /\ At(fn, k + 1) = "_" /\ Digits(SubSeq(fn, k + 2, k + 6))
    /\ At(fn, k + 7) = "_" /\ Digits(SubSeq(fn, k + 8, k + 19))
    /\ Last(fn, Len(ext) + 1) = "." \o ext
TsOfFile(fn) == SubSeq(fn, Len(fn) - 15, Len(fn) - 4)

D1(n) == SubSeq("0123456789", n + 1, n + 1)
Five(n) == "0000" \o D1(n)          \* process numbers below 10
CryName(stem, i, ts) == stem \o "_" \o Five(i) \o "_" \o ts \o ".cry"
TxtName(stem, i, ts) == stem \o "_" \o Five(i) \o "_" \o ts \o ".txt"
MergedName(stem, ts) == stem \o "_r_" \o ts \o ".dat"
NoExt(fn) == First(fn, Len(fn) - 4)

\* name of the remeshed grid of a (merged) grid
IsMerged(fn) == Len(fn) >= 19 /\ SubSeq(fn, Len(fn) - 18, Len(fn) - 16) = "_r_" /\ Digits(SubSeq(fn, Len(fn) - 15, Len(fn) - 4))
RemeshedName(fn) == IF IsMerged(fn) THEN First(fn, Len(fn) - 19) \o "_" \o Last(fn, 16) ELSE fn
=============================================================================
