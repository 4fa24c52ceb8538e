------------------------------ MODULE TraceBulk -----------------------------
(***************************************************************************)
(* Many additions by real goroutines at once. Every addition has to give a *)
(* total that includes it and that no other one gives: sorted by result,   *)
(* each result is the one before plus its amount. Difference snapshots     *)
(* taken meanwhile and at the end add up to the total.                     *)
(***************************************************************************)
EXTENDS Counters, TLC, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tid, l, sum
vars == << tid, l, sum >>

F(c, labs, why) == IF c THEN {} ELSE {[lab |-> labs, why |-> why]}
Report(fs) == \A f \in fs : PrintT("FAIL " \o ToJson([tid |-> tid, l |-> l + 1, op |-> Traces[tid].op, lab |-> f.lab, why |-> f.why]))

B == Traces[tid]
IsMax == B.op \in {"madd", "mmix"}
RECURSIVE Total(_, _, _)
Total(s, k, acc) == IF k > Len(s) THEN acc ELSE Total(s, k + 1, Plus(acc, s[k]))

Init == tid \in 1..Len(Traces) /\ l = 0 /\ sum = Zero

Next == /\ l <= Len(B.adds)
        /\ IF l < Len(B.adds)
           THEN LET s == Plus(sum, B.adds[l + 1][1]) IN
                /\ Report(F(IsMax \/ s = B.adds[l + 1][2], {"C17"}, "total of an addition"))
                /\ sum' = IF IsMax THEN s ELSE B.adds[l + 1][2]
           ELSE /\ Report(F(sum = B.total, {IF IsMax THEN "C18" ELSE "C17"}, "total of all additions")
                          \cup F(~IsMax => Total(B.diffs, 1, Zero) = B.total, {"C17"}, "sum of differences")
                          \cup F(B.other = Zero, {"C17"}, "other half of the flow counter changed")
                          \cup F(B.op = "madd" => B.max = B.total, {"C18"}, "maximum of additions")
                          \cup F(IsMax => AtMost(B.total, B.max), {"C18"}, "maximum below the value")
                          \cup F(IsMax => \A k \in 1..Len(B.load) : /\ AtMost(B.load[k], B.max)
                                                                      /\ k > 1 => AtMost(B.load[k - 1], B.load[k]),
                                 {"C18"}, "maximum went back"))
                /\ UNCHANGED sum
        /\ l' = l + 1
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
TypeOK == l \in 0..(Len(B.adds) + 1)
=============================================================================
