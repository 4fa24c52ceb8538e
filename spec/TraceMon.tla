------------------------------ MODULE TraceMon ------------------------------
(***************************************************************************)
(* Validation of recorded histories of concurrent counter calls: TLC looks *)
(* for moments between the beginning and the end of every call at which    *)
(* its steps take effect so that all results are explained. A history that *)
(* has none is broken; it is one whose end ("DONE") is never printed.      *)
(***************************************************************************)
EXTENDS Counters, TLC, Json

CONSTANT TraceFile, NThreads

Traces == ndJsonDeserialize(TraceFile)
T == 0..NThreads

VARIABLES tid, l, w, pend
vars == << tid, l, w, pend >>

None == [op |-> "", n |-> Zero, r |-> << >>, todo |-> {}, v |-> Zero]

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0
        /\ w = Start(T)
        /\ pend = [t \in T |-> None]

Ev == Traces[tid].ev
More == l < Len(Ev)

Begin == /\ More /\ Ev[l + 1].k = "inv"
         /\ LET e == Ev[l + 1] IN
            /\ pend[e.t].op = ""
            /\ pend' = [pend EXCEPT ![e.t] = [op |-> e.op, n |-> e.n, r |-> e.r, todo |-> Steps(e.op), v |-> Zero]]
         /\ l' = l + 1
         /\ UNCHANGED << tid, w >>

\* steps are put off until a call has to end
Effect == /\ More /\ Ev[l + 1].k = "ret" /\ pend[Ev[l + 1].t].todo # {}
          /\ \E t \in T : \E st \in pend[t].todo :
               \E ef \in Effects(w, t, pend[t].op, pend[t].n, st) :
                 /\ Agrees(ef[2], pend[t].r)
                 /\ w' = ef[1]
                 /\ pend' = [pend EXCEPT ![t].todo = @ \ {st}, ![t].v = ef[1].val["m"]]
          /\ UNCHANGED << tid, l >>

End == /\ More /\ Ev[l + 1].k = "ret"
       /\ LET e == Ev[l + 1] IN
          /\ pend[e.t].op = e.op /\ pend[e.t].todo = {}
          /\ w' = Ended(w, e.op, pend[e.t].v)
          /\ pend' = [pend EXCEPT ![e.t] = None]
       /\ l' = l + 1
       /\ (l + 1 = Len(Ev) => PrintT("DONE " \o ToString(tid)))
       /\ UNCHANGED tid

Next == Begin \/ Effect \/ End
Spec == Init /\ [][Next]_vars

TypeOK == /\ l \in 0..Len(Ev)
          /\ w.floor \in w.had
=============================================================================
