------------------------------- MODULE Pipeline -------------------------------
(* Building modules on several threads: a loader feeds a bounded queue, workers take
   from it and send results back, and the loader merges results in the order the
   modules were queued.  Whatever the schedule, everything queued is built exactly
   once and merged in order, the verdict is the worst verdict among what was built,
   and the build ends.  The verdicts and the saved certificates of a serial build are
   the same function of the same modules, so a parallel build may not differ.     *)
EXTENDS MBV
CONSTANTS NMods, NWorkers, Cap
VARIABLES verdict, next, queue, closed, working, results, merged, pending, status, phase
vars == <<verdict, next, queue, closed, working, results, merged, pending, status, phase>>
Idx == 1..NMods
Workers == 1..NWorkers
Worst(a, b) == IF a = "error" \/ b = "error" THEN "error" ELSE IF a = "warning" \/ b = "warning" THEN "warning" ELSE "good"
Init == /\ verdict \in [Idx -> {"good", "warning", "error"}]
        /\ next = 1 /\ queue = {} /\ closed = FALSE
        /\ working = [w \in Workers |-> 0]
        /\ results = {} /\ merged = <<>> /\ pending = {} /\ status = "good" /\ phase = "load"
RECURSIVE MergeReady(_, _, _)
\* results waiting in p are merged while the next index is among them
MergeReady(m, p, s) == IF (Len(m) + 1) \in p
                       THEN MergeReady(Append(m, Len(m) + 1), p \ {Len(m) + 1}, Worst(s, verdict[Len(m) + 1]))
                       ELSE <<m, p, s>>
Receive(r) == LET x == MergeReady(merged, pending \cup {r}, status) IN
              /\ merged' = x[1] /\ pending' = x[2] /\ status' = x[3] /\ results' = results \ {r}
\* the loader takes results when it gets to it, loads, enqueues when there is room, and stops at an error
Drain == /\ phase = "load" /\ \E r \in results : Receive(r)
         /\ UNCHANGED <<verdict, next, queue, closed, working, phase>>
Load == /\ phase = "load" /\ status # "error" /\ next <= NMods /\ Cardinality(queue) < Cap
        /\ queue' = queue \cup {next} /\ next' = next + 1
        /\ UNCHANGED <<verdict, closed, working, results, merged, pending, status, phase>>
Close == /\ phase = "load" /\ (status = "error" \/ next > NMods)
         /\ closed' = TRUE /\ phase' = "wait"
         /\ UNCHANGED <<verdict, next, queue, working, results, merged, pending, status>>
Take(w) == /\ working[w] = 0 /\ queue # {}
           /\ \E q \in queue : queue' = queue \ {q} /\ working' = [working EXCEPT ![w] = q]
           /\ UNCHANGED <<verdict, next, closed, results, merged, pending, status, phase>>
Done(w) == /\ working[w] # 0
           /\ results' = results \cup {working[w]} /\ working' = [working EXCEPT ![w] = 0]
           /\ UNCHANGED <<verdict, next, queue, closed, merged, pending, status, phase>>
Wait == /\ phase = "wait" /\ \E r \in results : Receive(r)
        /\ UNCHANGED <<verdict, next, queue, closed, working, phase>>
End == /\ phase = "wait" /\ queue = {} /\ results = {} /\ \A w \in Workers : working[w] = 0
       /\ phase' = "done"
       /\ UNCHANGED <<verdict, next, queue, closed, working, results, merged, pending, status>>
Next == Drain \/ Load \/ Close \/ Wait \/ End \/ \E w \in Workers : Take(w) \/ Done(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) 
RECURSIVE WorstOf(_)
WorstOf(n) == IF n = 0 THEN "good" ELSE Worst(WorstOf(n - 1), verdict[n])
Ended == phase = "done" => /\ Len(merged) = next - 1 /\ pending = {}
                           /\ status = WorstOf(next - 1)
                           /\ (status # "error" => next = NMods + 1)
                           /\ (status = "error") = (WorstOf(NMods) = "error" /\ status = "error")
Ordered == \A j \in 1..Len(merged) : merged[j] = j
Once == \A m \in Idx : Cardinality({w \in Workers : working[w] = m})
            + (IF m \in queue THEN 1 ELSE 0) + (IF m \in results \cup pending THEN 1 ELSE 0)
            + (IF m <= Len(merged) THEN 1 ELSE 0) = (IF m < next THEN 1 ELSE 0)
Ends == <>(phase = "done")
=============================================================================
