------------------------------- MODULE Epochs -------------------------------
(* The language server's project, shared by saves (which change it), build tasks
   (which change it only if nobody else has since: they name the epoch they
   started from) and readers (which look at it and take the token that tells a
   build to stop).

   Every operation is a coroutine that can be suspended at each lock it takes; a
   step here is what it does from one suspension to the next.  The project lock
   is fair: who waits for it gets it in order.  The token has its own lock, never
   held across a suspension, so it needs no state here.

   Both switches FALSE is the code as it was found: CheckAndCancelTogether, whether
   a conditional mutation compares the epoch and cancels the token in one step;
   CancelReplaced, whether a mutation cancels the token it replaces, which need
   not be the one it cancelled before it waited. *)
EXTENDS MBV

CONSTANTS Procs, MaxOps, CheckAndCancelTogether, CancelReplaced, Emitting, Steps, Pick(_)

VARIABLES
  count,    \* mutations applied so far; the project is the sequence of them
  epoch,    \* the counter
  token,    \* current token; tokens are numbered
  cancelled,\* set of cancelled tokens
  lock,     \* [readers: set of processes, writer: process or 0]
  queue,    \* waiting processes, in order
  pc, arg,  \* per process: where it is; the epoch it names, or the view it has
  ops, hist

vars == <<count, epoch, token, cancelled, lock, queue, pc, arg, ops, hist>>

NoArg == [epoch |-> -1, tok |-> -1, snap |-> -1]

Log(a) == hist' = IF Emitting THEN Append(hist, a) ELSE hist

Init == /\ count = 0 /\ epoch = 0 /\ token = 0 /\ cancelled = {}
        /\ lock = [readers |-> {}, writer |-> 0] /\ queue = << >>
        /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> NoArg]
        /\ ops = 0 /\ hist = << >>

Wants(p) == IF pc[p] \in {"rlock", "rwait"} THEN "read" ELSE "write"
Free(l, w) == l.writer = 0 /\ (w = "read" \/ l.readers = {})
Take(l, p, w) == IF w = "read" THEN [l EXCEPT !.readers = @ \cup {p}] ELSE [l EXCEPT !.writer = p]
\* whoever is first in line gets the lock as soon as it is free for them
RECURSIVE Grant(_, _)
Grant(l, q) == IF q = << >> \/ ~Free(l, Wants(Head(q))) THEN <<l, q>>
               ELSE Grant(Take(l, Head(q), Wants(Head(q))), Tail(q))
Has(p) == lock.writer = p \/ p \in lock.readers

To(p, where) == pc' = [pc EXCEPT ![p] = where]

Start(p) ==
  /\ pc[p] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
  /\ \E k \in Pick({"mutate", "mutateif", "read"}) :
     \E e \in Pick(IF k = "mutateif" THEN {x \in {epoch, epoch - 1} : x >= 0} ELSE {-1}) :
       /\ To(p, IF k = "read" THEN "rlock" ELSE k)
       /\ arg' = [arg EXCEPT ![p] = [NoArg EXCEPT !.epoch = e]]
       /\ Log([op |-> "start", p |-> p, kind |-> k, epoch |-> e])
  /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue>>

\* (part of starting) the conditional mutation compares the epoch before its first suspension
FirstLook(p) ==
  /\ pc[p] = "mutateif"
  /\ To(p, IF arg[p].epoch = epoch THEN "ifcancel" ELSE "failed")
  /\ Log([op |-> "poll", p |-> p])
  /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue, arg, ops>>

CancelToken(p) ==
  /\ pc[p] \in {"mutate", "ifcancel"}
  /\ IF pc[p] = "ifcancel" /\ CheckAndCancelTogether /\ arg[p].epoch # epoch
     THEN To(p, "failed") /\ UNCHANGED cancelled
     ELSE To(p, IF pc[p] = "mutate" THEN "wlock" ELSE "ifwlock") /\ cancelled' = cancelled \cup {token}
  /\ Log([op |-> "poll", p |-> p])
  /\ UNCHANGED <<count, epoch, token, lock, queue, arg, ops>>

\* Takes the project lock, or gets in line for it.
Ask(p) ==
  /\ pc[p] \in {"wlock", "ifwlock", "rlock"}
  /\ LET w == Wants(p)
         next == CASE pc[p] = "wlock" -> "wgot" [] pc[p] = "ifwlock" -> "ifgot" [] OTHER -> "rgot"
         wait == CASE pc[p] = "wlock" -> "wwait" [] pc[p] = "ifwlock" -> "ifwait" [] OTHER -> "rwait" IN
     IF queue = << >> /\ Free(lock, w)
     THEN lock' = Take(lock, p, w) /\ To(p, next) /\ UNCHANGED queue
     ELSE queue' = Append(queue, p) /\ To(p, wait) /\ UNCHANGED lock
  /\ UNCHANGED <<count, epoch, token, cancelled, arg, ops, hist>>
Waited(p) ==
  /\ pc[p] \in {"wwait", "ifwait", "rwait"} /\ Has(p)
  /\ To(p, CASE pc[p] = "wwait" -> "wgot" [] pc[p] = "ifwait" -> "ifgot" [] OTHER -> "rgot")
  /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue, arg, ops, hist>>

Release(p) == LET l == [readers |-> lock.readers \ {p}, writer |-> IF lock.writer = p THEN 0 ELSE lock.writer]
                  g == Grant(l, queue)
              IN lock' = g[1] /\ queue' = g[2]

\* With the lock in hand: change the project and count it, up to the next suspension.
Apply(p) ==
  /\ pc[p] \in {"wgot", "ifgot"}
  /\ IF pc[p] = "ifgot" /\ arg[p].epoch # epoch
     THEN To(p, "failed") /\ Release(p) /\ UNCHANGED <<count, epoch>>
     ELSE To(p, "newtoken") /\ count' = count + 1 /\ epoch' = epoch + 1 /\ UNCHANGED <<lock, queue>>
  /\ Log([op |-> "poll", p |-> p])
  /\ UNCHANGED <<token, cancelled, arg, ops>>
NewToken(p) ==
  /\ pc[p] = "newtoken" /\ token' = token + 1 /\ To(p, "idle") /\ Release(p)
  /\ cancelled' = IF CancelReplaced THEN cancelled \cup {token} ELSE cancelled
  /\ Log([op |-> "poll", p |-> p])
  /\ UNCHANGED <<count, epoch, arg, ops>>
Look(p) ==
  /\ pc[p] = "rgot" /\ To(p, "view")
  /\ arg' = [arg EXCEPT ![p] = [epoch |-> epoch, tok |-> token, snap |-> count]]
  /\ Log([op |-> "poll", p |-> p])
  /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue, ops>>
Unlock(p) ==
  /\ pc[p] = "view" /\ To(p, "kept") /\ Release(p)
  /\ Log([op |-> "drop", p |-> p])
  /\ UNCHANGED <<count, epoch, token, cancelled, arg, ops>>
\* a build that keeps the token of a view it has let go of; a failed caller
Forget(p) ==
  /\ pc[p] \in {"kept", "failed"} /\ To(p, "idle")
  /\ Log([op |-> "forget", p |-> p])
  /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue, arg, ops>>

Step(p) == \/ Start(p) \/ FirstLook(p) \/ CancelToken(p) \/ Ask(p) \/ Waited(p) \/ Apply(p)
           \/ NewToken(p) \/ Look(p) \/ Unlock(p) \/ Forget(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(FirstLook(p) \/ CancelToken(p) \/ Ask(p)
          \/ Waited(p) \/ Apply(p) \/ NewToken(p) \/ Look(p) \/ Unlock(p) \/ Forget(p))

---------------------------------------------------------------------------
Pending(p) == pc[p] \in {"mutate", "wlock", "wwait", "wgot", "newtoken"}
\* A conditional mutation that may still succeed as far as it knows.
PendingIf(p, e) == pc[p] \in {"mutateif", "ifcancel", "ifwlock", "ifwait", "ifgot", "newtoken"} /\ arg[p].epoch = e

Exclusive == lock.writer # 0 => lock.readers = {}
ViewIsSnapshot == \A p \in Procs : pc[p] = "view" => arg[p].epoch = count /\ arg[p].snap = count
\* A build is told to stop only because the project changes after what it looked at ...
StoppedForAReason == \A p \in Procs : (pc[p] \in {"view", "kept"} /\ arg[p].tok \in cancelled) =>
    \/ count > arg[p].epoch
    \/ \E q \in Procs : Pending(q) \/ PendingIf(q, arg[p].epoch)
\* ... and is always told when it has changed.
StoppedWhenChanged == \A p \in Procs : (pc[p] = "kept" /\ count > arg[p].epoch) =>
    arg[p].tok \in cancelled \/ \E q \in Procs : pc[q] = "newtoken"
CountIsEpoch == count = epoch
Quiet == \A p \in Procs : pc[p] = "idle"
EverythingEnds == []<>(\A p \in Procs : pc[p] = "idle")

Finish == /\ Emitting /\ Len(hist) >= Steps /\ Say("TRACE", hist) /\ hist' = << >>
          /\ ops' = MaxOps + 1
          /\ UNCHANGED <<count, epoch, token, cancelled, lock, queue, pc, arg>>
GenNext == IF Len(hist) >= Steps THEN Finish ELSE (ops <= MaxOps /\ Next)
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
