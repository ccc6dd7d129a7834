----------------------------- MODULE EpochsTrace -----------------------------
(* What callers of the server's project manager may rely on, checked on recorded
   runs of the real one.  A recorded run is a sequence of steps; a step has the
   events it caused and the processes whose token was cancelled after it. *)
EXTENDS MBV, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES t, k, count, done, ps
vars == <<t, k, count, done, ps>>

Idle == [st |-> "idle", kind |-> "", epoch |-> -1, number |-> 0]
Proc(q, p) == IF p \in DOMAIN q THEN q[p] ELSE Idle

\* one event on [count, done (highest number of a finished change), ps, bad]
Apply(s, e) ==
  LET me == Proc(s.ps, e.p)
      put(r) == [s EXCEPT !.ps = (e.p :> r) @@ s.ps]
      fail(msg) == [s EXCEPT !.bad = @ \cup {msg}] IN
  CASE e.e = "invoke" -> put([Idle EXCEPT !.st = "busy", !.kind = e.kind, !.epoch = e.epoch])
    [] e.e = "apply" ->
         LET s1 == put([me EXCEPT !.number = s.count + 1]) IN
         [s1 EXCEPT !.count = @ + 1, !.bad = @ \cup
            (IF me.st # "busy" \/ me.kind = "read" \/ me.number # 0 THEN {"changed twice, or by nobody"} ELSE {})
            \cup (IF \E q \in DOMAIN s.ps : s.ps[q].st = "view" THEN {"changed while someone was looking"} ELSE {})
            \cup (IF me.kind = "mutateif" /\ me.epoch # s.count THEN {"a stale conditional change was made"} ELSE {})]
    [] e.e = "done" ->
         LET s1 == put([Idle EXCEPT !.st = "idle"]) IN
         [s1 EXCEPT !.done = IF e.ok /\ me.number > @ THEN me.number ELSE @, !.bad = @ \cup
            (IF e.ok /\ me.number = 0 THEN {"reported a change that was not made"} ELSE {})
            \cup (IF ~e.ok /\ me.number # 0 THEN {"made a change and reported that it did not"} ELSE {})
            \cup (IF ~e.ok /\ me.epoch = s.count THEN {"a current conditional change was refused"} ELSE {})
            \cup (IF e.epoch # -1 /\ e.epoch # me.number THEN {"wrong epoch returned"} ELSE {})]
    [] e.e = "view" ->
         LET s1 == put([me EXCEPT !.st = "view", !.epoch = e.epoch]) IN
         [s1 EXCEPT !.bad = @ \cup (IF e.epoch # s.count THEN {"a view has another epoch than its project"} ELSE {})]
    [] e.e = "drop" -> put([me EXCEPT !.st = "kept"])
    [] e.e = "forget" -> put(Idle)
    [] e.e = "stuck" -> fail("an operation never ends")
    [] OTHER -> fail("panic")

RECURSIVE Fold(_, _)
Fold(s, es) == IF es = << >> THEN s ELSE Fold(Apply(s, Head(es)), Tail(es))

Tokens(s, c) ==
  LET cs == {c[i] : i \in 1..Len(c)}
      held == {p \in DOMAIN s.ps : s.ps[p].st \in {"view", "kept"}}
      coming(e) == \E q \in DOMAIN s.ps : s.ps[q].st = "busy" /\
                      (s.ps[q].kind = "mutate" \/ (s.ps[q].kind = "mutateif" /\ s.ps[q].epoch = e)) IN
  (IF \E p \in held \cap cs : s.count = s.ps[p].epoch /\ ~coming(s.ps[p].epoch)
   THEN {"stopped although nothing changes"} ELSE {})
  \cup (IF \E p \in held \ cs : s.done > s.ps[p].epoch
        THEN {"not stopped although the project changed"} ELSE {})

Init == t = 1 /\ k = 1 /\ count = 0 /\ done = 0 /\ ps = << >>
Next ==
  /\ t <= Len(Traces)
  /\ LET tr == Traces[t]
         s == Fold([count |-> count, done |-> done, ps |-> ps, bad |-> {}], tr[k].evs)
         bad == s.bad \cup Tokens(s, tr[k].c) IN
     IF bad # {} \/ k = Len(tr)
     THEN /\ IF bad # {} THEN Say("BAD", [trace |-> t, step |-> k, rules |-> bad]) ELSE TRUE
          /\ t' = t + 1 /\ k' = 1 /\ count' = 0 /\ done' = 0 /\ ps' = << >>
     ELSE /\ t' = t /\ k' = k + 1 /\ count' = s.count /\ done' = s.done /\ ps' = s.ps
Spec == Init /\ [][Next]_vars
=============================================================================
