------------------------------ MODULE BuildTrace ------------------------------
(* Checks recorded histories of the real build system against BuildContent's
   meaning of the sources and the rules of BuildSystem.  One behaviour per recorded
   history; every rule a step breaks is printed as BAD.                        *)
EXTENDS BuildContent, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES i, k, st
NoEntry == <<>>
Stale == [d \in {0} |-> Absent]
Start == [src |-> [m \in Mods |-> Absent], man |-> {}, goodAt |-> [m \in Mods |-> NoEntry],
          certAt |-> [m \in Mods |-> NoEntry], certs |-> [m \in Mods |-> <<>>], okAt |-> [m \in Mods |-> NoEntry]]

Elems(q) == {q[j] : j \in 1..Len(q)}
Count(q, g) == Cardinality({j \in 1..Len(q) : q[j] = g})
Filter(q, S) == LET RECURSIVE f(_) f(j) == IF j > Len(q) THEN <<>> ELSE
                    (IF q[j] \in S THEN <<q[j]>> ELSE <<>>) \o f(j + 1) IN f(1)
UpTo(n) == [j \in 1..n |-> j]
Targets(s, t) == IF t = 0 THEN {m \in Mods : Present(s, m)} ELSE {t}

VerifyProblems(s, e) ==
    LET o == e.obs
        src == s.src
        T == Targets(src, e.t)
        Run == {m \in Mods : o.st[m] = "run"}
        Skip == {m \in Mods : o.st[m] = "skip"}
        Failed(m) == Elems(o.failed[m])
        Ok == {m \in Run : Failed(m) = {}}
        loadErr == \E m \in T : ~Loads(src, m)
        saves == ~loadErr /\ e.kind # "force"
        Old(m) == s.certs[m]
        New(m) == o.certs[m]
        expectMan == Ok \cup Skip \cup (IF e.t = 0 THEN {} ELSE s.man \ Run)
        unchanged == ~loadErr /\ \A m \in T : s.goodAt[m] = Snapshot(src, m) /\ s.certAt[m] = Snapshot(src, m)
        P(name, ok) == IF ok THEN {} ELSE {name}
    IN  P("verdict: verdict differs from a from-scratch verification", o.status \in FreshVerify(src, T))
        \cup P("verdict: a module outside the targets was built", (Run \cup Skip) \subseteq T)
        \cup P("verdict: a target was neither built nor skipped",
               loadErr \/ e.kind = "failfast" \/ T \subseteq (Run \cup Skip))
        \cup P("verdict: goals reported failed are not the unprovable ones",
               loadErr \/ \A m \in Run : /\ Failed(m) \subseteq MayFail(src, m)
                                         /\ (e.kind # "failfast" => MustFail(src, m) \subseteq Failed(m)))
        \cup P("verdict: skipped a module that was not verified with these sources",
               \A m \in Skip : e.kind \notin {"nohash", "force"} /\ s.goodAt[m] = Snapshot(src, m))
        \cup P("saved: files changed by a build that must not write", saves \/ o.same = 1)
        \cup P("saved: manifest entries", ~saves \/ {m \in Mods : o.man[m] = 1} = expectMan)
        \cup P("saved: certificates of a module that was not built changed",
               \A m \in Mods \ Run : New(m) = Old(m))
        \cup P("saved: certificates after a successful build are not those of the goals, in order",
               ~(saves /\ o.status = "good") \/ \A m \in Run : New(m) = UpTo(Len(src[m].thms)))
        \cup P("saved: certificates lost or invented by a build with warnings",
               ~(saves /\ o.status = "warning") \/
               \A m \in Run : \A g \in 1..2 :
                  /\ Count(New(m), g) >= Count(Old(m), g)
                  /\ Count(New(m), g) <= Count(Old(m), g) + (IF g \in Failed(m) THEN 0 ELSE 1)
                  /\ (e.kind # "failfast" /\ g \in (1..Len(src[m].thms)) \ Failed(m)) => Count(New(m), g) > 0)
        \cup P("saved: proved goals' certificates do not come first",
               ~(saves /\ o.status = "warning" /\ e.kind # "failfast") \/
               \A m \in Run : LET pr == Filter(UpTo(Len(src[m].thms)), (1..2) \ Failed(m))
                              IN Len(New(m)) >= Len(pr) /\ SubSeq(New(m), 1, Len(pr)) = pr)
        \cup P("cache: proof search in an unchanged verified project",
               ~unchanged \/ e.kind = "force" \/ o.searches = 0)

AfterVerify(s, e) ==
    LET o == e.obs
        src == s.src
        T == Targets(src, e.t)
        Run == {m \in Mods : o.st[m] = "run"}
        Skip == {m \in Mods : o.st[m] = "skip"}
        Ok == {m \in Run : o.failed[m] = <<>>}
        saves == (\A m \in T : Loads(src, m)) /\ e.kind # "force"
        man2 == {m \in Mods : o.man[m] = 1}
    IN [s EXCEPT !.man = man2,
                 !.certs = o.certs,
                 !.goodAt = IF ~saves THEN @ ELSE
                     [m \in Mods |-> IF m \in Ok \cup Skip THEN Snapshot(src, m)
                                     ELSE IF m \in man2 THEN s.goodAt[m] ELSE NoEntry],
                 !.okAt = IF ~saves THEN @ ELSE
                     [m \in Mods |-> IF m \in Ok \cup Skip THEN Snapshot(src, m)
                                     ELSE IF m \in Run THEN NoEntry ELSE s.okAt[m]],
                 !.certAt = IF ~saves THEN @ ELSE
                     [m \in Mods |-> IF m \in Ok THEN Snapshot(src, m)
                                     ELSE IF m \in Run THEN Stale ELSE s.certAt[m]]]

CheckProblems(s, e) ==
    LET o == e.obs
        src == s.src
        T == Targets(src, e.t)
        loads == \A m \in T : Loads(src, m)
        axiom == e.strict = 1 /\ \E m \in T : src[m].k = "axiom"
        P(name, ok) == IF ok THEN {} ELSE {name}
    IN  P("check: check verdict", o.status \in {"good", "error"})
        \cup P("check: check passed sources that do not load", o.status = "good" => loads)
        \cup P("check: check passed an unprovable goal",
               o.status = "good" => \A m \in T : MustFail(src, m) = {})
        \cup P("check: check passed a goal with no certificate",
               o.status = "good" => \A m \in T : (1..Len(src[m].thms)) \subseteq Elems(s.certs[m]))
        \cup P("check: strict check passed an axiom", o.status = "good" => ~axiom)
        \cup P("check: check failed after a successful verification of these sources",
               (loads /\ ~axiom /\ \A m \in T : src[m].thms = <<>> \/ s.certAt[m] = Snapshot(src, m)
                                                  \/ s.okAt[m] = Snapshot(src, m))
                 => o.status = "good")
        \cup P("check: check changed files", o.same = 1)
        \cup P("check: check searched for proofs", o.searches = 0)

(* A verification that died while saving.  o.certs and o.man are what is on disk now;
   o.kept[m] = 1 iff m's certificate file is unchanged, o.manKept = 1 iff the manifest is,
   o.config = 1 iff acorn.toml still holds the user's settings. *)
CrashProblems(s, e) ==
    LET o == e.obs
        T == Targets(s.src, e.t)
        now == {m \in Mods : o.man[m] = 1}
        P(name, ok) == IF ok THEN {} ELSE {name}
    IN  P("crash: certificates of a module outside the build changed",
          \A m \in Mods \ T : o.kept[m] = 1)
        \cup P("crash: a certificate file is cut short or empty",
               \A m \in Mods : -1 \notin Elems(o.certs[m]))
        \cup P("crash: certificates lost",
               \A m \in T : \A g \in 1..2 :
                  g \notin MustProve(s.src, m) \/ Count(o.certs[m], g) >= Count(s.certs[m], g)
                                                \/ Count(o.certs[m], g) = 1)
        \cup P("crash: the manifest is neither the old one, the new one nor absent",
               o.manKept = 1 \/ now = {} \/ o.done = 1)
        \cup P("crash: the user's settings are damaged", o.config = 1)
AfterCrash(s, e) ==
    LET o == e.obs
        now == {m \in Mods : o.man[m] = 1}
        T == Targets(s.src, e.t)
        perhaps(m) == MayFail(s.src, m) = {} /\ m \in T
    IN [s EXCEPT !.man = now, !.certs = o.certs,
                 !.okAt = [m \in Mods |-> NoEntry],
                 !.goodAt = [m \in Mods |-> IF m \notin now THEN NoEntry
                                            ELSE IF o.manKept = 1 THEN s.goodAt[m]
                                            ELSE IF perhaps(m) THEN Snapshot(s.src, m) ELSE s.goodAt[m]],
                 !.certAt = [m \in Mods |-> IF o.kept[m] = 1 THEN s.certAt[m] ELSE Stale]]

Problems(s, e) == IF e.op = "crash" THEN CrashProblems(s, e) ELSE IF e.op = "edit" THEN {}
                  ELSE IF e.obs.status \notin {"good", "warning", "error"} THEN {"verdict: the build " \o e.obs.status, "check: the build " \o e.obs.status, "saved: the build " \o e.obs.status}
                  ELSE IF e.op = "verify" THEN VerifyProblems(s, e) ELSE CheckProblems(s, e)
After(s, e) == IF e.op = "crash" THEN AfterCrash(s, e) ELSE IF e.op = "edit" THEN [s EXCEPT !.src[e.m] = e.c]
               ELSE IF e.op = "verify" /\ e.obs.status \in {"good", "warning", "error"} THEN AfterVerify(s, e) ELSE s

Init == i \in 1..Len(Traces) /\ k = 0 /\ st = Start
Next == /\ k < Len(Traces[i])
        /\ k' = k + 1
        /\ LET e == Traces[i][k + 1] IN
           /\ st' = After(st, e)
           /\ LET bad == Problems(st, e) IN
              IF bad = {} THEN TRUE ELSE Say("BAD", [trace |-> i, step |-> k + 1, rules |-> bad])
        /\ i' = i
Spec == Init /\ [][Next]_<<i, k, st>>
=============================================================================
