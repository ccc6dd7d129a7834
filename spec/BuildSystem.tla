----------------------------- MODULE BuildSystem -----------------------------
(* Histories of edits and builds over one project directory, with what the
   directory remembers between builds.

   good[m]   the manifest entry: the snapshot m was recorded as verified with, or
             NoEntry
   certs[m]  the snapshot m's certificates were last written for with every goal
             proved, or NoEntry

   A module whose entry equals its current snapshot may be skipped.  Transparent
   says that whatever the history, what a verification reports is what a
   from-scratch verification would report; CheckFollows that certificates saved
   by a successful verification pass a check of the same sources.

   KeyedBy = "own" records only the module's own text, and KeepFailed = TRUE keeps
   the entry of a module whose rebuild failed: the two defects this specification
   was found to disagree about with the code; both break the invariants
   (BuildSystem_own.cfg, BuildSystem_keep.cfg).

   A verification may also die while it saves.  Saving = "inplace": certificate
   files are overwritten one by one, then the manifest is replaced; a file being
   overwritten may be left cut short.  "atomic": each file is replaced as a whole.
   "invalidate": as atomic, but the manifest is removed before the first
   certificate file changes.  Only the last keeps CheckFollows.              *)
EXTENDS BuildContent
CONSTANTS Pick(_), MaxOps, Emitting, KeyedBy, KeepFailed, Saving
VARIABLES src, good, certs, report, hist, seen, done

vars == <<src, good, certs, report, hist, seen, done>>
NoEntry == <<>>
Stale == [d \in {0} |-> Absent]   \* not the certificates of any snapshot
Entry(m) == IF KeyedBy = "own" THEN [d \in {m} |-> src[d]] ELSE Snapshot(src, m)

Zeros == [d \in Mods |-> 0]
Quiet == [kind |-> "none", status |-> "none", T |-> {}, src |-> [m \in Mods |-> Absent],
          certs |-> [m \in Mods |-> NoEntry]]
Init == /\ src = [m \in Mods |-> Absent]
        /\ good = [m \in Mods |-> NoEntry]
        /\ certs = [m \in Mods |-> NoEntry]
        /\ report = Quiet
        /\ hist = <<>>
        /\ seen = [m \in Mods |-> {}]
        /\ done = FALSE

Log(e) == hist' = Append(hist, e)
Going == ~done /\ Len(hist) < MaxOps

-----------------------------------------------------------------------------
(* Edits *)
DepChoices(m) == {[d \in Mods |-> IF d \in D THEN 1 ELSE 0] : D \in SUBSET (1..(m-1))}
Put(m, c) == /\ c # src[m]
             /\ src' = [src EXCEPT ![m] = c]
             /\ seen' = [seen EXCEPT ![m] = @ \cup {c}]
             /\ Log([op |-> "edit", m |-> m, c |-> c])
             /\ report' = Quiet
             /\ UNCHANGED <<good, certs, done>>
Create == /\ Going
          /\ \E m \in Pick(Mods), n \in Pick({0, 1}) :
             /\ ~Present(src, m)
             /\ \E ds \in Pick(DepChoices(m)), t \in Pick(IF Emitting THEN {0, 1, 1, 2} ELSE {1}) :
                \E th \in Pick([1..t -> {"T", "F"}]) :
                Put(m, [k |-> "ok", deps |-> ds, neg |-> n, thms |-> th, pad |-> 0])
FlipNeg  == /\ Going /\ \E m \in Pick({m \in Mods : Present(src, m)}) : Put(m, [src[m] EXCEPT !.neg = 1 - @])
FlipPad  == /\ Going /\ Emitting
            /\ \E m \in Pick({m \in Mods : Present(src, m)}) : Put(m, [src[m] EXCEPT !.pad = 1 - @])
FlipThm  == /\ Going
            /\ \E m \in Pick({m \in Mods : Present(src, m) /\ src[m].thms # <<>>}) :
               \E i \in Pick(1..Len(src[m].thms)) :
               Put(m, [src[m] EXCEPT !.thms[i] = IF @ = "T" THEN "F" ELSE "T"])
\* Make every theorem of m true under the present sources.
Repair   == /\ Going /\ Emitting
            /\ \E m \in Pick({m \in Mods : Present(src, m)}) :
               Put(m, [src[m] EXCEPT !.k = "ok",
                       !.thms = [i \in 1..Len(src[m].thms) |-> IF Parity(src, m) = 0 THEN "T" ELSE "F"]])
FlipDep  == /\ Going /\ Emitting
            /\ \E m \in Pick({m \in Mods : Present(src, m) /\ m > 1}) :
               \E d \in Pick(1..(m-1)) : Put(m, [src[m] EXCEPT !.deps[d] = 1 - @])
SetKind  == /\ Going
            /\ \E m \in Pick({m \in Mods : Present(src, m)}), k \in Pick(IF Emitting THEN {"ok", "err", "axiom"} ELSE {"ok", "err"}) :
               Put(m, [src[m] EXCEPT !.k = k])
Restore  == /\ Going /\ Emitting
            /\ \E m \in Pick({m \in Mods : seen[m] # {}}) : \E c \in Pick(seen[m]) : Put(m, c)
Delete   == /\ Going
            /\ \E m \in Pick({m \in Mods : Present(src, m)}) : Put(m, Absent)

-----------------------------------------------------------------------------
(* Builds.  target 0 means everything. *)
Targets(t) == IF t = 0 THEN {m \in Mods : Present(src, m)} ELSE {t}
Skippable(m) == good[m] # NoEntry /\ good[m] = Entry(m)
                /\ \A d \in Below(src, m) : good[d] # NoEntry /\ good[d] = Entry(d)
                /\ certs[m] # NoEntry
Status(F) == IF F = {} THEN "good" ELSE "warning"
MCKind == {"normal"}
EmKind == {"normal", "normal", "nohash", "force", "failfast", "jobs"}
Kinds == IF Emitting THEN EmKind ELSE MCKind

Verify ==
    /\ Going
    /\ \E t \in Pick({0} \cup {m \in Mods : Present(src, m)}), kind \in Pick(Kinds), j \in Pick({1, 4}) :
       LET T == Targets(t)
           skip == IF kind \in {"nohash", "force"} THEN {} ELSE {m \in T : Skippable(m)}
           run == T \ skip
           loadErr == \E m \in T : ~Loads(src, m)
       IN \E bad \in Pick({B \in SUBSET run : \A m \in run :
                                  /\ (MustFail(src, m) # {} => m \in B)
                                  /\ (MayFail(src, m) = {} => m \notin B)}) :
          LET okay == run \ bad
              keep == IF t = 0 THEN {} ELSE Mods \ T
              saves == ~loadErr /\ kind # "force" IN
          /\ T # {}
          /\ report' = [kind |-> "verify", status |-> IF loadErr THEN "error" ELSE Status(bad),
                        T |-> T, src |-> src, certs |-> certs]
          /\ good' = IF ~saves THEN good
                     ELSE [m \in Mods |->
                            IF m \in okay \cup skip THEN Entry(m)
                            ELSE IF t # 0 /\ (m \notin run \/ KeepFailed) THEN good[m]
                            ELSE NoEntry]
          /\ certs' = IF ~saves THEN certs
                      ELSE [m \in Mods |-> IF m \in okay THEN Snapshot(src, m)
                                           ELSE IF m \in bad THEN Stale ELSE certs[m]]
          /\ Log([op |-> "verify", t |-> t, kind |-> kind, jobs |-> j])
          /\ UNCHANGED <<src, seen, done>>

\* A saving verification that dies: some certificate files are written, the manifest
\* is not yet replaced (or everything is, which is Verify).
Crash ==
    /\ Going /\ Saving # "none"
    /\ \E t \in Pick({0} \cup {m \in Mods : Present(src, m)}), nohash \in Pick({TRUE, FALSE}) :
       LET T == Targets(t)
           run == {m \in T : nohash \/ ~Skippable(m)} IN
       /\ T # {} /\ \A m \in T : Loads(src, m)
       /\ \E W \in Pick(SUBSET run), torn \in Pick(IF Saving = "inplace" THEN SUBSET run ELSE {{}}) :
          /\ torn \cap W = {}
          /\ certs' = [m \in Mods |-> IF m \in torn THEN Stale
                                     ELSE IF m \in W THEN (IF MustFail(src, m) = {} THEN Snapshot(src, m) ELSE Stale)
                                     ELSE certs[m]]
          /\ good' = IF Saving = "invalidate" /\ W # {} THEN [m \in Mods |-> NoEntry] ELSE good
          /\ report' = Quiet
          /\ Log([op |-> "crash", t |-> t])
          /\ UNCHANGED <<src, seen, done>>

Check ==
    /\ Going
    /\ \E t \in Pick({0} \cup {m \in Mods : Present(src, m)}), strict \in Pick(IF Emitting THEN {0, 1} ELSE {0}), j \in Pick({1, 4}) :
       LET T == Targets(t)
           fail == \E m \in T : ~Loads(src, m) \/ (certs[m] # Snapshot(src, m) /\ src[m].thms # <<>>) IN
       /\ T # {}
       /\ report' = [kind |-> "check", status |-> IF fail THEN "error" ELSE "good",
                     T |-> T, src |-> src, certs |-> certs]
       /\ Log([op |-> "check", t |-> t, strict |-> strict, jobs |-> j])
       /\ UNCHANGED <<src, good, certs, seen, done>>

-----------------------------------------------------------------------------
(* Generation from a warm start: everything present, true and verified. *)
RECURSIVE MakeTrue(_, _)
MakeTrue(s, m) == IF m > N THEN s
    ELSE MakeTrue([s EXCEPT ![m].thms = [i \in 1..Len(s[m].thms) |-> IF Parity(s, m) = 0 THEN "T" ELSE "F"]], m + 1)
Warm(n, ds, th) == LET s == MakeTrue([m \in Mods |-> [k |-> "ok", deps |-> ds[m], neg |-> n[m],
                                         thms |-> [i \in 1..th[m] |-> "T"], pad |-> 0]], 1)
                   IN  /\ src' = s
                       /\ seen' = [m \in Mods |-> {s[m]}]
                       /\ good' = [m \in Mods |-> Snapshot(s, m)]
                       /\ certs' = [m \in Mods |-> Snapshot(s, m)]
                       /\ hist' = [m \in 1..(N + 1) |-> IF m <= N THEN [op |-> "edit", m |-> m, c |-> s[m]]
                                        ELSE [op |-> "verify", t |-> 0, kind |-> "normal", jobs |-> 1]]
                       /\ UNCHANGED <<report, done>>
WarmStart == /\ hist = <<>> /\ Emitting
             /\ \E n \in Pick([Mods -> {0, 1}]), th \in Pick([Mods -> {1, 2}]), coin \in Pick(1..4) :
                \E d2 \in Pick(IF coin = 1 THEN [Mods -> {0, 1}] ELSE {[m \in Mods |-> 1]}),
                   d3 \in Pick([Mods -> {0, 1}]) :
                Warm(n, [m \in Mods |-> IF m = 2 THEN [d \in Mods |-> IF d < 2 THEN d2[d] ELSE 0]
                                        ELSE [d \in Mods |-> IF d < m THEN d3[d] ELSE 0]], th)
\* A module changes meaning and its own theorems follow.
FlipTrue == /\ Going /\ Emitting
            /\ \E m \in Pick({m \in Mods : Present(src, m)}) :
               LET s == [src EXCEPT ![m].neg = 1 - @] IN
               Put(m, [s[m] EXCEPT !.k = "ok",
                       !.thms = [i \in 1..Len(@) |-> IF Parity(s, m) = 0 THEN "T" ELSE "F"]])

(* Every short history over two modules, the second importing the first, from a
   warm start. *)
EnumStart == hist = <<>> /\ Warm([m \in Mods |-> 0], [m \in Mods |-> [d \in Mods |-> IF d < m THEN 1 ELSE 0]],
                                 [m \in Mods |-> 1])
EnumVerify(t) == /\ Going /\ Log([op |-> "verify", t |-> t, kind |-> "normal", jobs |-> 1])
                 /\ UNCHANGED <<src, good, certs, report, seen, done>>
EnumCheck == /\ Going /\ Log([op |-> "check", t |-> 0, strict |-> 0, jobs |-> 1])
             /\ UNCHANGED <<src, good, certs, report, seen, done>>
EnumEdit(m, c) == Going /\ Put(m, c)
EnumNext == \/ EnumStart
            \/ /\ hist # <<>>
               /\ \/ \E m \in Mods : EnumEdit(m, [src[m] EXCEPT !.pad = 1 - @])
                  \/ \E m \in Mods : EnumEdit(m, [src[m] EXCEPT !.thms[1] = IF @ = "T" THEN "F" ELSE "T"])
                  \/ EnumEdit(1, [src[1] EXCEPT !.neg = 1 - @, !.thms[1] = IF @ = "T" THEN "F" ELSE "T"])
                  \/ \E t \in 0..N : EnumVerify(t)
                  \/ EnumCheck
            \/ Len(hist) = MaxOps /\ hist[MaxOps].op # "edit" /\ ~done /\ done' = TRUE /\ Say("TRACE", hist)
               /\ UNCHANGED <<src, good, certs, report, hist, seen>>
EnumSpec == Init /\ [][EnumNext]_vars

Finish == /\ Emitting /\ ~done /\ Len(hist) = MaxOps
          /\ done' = TRUE
          /\ Say("TRACE", hist)
          /\ UNCHANGED <<src, good, certs, report, hist, seen>>

Edit == Create \/ FlipNeg \/ FlipPad \/ FlipThm \/ Repair \/ FlipDep \/ SetKind \/ Restore \/ Delete
Next == Edit \/ Verify \/ Check \/ Crash
GenStart == IF hist = <<>> THEN WarmStart \/ Create ELSE FALSE
GenNext == \/ GenStart
           \/ /\ hist # <<>>
              /\ Edit \/ FlipTrue \/ Verify \/ Check \/ Verify \/ Verify
           \/ Finish
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars

-----------------------------------------------------------------------------
Transparent == report.kind = "verify" => report.status \in FreshVerify(report.src, report.T)
CheckSound == report.kind = "check" /\ report.status = "good"
                 => \A m \in report.T : Loads(report.src, m) /\ MustFail(report.src, m) = {}
\* A module that could be skipped now has certificates that check now.
CheckFollows == \A m \in Mods : Present(src, m) /\ Loads(src, m) /\ Skippable(m)
                    => certs[m] = Snapshot(src, m)
View == <<src, good, certs, report>>
=============================================================================
