---------------------------- MODULE EditorTasks ----------------------------
(* How the language server keeps what the editor shows up to date.

   A save changes the sources and the project's epoch and starts a task, which
   reloads (if the epoch is still the one it was started for), clears what is
   shown about the modules it is about to build, reports on them one by one
   and finally records the result.  Any later change stops it.  A close changes
   the epoch too.

   Sources: src[m] is the version of module m, and module m depends on the
   modules up[m].  shown[m] is what the sources of m and everything below it
   were when m was last reported on, in a tuple; <<>> if nothing is shown.

   Remember   files whose build was stopped are built by the next task
   Restart    a close that stops a build starts another task
   Scoped     a build clears only what is shown about the modules it builds
   Ordered    an older task never displaces the progress of a newer one      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Mods, Up,  MaxSaves, MaxCloses, Remember, Restart, Scoped, Ordered
VARIABLES src, epoch, gen, due, building, finished, tasks, shown, touched, saves, closes
vars == <<src, epoch, gen, due, building, finished, tasks, shown, touched, saves, closes>>

UpA == [m \in Mods |-> IF m = 2 THEN {1} ELSE {}]
RECURSIVE Below(_)
Below(m) == {m} \cup UNION {Below(d) : d \in Up[m]}
Dependents(R) == {m \in Mods : Below(m) \cap R # {}}
Snap(s, m) == [d \in Below(m) |-> s[d]]

\* A task that has changed the project but not yet announced itself is "announce".
Task(ph, at, root, view, todo) == [ph |-> ph, g |-> at, at |-> at, root |-> root, view |-> view, todo |-> todo]
Init == /\ src = [m \in Mods |-> 0] /\ epoch = 0 /\ gen = 0 /\ due = {} /\ building = FALSE /\ finished = FALSE
        /\ tasks = {} /\ shown = [m \in Mods |-> <<>>] /\ touched = {} /\ saves = 0 /\ closes = 0
Save(m) ==
    /\ saves < MaxSaves
    /\ saves' = saves + 1
    /\ src' = [src EXCEPT ![m] = @ + 1]
    /\ epoch' = epoch + 1
    /\ due' = due \cup {m}
    /\ touched' = touched \cup Dependents({m})
    /\ building' = TRUE
    /\ tasks' = tasks \cup {Task("announce", epoch + 1, {m}, src', {})}
    /\ UNCHANGED <<gen, finished, shown, closes>>
Close ==
    /\ closes < MaxCloses
    /\ closes' = closes + 1
    /\ epoch' = epoch + 1
    /\ tasks' = IF building /\ Restart THEN tasks \cup {Task("announce", epoch + 1, {}, src, {})} ELSE tasks
    /\ UNCHANGED <<src, gen, due, building, finished, shown, touched, saves>>
Replace(t, u) == tasks' = (tasks \ {t}) \cup {u}
Drop(t) == tasks' = tasks \ {t}
Announce(t) ==
    /\ t.ph = "announce"
    /\ IF Ordered /\ gen > t.g
         THEN Drop(t) /\ UNCHANGED <<gen, finished>>
         ELSE gen' = t.g /\ finished' = FALSE /\ Replace(t, [t EXCEPT !.ph = "reload"])
    /\ UNCHANGED <<src, epoch, due, building, shown, touched, saves, closes>>
Reload(t) ==
    /\ t.ph = "reload"
    /\ IF t.at # epoch
         THEN Drop(t) /\ UNCHANGED epoch
         ELSE /\ epoch' = epoch + 1
              /\ Replace(t, [t EXCEPT !.ph = "reset", !.at = epoch + 1, !.view = src,
                                      !.root = IF Remember THEN due ELSE @,
                                      !.todo = Dependents(IF Remember THEN due ELSE t.root)])
    /\ UNCHANGED <<src, gen, due, building, finished, shown, touched, saves, closes>>
Reset(t) ==
    /\ t.ph = "reset"
    /\ IF t.at # epoch \/ gen # t.g
         THEN Drop(t) /\ UNCHANGED shown
         ELSE /\ shown' = [m \in Mods |-> IF m \in t.todo \/ ~Scoped THEN <<>> ELSE shown[m]]
              /\ Replace(t, [t EXCEPT !.ph = "report"])
    /\ UNCHANGED <<src, epoch, gen, due, building, finished, touched, saves, closes>>
Report(t) ==
    /\ t.ph = "report" /\ t.todo # {}
    /\ \E m \in t.todo :
         /\ shown' = IF gen = t.g THEN [shown EXCEPT ![m] = <<Snap(t.view, m)>>] ELSE shown
         /\ Replace(t, [t EXCEPT !.todo = @ \ {m}])
    /\ UNCHANGED <<src, epoch, gen, due, building, finished, touched, saves, closes>>
\* all reported on, or stopped by a newer epoch
End(t) ==
    /\ t.ph = "report" /\ (t.todo = {} \/ t.at # epoch)
    /\ finished' = IF gen = t.g THEN TRUE ELSE finished
    /\ Replace(t, [t EXCEPT !.ph = "record"])
    /\ UNCHANGED <<src, epoch, gen, due, building, shown, touched, saves, closes>>
Record(t) ==
    /\ t.ph = "record"
    /\ Drop(t)
    /\ IF t.at = epoch
         THEN epoch' = epoch + 1 /\ due' = due \ t.root /\ building' = FALSE
         ELSE UNCHANGED <<epoch, due, building>>
    /\ UNCHANGED <<src, gen, finished, shown, touched, saves, closes>>
Work == \E t \in tasks : Announce(t) \/ Reload(t) \/ Reset(t) \/ Report(t) \/ End(t) \/ Record(t)
Next == Close \/ Work \/ \E m \in Mods : Save(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

AtRest == tasks = {}
\* At rest everything that a save affected is shown as it is now.
Current == AtRest => \A m \in touched : shown[m] = <<Snap(src, m)>>
\* At rest the server says that it has finished.
Finished == AtRest /\ saves > 0 => finished /\ ~building
\* Nothing older than what is being built is ever shown again once cleared.
NeverStale == \A m \in Mods : finished /\ ~building /\ shown[m] # <<>> => shown[m] = <<Snap(src, m)>>
Settles == []<>AtRest
=============================================================================
