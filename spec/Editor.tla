------------------------------- MODULE Editor -------------------------------
(* What the editor may show whenever the language server has come to rest.

   The sources are those of BuildContent; c_m is a Boolean constant there,
   composed of the imported ones.  A history is a sequence of windows: saves
   and closes, one right after the other or a few messages of the server
   apart, followed by a rest.  However the server interleaves its tasks
   (EditorTasks), what it shows at rest depends on the sources only:

   A module is touched when it, or something it imports, is saved.
   A touched module
     that does not parse  shows an error
     that loads           shows the theorems that do not hold, and no other.
                          While some touched module does not load it may
                          also show nothing, for what is built together with
                          a broken module is not proved
     whose imports do not load  need not show anything.
   An untouched module shows nothing.                                        *)
EXTENDS BuildContent
CONSTANT Pick(_), Windows
VARIABLES src, version, open, touched, left, windows, hist
vars == <<src, version, open, touched, left, windows, hist>>

Contents(m) ==
    {c \in [k: {"ok"}, deps: [Mods -> 0..1], neg: 0..1, thms: SeqsUpTo({"T", "F"}, 2), pad: {0}] :
        \A d \in Mods : d >= m => c.deps[d] = 0}
Broken == [k |-> "err", deps |-> [d \in Mods |-> 0], neg |-> 0, thms |-> <<>>, pad |-> 0]
\* 0 in 0..9: broken
Content(m, r) == IF r = 0 THEN {Broken} ELSE Contents(m)
Dependents(s, m) == {d \in Mods : m \in Closure(s, d)}

Init == /\ src = [m \in Mods |-> Broken]
        /\ version = [m \in Mods |-> 0] /\ open = {} /\ touched = {}
        /\ left = 0 /\ windows = 0
        /\ hist = <<>>
Start == /\ hist = <<>>
         /\ \E r \in Pick([Mods -> 0..9]) :
              src' = [m \in Mods |-> CHOOSE c \in Pick(Content(m, r[m])) : TRUE]
         /\ hist' = <<[op |-> "start", src |-> src']>>
         /\ UNCHANGED <<version, open, touched, left, windows>>
Begin == /\ left = 0 /\ hist # <<>> /\ windows < Windows
         /\ \E n \in Pick(IF touched = {} THEN 2..5 ELSE 1..5) : left' = n
         /\ UNCHANGED <<src, version, open, touched, windows, hist>>
Step == left > 1 /\ left' = left - 1 /\ UNCHANGED windows
Save(m, c) ==
    /\ Step
    /\ src' = [src EXCEPT ![m] = c]
    /\ version' = [version EXCEPT ![m] = @ + 1]
    /\ open' = open \cup {m}
    /\ touched' = touched \cup Dependents(src', m)
    /\ hist' = Append(hist, [op |-> "save", m |-> m, c |-> c, version |-> version'[m]])
\* two notifications at a time
Saves(m, c, d, e) ==
    /\ Step /\ m # d
    /\ src' = [src EXCEPT ![m] = c, ![d] = e]
    /\ version' = [version EXCEPT ![m] = @ + 1, ![d] = @ + 1]
    /\ open' = open \cup {m, d}
    /\ touched' = touched \cup Dependents(src', m) \cup Dependents(src', d)
    /\ hist' = Append(hist, [op |-> "saves", all |-> <<[m |-> m, c |-> c, version |-> version'[m]],
                                                     [m |-> d, c |-> e, version |-> version'[d]]>>])
Close(m) ==
    /\ Step /\ m \in open
    /\ open' = open \ {m}
    /\ hist' = Append(hist, [op |-> "close", m |-> m])
    /\ UNCHANGED <<src, version, touched>>
Told(n) ==
    /\ Step
    /\ hist' = Append(hist, [op |-> "told", more |-> n])
    /\ UNCHANGED <<src, version, open, touched>>

AnyBroken == \E m \in touched : ~Loads(src, m)
May(m) == IF m \notin touched THEN "nothing"
          ELSE IF ~LoadsItself(src, m) THEN "error"
          ELSE IF ~Loads(src, m) THEN "anything"
          ELSE "theorems"
Expect(m) == [is |-> May(m), version |-> version[m], open |-> m \in open,
              must |-> IF May(m) = "theorems" THEN MustFail(src, m) ELSE {},
              may |-> IF May(m) = "theorems" THEN MayFail(src, m) ELSE {},
              none |-> AnyBroken]
Settle ==
    /\ left = 1
    /\ left' = 0 /\ windows' = windows + 1
    /\ hist' = Append(hist, [op |-> "settle", expect |-> [m \in Mods |-> Expect(m)]])
    /\ UNCHANGED <<src, version, open, touched>>
Emit == /\ left = 0 /\ windows = Windows
        /\ Say("TRACE", hist)
        /\ left' = -1
        /\ UNCHANGED <<src, version, open, touched, windows, hist>>
Next == \/ Start \/ Begin \/ Settle \/ Emit
        \/ left > 1 /\ \E m \in Pick(Mods), r \in Pick(0..9), kind \in Pick(0..9) :
             \E c \in Pick(Content(m, r)) :
               IF touched = {} THEN Save(m, c)
               ELSE IF kind = 5 THEN \E d \in Pick(Mods \ {m}), q \in Pick(0..9) :
                                  \E e \in Pick(Content(d, q)) : Saves(m, c, d, e)
               ELSE IF kind \in {6, 7} /\ open # {} THEN \E d \in Pick(open) : Close(d)
               ELSE IF kind = 8 THEN Told(1 + (r % 4))
               ELSE Save(m, c)
Spec == Init /\ [][Next]_vars
\* Sanity: what must fail may fail; nothing is expected of what was never saved.
Sane == \A m \in Mods : /\ Expect(m).must \subseteq Expect(m).may
                        /\ (version[m] > 0 => m \in touched)
                        /\ (May(m) = "theorems" /\ ~AnyBroken =>
                              \A i \in MustProve(src, m) : i \notin Expect(m).may)
=============================================================================
