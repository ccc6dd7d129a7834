---------------------------- MODULE BuildContent ----------------------------
(* What the sources of a project mean, independently of any cache.

   A project is N modules; module m may import lower-numbered modules.  Its
   source is abstracted to
     k     "ok", "axiom" (also declares a harmless true axiom), "err" (does not
           parse), "none" (no such file)
     deps  deps[d] = 1 iff it imports module d
     neg   it defines f_m(x) as the composition of the imported functions,
           negated iff neg = 1, so f_m is the identity or negation
     thms  its theorems t1, t2: "T" states the true fact about f_m at theorem
           i's argument, "F" the false one
     pad   a comment that changes the file but not its meaning              *)
EXTENDS MBV
CONSTANT N
Mods == 1..N
Absent == [k |-> "none", deps |-> [d \in Mods |-> 0], neg |-> 0, thms |-> <<>>, pad |-> 0]
Present(s, m) == s[m].k # "none"
Deps(s, m) == {d \in Mods : d < m /\ s[m].deps[d] = 1}

RECURSIVE Closure(_, _)
\* m and everything it imports, directly or not
Closure(s, m) == {m} \cup UNION {Closure(s, d) : d \in Deps(s, m)}
Below(s, m) == Closure(s, m) \ {m}

LoadsItself(s, m) == s[m].k \in {"ok", "axiom"}
Loads(s, m) == \A d \in Closure(s, m) : LoadsItself(s, d)

RECURSIVE Parity(_, _), SumParity(_, _)
SumParity(s, D) == IF D = {} THEN 0
                   ELSE LET d == CHOOSE d \in D : TRUE IN (Parity(s, d) + SumParity(s, D \ {d})) % 2
Parity(s, m) == (s[m].neg + SumParity(s, Deps(s, m))) % 2

\* The theorems do not mention the parity: "T" at position i says f_m maps the i-th
\* argument to itself.  The claim is true iff it agrees with the parity.
ClaimTrue(s, m, i) == (s[m].thms[i] = "T") = (Parity(s, m) = 0)
\* A false theorem is still assumed afterwards: what follows is in an inconsistent
\* context, where a goal may be proved or the search may report the inconsistency.
FalseIn(s, m, upto) == \E i \in 1..upto : ~ClaimTrue(s, m, i)
Tainted(s, m, i) == \/ \E d \in Below(s, m) : FalseIn(s, d, Len(s[d].thms))
                    \/ FalseIn(s, m, i - 1)
MustProve(s, m) == {i \in 1..Len(s[m].thms) : ClaimTrue(s, m, i) /\ ~Tainted(s, m, i)}
MustFail(s, m)  == {i \in 1..Len(s[m].thms) : ~ClaimTrue(s, m, i) /\ ~Tainted(s, m, i)}
MayFail(s, m)   == (1..Len(s[m].thms)) \ MustProve(s, m)

\* The source text m's verdict depends on.
Snapshot(s, m) == [d \in Closure(s, m) |-> s[d]]

\* Verdicts that a from-scratch verification of the modules T may give.
FreshVerify(s, T) ==
    IF \E m \in T : ~Loads(s, m) THEN {"error"}
    ELSE IF \E m \in T : MustFail(s, m) # {} THEN {"warning"}
    ELSE IF \E m \in T : MayFail(s, m) # {} THEN {"good", "warning"}
    ELSE {"good"}
=============================================================================
