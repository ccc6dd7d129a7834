-------------------------------- MODULE MBV --------------------------------
(* Shared by all specifications here.  Every nondeterministic choice of an
   argument is written  \E x \in Pick(S) : ...   In a model-checking
   configuration Pick is the identity, so every choice is explored; in a
   behaviour-generating configuration it is one random element, so a walk
   evaluates one instance of each action per step. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
PickAll(S) == S
PickOne(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Say(tag, v) == PrintT(<<tag, ToJson(v)>>)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
=============================================================================
