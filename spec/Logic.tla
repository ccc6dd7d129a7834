------------------------------- MODULE Logic -------------------------------
(* Reasoning problems with a known answer.  A behaviour fixes one finite model, states
   axioms that are true in it, and then goals: formulas near the axioms and random
   ones.  A goal that is false in the model does not follow from the axioms, so
   whatever anybody submits as a proof of it must be rejected; this is decided
   without any theory of what a proof is. *)
EXTENDS Semantics
CONSTANTS Pick(_), Seeds, NumDecls, NumAxioms, NumGoals, MaxD, Depth
VARIABLES M, decls, axioms, goals, done
vars == <<M, decls, axioms, goals, done>>

AllSeeds == 0..65536
\* Random interpretations are drawn symbol by symbol from one seed each.
InterpOf(mm, sym, s) ==
  LET vals(i) == CASE Sig[sym][2] = "D" -> (((H(Sub(s, i)) \div 3) % mm.nD) + 1)
                   [] Sig[sym][2] = "X" -> <<((H(Sub(s, i)) \div 3) % mm.nD) + 1, ((H(Sub(s, i)) \div 17) % 2) + 1>>
                   [] Sig[sym][2] = "C" -> (((H(Sub(s, i)) \div 3) % 2) + 1)
                   [] Sig[sym][2] = "B" -> ((H(Sub(s, i)) \div 3) % 2) = 0
      code(tup) == IF Len(tup) = 1 THEN (IF sym = "s" THEN (tup[1][1] * 5) + tup[1][2] ELSE tup[1]) ELSE (tup[1] * 5) + tup[2]
  IN IF Arity(sym) = 0 THEN vals(1) ELSE [tup \in ArgTuples(mm, sym) |-> vals(code(tup))]
SymNo == [c |-> 1, d |-> 2, a |-> 3, b |-> 4, f |-> 5, h |-> 6, g |-> 7, k |-> 8, l |-> 9, p |-> 10, q |-> 11, r |-> 12, t |-> 13, s |-> 14, e |-> 15]
ModelOf(nD, nE, s) ==
  LET base == [nD |-> nD, nE |-> nE]
  IN base @@ [sym \in BaseSyms |-> InterpOf(base, sym, Sub(s, 100 + SymNo[sym]))]

Init == /\ \E nD \in Pick(1..MaxD), nE \in Pick(0..2), s \in Pick(Seeds) : M = ModelOf(nD, nE, s)
        /\ decls = <<>>
        /\ axioms = <<>>
        /\ goals = <<>>
        /\ done = FALSE

RECURSIVE Size(_)
RECURSIVE SumSizes(_, _)
SumSizes(t, i) == IF i = 0 THEN 0 ELSE Size(Kid(t, i)) + SumSizes(t, i - 1)
Size(t) == 1 + SumSizes(t, Kids(t))
Names == {decls[i].sym : i \in 1..Len(decls)}
Scopes == <<{"x"}, {"x", "y"}, {"x", "y"}, {}, {}, {"u", "x"}, {"m", "x"}, {"o"}, {"o", "x"}, {"P", "x"}, {"F", "x"}, {"w", "x"}>>
Formula(n, s) == Closed(Gen("B", At(Scopes, Sub(s, 50)) \cup Names, n, s))
Good(t) == ~Bad(t) /\ Size(t) <= 22 /\ Mindful(t)

(* Declarations extend the model: a definition by what it says, a value chosen to
   satisfy a condition by any value that does. *)
Declare(sym, rec, interp) == /\ decls' = Append(decls, [sym |-> sym] @@ rec)
                             /\ M' = (sym :> interp) @@ M
                             /\ UNCHANGED <<axioms, goals, done>>
Early == Len(decls) < NumDecls /\ axioms = <<>>
DefinePredicate ==
  /\ Early /\ "dp" \notin Names
  /\ \E s \in Pick(Seeds), n \in Pick(1..Depth) :
       LET body == Gen("B", {"x"} \cup Names, n, s)
       IN /\ Good(body)
          /\ Declare("dp", [how |-> "define", body |-> body],
                     [tup \in ArgTuples(M, "dp") |-> Ev(M, "x" :> tup[1], body)])
DefineFunction ==
  /\ Early /\ "dm" \notin Names
  /\ \E s \in Pick(Seeds), n \in Pick(1..Depth), shape \in Pick({"plain", "ite", "match"}) :
       LET vs == {"x", "m"} \cup Names
           one == Gen("D", vs, 1, Sub(s, 1))
           two == Gen("D", vs, n, Sub(s, 2))
           body == CASE shape = "plain" -> two
                     [] shape = "ite" -> <<"ite", Gen("B", vs, 1, Sub(s, 3)), one, two>>
                     [] shape = "match" -> <<"match", <<"var", "m">>, one, two>>
       IN /\ Good(body)
          /\ Declare("dm", [how |-> "define", body |-> body],
                     [tup \in ArgTuples(M, "dm") |-> Ev(M, ("x" :> tup[1]) @@ ("m" :> tup[2]), body)])
NameValue ==
  /\ Early /\ "ea" \notin Names
  /\ \E s \in Pick(Seeds), n \in Pick(1..Depth) :
       LET body == Gen("D", Names, n, s)
       IN Good(body) /\ Declare("ea", [how |-> "let", body |-> body], True(M, body))
\* Bodies of a telling shape: a guarded equation.
Guarded(left, vs, s) ==
  LET side == At(<<<<"app", "f", <<<<"var", "x">>>>>>, <<"app", "h", <<Gen("D", vs \ {"x"}, 0, Sub(s, 1)), <<"var", "x">>>>>>,
                   <<"app", "h", <<Gen("D", vs, 0, Sub(s, 1)), <<"var", "x">>>>>>, Gen("D", vs, 1, Sub(s, 1))>>, Sub(s, 2))
      guard == At(<<<<"eq", <<"var", "x">>, Gen("D", vs \ {"x"}, 0, Sub(s, 3))>>, Atom(vs, 1, Sub(s, 3)), <<"app", "a", <<>>>>>>, Sub(s, 4))
      same == <<"eq", left, side>>
  IN At(<<same, <<"or", guard, same>>, <<"imp", guard, same>>>>, Sub(s, 5))
ChooseValue ==
  /\ Early /\ "es" \notin Names
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth) :
       LET body == Gen("B", {"x"} \cup Names, n, s)
           fit == {val \in 1..M.nD : Ev(M, "x" :> val, body)}
       IN /\ Good(body) /\ "x" \in FV(body) /\ fit # {}
          /\ \E val \in Pick(fit) : Declare("es", [how |-> "satisfy", body |-> body], val)
ChooseFunction ==
  /\ Early /\ "fs" \notin Names
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth), shape \in Pick({"any", "guarded"}) :
       LET body == IF shape = "any" THEN Gen("B", {"x", "y"} \cup Names, n, s)
                   ELSE Guarded(<<"var", "y">>, {"x"} \cup Names, s)
           fit(x) == {val \in 1..M.nD : Ev(M, ("x" :> x) @@ ("y" :> val), body)}
           all == {fun \in [1..M.nD -> 1..M.nD] : \A x \in 1..M.nD : fun[x] \in fit(x)}
       IN /\ Good(body) /\ {"x", "y"} \subseteq FV(body) /\ all # {}
          /\ \E fun \in Pick(all) :
               Declare("fs", [how |-> "satisfy", body |-> body], [tup \in ArgTuples(M, "fs") |-> fun[tup[1]]])
SkipDeclarations == Early /\ decls' = decls \o [i \in 1..(NumDecls - Len(decls)) |-> [sym |-> "none", how |-> "none"]]
                    /\ UNCHANGED <<M, axioms, goals, done>>

\* The formula, or its negation if it is false.
Truthful(t) == IF True(M, t) THEN t ELSE <<"not", t>>
AddAxiom(t) == /\ Good(t)
               /\ axioms' = Append(axioms, Truthful(t))
               /\ UNCHANGED <<M, decls, goals, done>>
Axiom == /\ Len(decls) = NumDecls /\ Len(axioms) < NumAxioms /\ goals = <<>>
         /\ \E s \in Pick(Seeds), n \in Pick(0..Depth), shape \in Pick({"any", "any", "closed", "serial", "guarded"}) :
              CASE shape = "any" -> AddAxiom(Formula(n, s))
                [] shape = "closed" -> AddAxiom(<<"all", "x", <<"imp", Atom({"x"} \cup Names, 1, Sub(s, 1)), Atom({"x"} \cup Names, 2, Sub(s, 2))>>>>)
                [] shape = "serial" -> AddAxiom(<<At(<<"all", "ex">>, s), "x", <<At(<<"ex", "all">>, s), "y", Gen("B", {"x", "y"} \cup Names, n - 1, Sub(s, 2))>>>>)
                [] shape = "guarded" -> AddAxiom(<<"all", "x", Guarded(At(<<<<"app", "f", <<<<"var", "x">>>>>>, <<"app", "h", <<<<"app", "c", <<>>>>, <<"var", "x">>>>>>>>, s), {"x"} \cup Names, Sub(s, 3))>>)

AddGoal(t, how, from) ==
  /\ Good(t)
  /\ goals' = Append(goals, [f |-> t, truth |-> True(M, t), how |-> how, from |-> from])
  /\ UNCHANGED <<M, decls, axioms, done>>
Ready == Len(axioms) = NumAxioms /\ Len(goals) < NumGoals
\* What is known: the axioms, and what each declaration says of its symbol.
Says(dc) == CASE dc.sym = "dp" -> <<"all", "x", <<"iff", <<"app", "dp", <<<<"var", "x">>>>>>, dc.body>>>>
              [] dc.sym = "dm" -> <<"all", "x", <<"all", "m", <<"eq", <<"app", "dm", <<<<"var", "x">>, <<"var", "m">>>>>>, dc.body>>>>>>
              [] dc.sym = "ea" -> <<"eq", <<"app", "ea", <<>>>>, dc.body>>
              [] dc.sym = "es" -> Subst(dc.body, "x", <<"app", "es", <<>>>>)
              [] dc.sym = "fs" -> <<"all", "x", Subst(dc.body, "y", <<"app", "fs", <<<<"var", "x">>>>>>)>>
              [] OTHER -> <<"true">>
Known == axioms \o [i \in 1..Len(decls) |-> Says(decls[i])]
RandomGoal == Ready /\ \E s \in Pick(Seeds), n \in Pick(0..Depth) : AddGoal(Formula(n, s), "random", 0)
\* A goal made from something known.
From(how, Make(_, _)) ==
  Ready /\ \E i \in Pick(1..Len(Known)), s \in Pick(Seeds) :
    LET t == Make(Known[i], s) IN t # Known[i] /\ AddGoal(Closed(t), how, i)
\* The weakest link: something one change away from what is known.
NearKnown == From("near", LAMBDA t, s : Mut(t, Names, s))
InstanceOf == From("instance", LAMBDA t, s : Instance(t, Names, s))
NearInstance == From("nearinstance", LAMBDA t, s : Mut(Instance(t, Names, s), Names, Sub(s, 2)))
Combined == Ready /\ \E i \in Pick(1..Len(Known)), j \in Pick(1..Len(Known)), s \in Pick(Seeds) :
              AddGoal(Closed(Mut(<<At(<<"and", "or", "imp", "iff">>, s), Known[i], Known[j]>>, Names, Sub(s, 1))), "combined", i)
\* A part of something known, with closed values for the variables it was under.
RECURSIVE Part(_, _)
Part(t, s) ==
  LET t1 == IF t[1] \in {"all", "ex"} /\ VarTy[t[2]] \in {"D", "C", "X", "B"}
            THEN Subst(t[3], t[2], Gen(VarTy[t[2]], Names, 1, Sub(s, 1)))
            ELSE IF t[1] \in {"all", "ex"} /\ t[2] \notin FV(t[3]) THEN t[3] ELSE t
  IN CASE t1[1] \in {"all", "ex"} -> IF t1 = t THEN t ELSE Part(t1, Sub(s, 2))
       [] t1[1] = "not" -> LET inner == Part(t1[2], Sub(s, 3)) IN IF Coin(s, 4) THEN inner ELSE <<"not", inner>>
       [] t1[1] \in {"and", "or", "imp", "iff"} /\ ~Coin(s, 3) ->
            LET kid == Part(At(<<t1[2], t1[3]>>, Sub(s, 4)), Sub(s, 5))
            IN IF Coin(Sub(s, 6), 3) THEN <<"not", kid>> ELSE kid
       [] OTHER -> t1
PartOf == From("part", LAMBDA t, s : LET part == Part(t, s) IN IF FV(part) = {} THEN part ELSE t)
\* What holds for some value, of a certain one.
RECURSIVE Witnessed(_, _)
Witnessed(t, s) ==
  CASE t[1] = "all" -> <<"all", t[2], Witnessed(t[3], s)>>
    [] t[1] = "ex" -> IF VarTy[t[2]] \in {"D", "C", "X", "B"} THEN Subst(t[3], t[2], Gen(VarTy[t[2]], Names, 1, Sub(s, 1))) ELSE t
    [] t[1] = "not" -> <<"not", Witnessed(t[2], s)>>
    [] t[1] \in {"and", "or", "imp", "iff"} -> <<t[1], Witnessed(t[2], Sub(s, 2)), Witnessed(t[3], Sub(s, 3))>>
    [] OTHER -> t
WitnessOf == From("witness", Witnessed)
\* What holds of a certain value, of every one (Closed adds the quantifier).
Closeds == <<<<"app", "c", <<>>>>, <<"app", "d", <<>>>>, <<"app", "es", <<>>>>, <<"app", "ea", <<>>>>>>
RECURSIVE Replaced(_, _, _)
Replaced(t, old, new) ==
  IF t = old THEN new
  ELSE IF Kids(t) = 0 THEN t
  ELSE CASE t[1] = "app" -> <<"app", t[2], [i \in 1..Len(t[3]) |-> Replaced(t[3][i], old, new)]>>
         [] t[1] \in {"vapp", "all", "ex", "lam", "pap"} -> <<t[1], t[2], Replaced(t[3], old, new)>>
         [] Kids(t) = 1 -> <<t[1], Replaced(t[2], old, new)>>
         [] Kids(t) = 2 -> <<t[1], Replaced(t[2], old, new), Replaced(t[3], old, new)>>
         [] OTHER -> <<t[1], Replaced(t[2], old, new), Replaced(t[3], old, new), Replaced(t[4], old, new)>>
GeneralizationOf == From("generalization", LAMBDA t, s : Replaced(t, At(Closeds, s), <<"var", "z">>))
\* One of the occurrences of a variable made another variable.
RECURSIVE Strip(_)
Strip(t) == IF t[1] = "all" THEN Strip(t[3]) ELSE t
RECURSIVE Other(_, _)
Other(t, s) ==
  IF t[1] = "var" THEN (IF t[2] \in {"x", "y"} THEN <<"var", "z">> ELSE IF t[2] = "m" THEN <<"var", "n">> ELSE t)
  ELSE IF Kids(t) = 0 THEN t
  ELSE LET i == ((H(Sub(s, 3)) \div 3) % Kids(t)) + 1 IN WithKid(t, i, Other(Kid(t, i), Sub(s, 1)))
Unmerged == From("unmerged", LAMBDA t, s : Other(Strip(t), s))
\* Quantifiers exchanged.
RECURSIVE Swapped(_)
Swapped(t) ==
  CASE t[1] \in {"all", "ex"} /\ t[3][1] \in {"all", "ex"} -> <<t[3][1], t[3][2], <<t[1], t[2], t[3][3]>>>>
    [] t[1] \in {"all", "ex", "not"} -> WithKid(t, 1, Swapped(Kid(t, 1)))
    [] t[1] \in {"and", "or", "imp", "iff"} -> <<t[1], Swapped(t[2]), Swapped(t[3])>>
    [] OTHER -> t
SwappedOf == From("swapped", LAMBDA t, s : Swapped(t))
\* Equal values have equal parts: true of constructors, not of functions.  And functions
\* with the same values are the same: true of the same values for all arguments.
RECURSIVE Inner(_, _)
Inner(t, s) ==
  CASE t[1] \in {"eq", "ne"} /\ t[2][1] = "app" /\ t[3][1] = "app" /\ t[2][2] = t[3][2] /\ Kids(t[2]) > 0 ->
         LET i == ((H(s) \div 3) % Kids(t[2])) + 1 IN <<t[1], Kid(t[2], i), Kid(t[3], i)>>
    [] t[1] \in {"eq", "ne"} /\ t[2][1] = "box" /\ t[3][1] = "box" ->
         LET i == ((H(s) \div 3) % 2) + 1 IN <<t[1], Kid(t[2], i), Kid(t[3], i)>>
    [] t[1] \in {"not", "all", "ex"} -> WithKid(t, 1, Inner(Kid(t, 1), s))
    [] t[1] \in {"and", "or", "imp", "iff"} -> <<t[1], Inner(t[2], s), Inner(t[3], s)>>
    [] OTHER -> t
InnerOf == From("inner", Inner)
Peelable(t) == \/ t[1] = "app" /\ t[2] \in {"f", "fs", "h", "p", "q"} /\ t[3][Len(t[3])][1] = "var"
               \/ t[1] = "vapp" /\ t[3][1] = "var" /\ t[2] = "F"
Last(t) == IF t[1] = "vapp" THEN t[3] ELSE t[3][Len(t[3])]
Peel(t) == IF t[1] = "vapp" THEN <<"var", t[2]>>
           ELSE IF Len(t[3]) = 1 THEN <<"fsym", t[2]>> ELSE <<"pap", t[2], t[3][1]>>
RECURSIVE Peeled(_)
Peeled(t) ==
  CASE t[1] \in {"eq", "iff"} /\ Peelable(t[2]) /\ Peelable(t[3]) /\ Last(t[2]) = Last(t[3]) -> <<"feq", Peel(t[2]), Peel(t[3])>>
    [] t[1] \in {"not", "all", "ex"} -> WithKid(t, 1, Peeled(Kid(t, 1)))
    [] t[1] \in {"and", "or", "imp", "iff"} -> <<t[1], Peeled(t[2]), Peeled(t[3])>>
    [] OTHER -> t
PeeledOf == From("peeled", LAMBDA t, s : Peeled(Strip(t)))
Opposite == Ready /\ goals # <<>> /\ \E i \in Pick(1..Len(goals)) : AddGoal(<<"not", goals[i].f>>, "opposite", goals[i].from)
Next == DefinePredicate \/ DefineFunction \/ NameValue \/ ChooseValue \/ ChooseFunction \/ SkipDeclarations
        \/ Axiom \/ RandomGoal \/ NearKnown \/ InstanceOf \/ NearInstance \/ Combined \/ PartOf \/ Opposite
        \/ WitnessOf \/ GeneralizationOf \/ Unmerged \/ SwappedOf \/ InnerOf \/ PeeledOf

Complete == Len(goals) = NumGoals
Finish == /\ Complete /\ ~done
          /\ Say("logic", [decls |-> decls, axioms |-> axioms, goals |-> goals, nD |-> M.nD, nE |-> M.nE,
                           model |-> [sym \in BaseSyms \cup (Names \ {"none"}) |->
                             IF Arity(sym) = 0 THEN M[sym] ELSE {<<tup, M[sym][tup]>> : tup \in ArgTuples(M, sym)}]])
          /\ done' = TRUE
          /\ UNCHANGED <<M, decls, axioms, goals>>
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][Next \/ Finish]_vars

-----------------------------------------------------------------------------
(* Checks of the semantics itself. *)
AxiomsTrue == \A i \in 1..Len(Known) : True(M, Known[i])
ClosedAll == /\ \A i \in 1..Len(axioms) : FV(axioms[i]) = {}
             /\ \A i \in 1..Len(goals) : FV(goals[i].f) = {}
\* An instance of a true generalization is true.
InstancesTrue == \A i \in 1..Len(goals) : goals[i].how = "instance" => goals[i].truth
Opposites == \A i \in 1..Len(goals) : goals[i].how = "opposite" =>
               \E j \in 1..i-1 : goals[i].f = <<"not", goals[j].f>> /\ goals[i].truth = ~goals[j].truth
=============================================================================
