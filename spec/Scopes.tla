------------------------------- MODULE Scopes -------------------------------
(* What may be used where.  Modules with nested proof blocks: theorems with proofs,
   forall-, if/else- and match-blocks, values named or chosen along the way, citations,
   lemmas and imports.  For every goal the specification knows exactly which facts are
   visible: what comes before it in its own and the enclosing blocks, the assumptions of
   those blocks, what closed blocks export, and what imported modules export.

   All models with two elements are followed at once: the worlds of a block are the models,
   with values for the constants in scope, in which everything visible holds.  A goal that
   fails in one of them is not entailed and must not be verified; a goal that is among the
   visible facts must be. *)
EXTENDS Semantics, SequencesExt
CONSTANTS Pick(_), Seeds, Every, NumModules, MaxLen, MaxDepth, Depth
VARIABLES seed, past, imports, stack, out, near, count, done
vars == <<seed, past, imports, stack, out, near, count, done>>
AllSeeds == 0..65536

SymsD == <<"x", "y", "z", "i", "j">>
D2 == {<<1>>, <<2>>}
Models == { [nD |-> 2, nE |-> 1, a |-> va, c |-> 1,
             p |-> [tup \in D2 |-> tup[1] \in ps], f |-> [tup \in D2 |-> IF tup[1] \in fs THEN 2 ELSE 1],
             l |-> [tup \in D2 |-> ls[tup[1]]]] :
             va \in BOOLEAN, ps \in SUBSET (1..2), fs \in SUBSET (1..2), ls \in [1..2 -> 1..4] }
Worlds == {<<model, NoVars>> : model \in Models}
\* Every = 1: all of them.  Otherwise about one in so many, others in every behaviour.
Numbered == SetToSeq(Worlds)
Start(s) == IF Every = 1 THEN Worlds ELSE {Numbered[i] : i \in {i \in 1..Len(Numbered) : Coin(Sub(s, i), Every)}}
Holds(w, t) == Ev(w[1], w[2], t)
Those(ws, t) == {w \in ws : Holds(w, t)}
Extend(ws, v) == {<<w[1], (v :> val) @@ w[2]>> : w \in ws, val \in 1..2}

-----------------------------------------------------------------------------
(* Formulas over c, f, l, p, a and the constants in scope. *)
RECURSIVE Term(_, _, _), Prop(_, _, _)
Term(vs, n, s) ==
  LET own == VarsOf("D", vs)
      kind == IF n <= 0 THEN At(<<"var", "var", "c">>, s) ELSE At(<<"var", "var", "c", "f">>, s)
  IN CASE kind = "var" /\ own # <<>> -> <<"var", At(own, Sub(s, 1))>>
       [] kind = "f" -> <<"app", "f", <<Term(vs, n - 1, Sub(s, 2))>>>>
       [] OTHER -> <<"app", "c", <<>>>>
Basic(vs, s) ==
  LET kind == At(<<1, 3, 3, 3, 4, 5>>, s) IN
  CASE kind = 1 -> <<"app", "a", <<>>>>
    [] kind = 3 -> <<"app", "p", <<Term(vs, 1, Sub(s, 1))>>>>
    [] kind = 4 -> <<"eq", Term(vs, 1, Sub(s, 1)), Term(vs, 1, Sub(s, 2))>>
    [] OTHER -> <<"eq", <<"app", "l", <<Term(vs, 0, Sub(s, 1))>>>>,
                        IF Coin(Sub(s, 2), 3) THEN <<"mix", Term(vs, 0, Sub(s, 4))>> ELSE <<"con", At(<<1, 2>>, Sub(s, 2))>>>>
Prop(vs, n, s) ==
  LET fresh == Fresh("D", vs)
      kind == IF n <= 0 THEN "basic" ELSE At(<<"basic", "not", "and", "or", "imp", "imp", "all", "ex">>, s)
  IN CASE kind = "not" -> <<"not", Prop(vs, n - 1, Sub(s, 1))>>
       [] kind \in {"and", "or", "imp"} -> <<kind, Prop(vs, n - 1, Sub(s, 1)), Prop(vs, n - 1, Sub(s, 2))>>
       [] kind \in {"all", "ex"} /\ fresh # <<>> ->
            LET name == fresh[Len(fresh)] IN <<kind, name, Prop(vs \cup {name}, n - 1, Sub(s, 1))>>
       [] OTHER -> Basic(vs, Sub(s, 3))
\* The same up to the names of bound variables.
RECURSIVE Nameless(_, _, _)
Nameless(t, env, n) ==
  CASE t[1] = "var" -> IF t[2] \in DOMAIN env THEN <<"bound", env[t[2]]>> ELSE t
    [] t[1] \in {"all", "ex"} -> <<t[1], Nameless(t[3], (t[2] :> n) @@ env, n + 1)>>
    [] t[1] = "app" -> <<"app", t[2], [i \in 1..Len(t[3]) |-> Nameless(t[3][i], env, n)]>>
    [] t[1] \in {"con", "true", "false"} -> t
    [] t[1] \in {"not", "mix"} -> <<t[1], Nameless(t[2], env, n)>>
    [] OTHER -> <<t[1], Nameless(t[2], env, n), Nameless(t[3], env, n)>>
Same(t1, t2) == Nameless(t1, NoVars, 0) = Nameless(t2, NoVars, 0)
RECURSIVE Bind(_, _, _)
Bind(q, names, t) == IF names = <<>> THEN t ELSE <<q, names[1], Bind(q, Tail(names), t)>>

-----------------------------------------------------------------------------
(* The blocks open now, innermost last.  A block has the constants it introduced, chosen or
   named values, facts added in it, its worlds, its last statement and what it is for. *)
None == <<"none">>
Top == stack[Len(stack)]
Frame(kind, args, worlds, facts, data) ==
  [kind |-> kind, args |-> args, chosen |-> <<>>, names |-> <<>>, worlds |-> worlds, facts |-> facts, last |-> None,
   data |-> data, theorems |-> <<>>, ended |-> FALSE]
RECURSIVE InScopeOf(_)
InScopeOf(st) == IF st = <<>> THEN {} ELSE LET fr == st[Len(st)]
                 IN {fr.args[i] : i \in 1..Len(fr.args)} \cup {fr.chosen[i] : i \in 1..Len(fr.chosen)} \cup InScopeOf(SubSeq(st, 1, Len(st) - 1))
InScope == InScopeOf(stack)
VisibleFacts == UNION {{stack[i].facts[j] : j \in 1..Len(stack[i].facts)} : i \in 1..Len(stack)}
\* The prover opens an existential only when it stands alone: what it makes of one inside a
\* disjunction (the goal negated included) is left to it, so nothing is required there.
RECURSIVE HasEx(_, _), Choice(_, _)
HasEx(t, pos) ==
  CASE t[1] = "not" -> HasEx(t[2], ~pos)
    [] t[1] \in {"and", "or"} -> HasEx(t[2], pos) \/ HasEx(t[3], pos)
    [] t[1] = "imp" -> HasEx(t[2], ~pos) \/ HasEx(t[3], pos)
    [] t[1] = "all" -> ~pos \/ HasEx(t[3], pos)
    [] t[1] = "ex" -> pos \/ HasEx(t[3], pos)
    [] OTHER -> FALSE
Choice(t, pos) ==
  CASE t[1] = "not" -> Choice(t[2], ~pos)
    [] t[1] = "and" -> Choice(t[2], pos) \/ Choice(t[3], pos) \/ (~pos /\ HasEx(t, pos))
    [] t[1] = "or" -> Choice(t[2], pos) \/ Choice(t[3], pos) \/ (pos /\ HasEx(t, pos))
    [] t[1] = "imp" -> Choice(t[2], ~pos) \/ Choice(t[3], pos) \/ (pos /\ HasEx(t, pos))
    [] t[1] \in {"all", "ex"} -> Choice(t[3], pos)
    [] OTHER -> FALSE
Plain(t) == ~Choice(t, TRUE) /\ ~Choice(t, FALSE)
\* Assumptions that contradict each other, also those a goal makes itself, are reported.
Expect(ws, facts, t) == [refuted |-> Those(ws, t) # ws, known |-> ws # {} /\ Plain(t) /\ \E fact \in facts : Same(fact, t),
                         consistent |-> Those(ws, IF t[1] = "imp" THEN t[2] ELSE <<"true">>) # {}]

SetTop(fr) == [stack EXCEPT ![Len(stack)] = fr]
Learn(fr, t) == [fr EXCEPT !.facts = Append(@, t), !.worlds = Those(@, t), !.last = t]
Emit(item) == out' = Append(out, item)
Begun == stack # <<>> /\ ~done
Room == Begun /\ ~Top.ended /\ count < MaxLen
Inside == Len(stack) > 1
NewVars == Fresh("D", InScope)
HasVars == Len(NewVars) > 2       \* some are left for quantifiers
Tick == count' = count + 1
Keep == UNCHANGED <<seed, past, imports, near, done>>
Mistakes(ts) == near' = ts /\ UNCHANGED <<seed, past, imports, count, done>>

\* Formulas stated anywhere so far, visible or not: goals, assumptions, closed blocks, other modules.
RECURSIVE Stated(_)
Stated(items) == {items[i].f : i \in {j \in 1..Len(items) : "f" \in DOMAIN items[j]}}
Everything == {t \in UNION ({Stated(out)} \cup {Stated(past[m].out) : m \in 1..Len(past)}) : t # <<"false">> /\ FV(t) \subseteq InScope}
\* What the block that has just closed might have exported by mistake is asked for now and then.
Wanted(s, n) ==
  LET mistakes == {t \in near : FV(t) \subseteq InScope /\ t[1] \notin {"true", "false"}}
  IN
  IF mistakes # {} /\ Coin(Sub(s, 9), 2) THEN Pick(mistakes)
  ELSE IF Coin(s, 3) THEN {Prop(InScope, n, Sub(s, 1))}
  ELSE {t \in Pick(Everything \cup {Prop(InScope, n, Sub(s, 2))}) : FV(t) \subseteq InScope}

Name(no) == [module |-> Len(past) + 1, no |-> no]

-----------------------------------------------------------------------------
Init == seed = 0 /\ past = <<>> /\ imports = {} /\ stack = <<>> /\ out = <<>> /\ near = {} /\ count = 0 /\ done = FALSE

RECURSIVE Reach(_, _)
Reach(mods, ms) == LET more == mods \cup UNION {ms[m].imports : m \in mods} IN IF more = mods THEN mods ELSE Reach(more, ms)
BeginModule ==
  /\ stack = <<>> /\ Len(past) < NumModules /\ ~done
  /\ IF past = <<>> THEN \E s \in Pick(Seeds) : seed' = s ELSE UNCHANGED seed
  /\ \E chosen \in Pick(SUBSET (1..Len(past))) :
       LET all == Reach(chosen, past)
           facts == UNION {past[m].exports : m \in all}
       IN /\ stack' = <<[Frame("module", <<>>, {w \in Start(seed') : \A t \in facts : Holds(w, t)}, <<>>, [imported |-> facts])
                         EXCEPT !.theorems = <<>>]>>
          /\ imports' = chosen
          /\ out' = <<>>
          /\ near' = {}
          /\ count' = 0
          /\ UNCHANGED <<past, done>>
\* Imported facts can be found too.
Findable == VisibleFacts \cup stack[1].data.imported

Axiom ==
  /\ Room /\ Len(stack) = 1
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth) : \E t \in Wanted(s, n) :
       /\ Those(Top.worlds, t) # {}
       /\ stack' = SetTop([Learn(Top, t) EXCEPT !.theorems = Append(@, [name |-> Name(count), args |-> <<>>, f |-> t, lemma |-> FALSE])])
       /\ Emit([op |-> "axiom", name |-> Name(count), f |-> t])
       /\ Tick /\ Keep
Claim ==
  /\ Inside
  /\ Room \/ (Begun /\ ~Top.ended /\ Top.last = None /\ Top.kind # "theorem")
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth) : \E t \in Wanted(s, n) :
       /\ stack' = SetTop(Learn(Top, t))
       /\ Emit([op |-> "claim", f |-> t, exp |-> Expect(Top.worlds, Findable, t)])
       /\ Tick /\ Keep
ClaimFalse ==
  /\ Room /\ Inside /\ Top.kind \in {"if", "else", "theorem"}
  /\ Top.kind = "theorem" => Top.data.f = <<"false">>
  /\ stack' = SetTop([Learn(Top, <<"false">>) EXCEPT !.ended = TRUE])
  /\ Emit([op |-> "claim", f |-> <<"false">>, exp |-> Expect(Top.worlds, Findable, <<"false">>)])
  /\ Tick /\ Keep
Choose ==
  /\ Room /\ HasVars /\ Inside
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth) :
       LET v == NewVars[1]
           t == Prop(InScope \cup {v}, n, s)
       IN /\ v \in FV(t)
          /\ stack' = SetTop([Learn([Top EXCEPT !.worlds = Extend(@, v)], t) EXCEPT !.chosen = Append(@, v)])
          /\ Emit([op |-> "let", var |-> v, body |-> t, exp |-> Expect(Top.worlds, Findable, <<"ex", v, t>>)])
          /\ Tick /\ Keep
NameValue ==
  /\ Room /\ HasVars /\ Inside
  /\ \E s \in Pick(Seeds) :
       LET v == NewVars[1]
           t == Term(InScope, 2, s)
       IN /\ stack' = SetTop([Top EXCEPT !.worlds = {<<w[1], (v :> Ev(w[1], w[2], t)) @@ w[2]>> : w \in @},
                                         !.chosen = Append(@, v), !.last = None,
                                         !.names = IF t[1] = "var" \/ t[3] = <<>> THEN Append(@, <<v, t>>) ELSE @])
          /\ Emit([op |-> "name", var |-> v, body |-> t])
          /\ Tick /\ Keep

\* Blocks.
OpenForall ==
  /\ Room /\ HasVars /\ Len(stack) < MaxDepth
  /\ LET v == NewVars[1] IN
     /\ stack' = Append(stack, Frame("forall", <<v>>, Extend(Top.worlds, v), <<>>, [f |-> None]))
     /\ Emit([op |-> "forall", var |-> v])
  /\ Tick /\ Keep
OpenIf ==
  /\ Room /\ Len(stack) < MaxDepth
  /\ \E s \in Pick(Seeds), n \in Pick(0..1) : \E t \in Wanted(s, n) :
       /\ t[1] # "false"
       /\ stack' = Append(stack, Frame("if", <<>>, Those(Top.worlds, t), <<t>>, [f |-> t]))
       /\ Emit([op |-> "if", f |-> t])
  /\ Tick /\ Keep
\* A case of a match: what is matched is this constructor, of some value in the case of mix.
Case(st, worlds, t, order, claims) ==
  LET which == order[Len(claims) + 1]
      v == Fresh("D", InScopeOf(st))[1]
      pattern == IF which = 3 THEN <<"mix", <<"var", v>>>> ELSE <<"con", which>>
      eq == <<"eq", t, pattern>>
      ws == IF which = 3 THEN Extend(worlds, v) ELSE worlds
  IN [Frame("case", <<>>, Those(ws, eq), <<eq>>, [f |-> t, order |-> order, claims |-> claims])
      EXCEPT !.chosen = IF which = 3 THEN <<v>> ELSE <<>>]
Orders == {<<1, 2, 3>>, <<2, 1, 3>>, <<1, 3, 2>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Shown(fr) == [case |-> fr.data.order[Len(fr.data.claims) + 1], var |-> fr.chosen]
OpenMatch ==
  /\ Room /\ HasVars /\ Len(stack) < MaxDepth
  /\ \E s \in Pick(Seeds), order \in Pick(Orders) :
       LET t == <<"app", "l", <<Term(InScope, 1, s)>>>>
           fr == Case(stack, Top.worlds, t, order, <<>>)
       IN /\ stack' = Append(stack, fr)
          /\ Emit([op |-> "match", term |-> t, case |-> Shown(fr)])
  /\ Tick /\ Keep
\* A theorem, about constants that its proof does not know; an implication is proved from its premise.
Premise(t) == IF t[1] = "imp" THEN t[2] ELSE <<"true">>
Conclusion(t) == IF t[1] = "imp" THEN t[3] ELSE t
Theorem(n, s, arg, by, lemma) ==
  LET args == IF arg /\ HasVars THEN <<NewVars[1]>> ELSE <<>>
      vs == InScope \cup {args[i] : i \in 1..Len(args)}
      worlds == IF args = <<>> THEN Top.worlds ELSE Extend(Top.worlds, args[1])
  IN \E t \in IF args = <<>> THEN Wanted(s, n) ELSE {Prop(vs, n, s)} :
       LET inner == Those(worlds, Premise(t))
           entry == [name |-> Name(count), args |-> args, f |-> t, lemma |-> lemma]
           assumed == IF t[1] = "imp" THEN <<t[2]>> ELSE <<>>
       IN IF by THEN /\ Len(stack) < MaxDepth
                     /\ stack' = Append(stack, Frame("theorem", args, inner, assumed, [f |-> t, entry |-> entry]))
                     /\ Emit([op |-> "theorem", name |-> entry.name, lemma |-> lemma, args |-> args, by |-> TRUE, f |-> t])
          ELSE /\ stack' = SetTop([Learn(Top, Bind("all", args, t)) EXCEPT !.theorems = Append(@, entry)])
               /\ Emit([op |-> "theorem", name |-> entry.name, lemma |-> lemma, args |-> args, by |-> FALSE, f |-> t,
                        exp |-> Expect(inner, Findable \cup {assumed[i] : i \in 1..Len(assumed)}, Conclusion(t))])
OpenTheorem ==
  /\ Room
  /\ \E s \in Pick(Seeds), n \in Pick(0..Depth), arg \in Pick(BOOLEAN), by \in Pick(BOOLEAN), lemma \in Pick({TRUE, FALSE, FALSE}) :
       Theorem(n, s, arg, by, lemma)
  /\ Tick /\ Keep

\* What the outside may use of a block that ends.
\* Another name for a constant stands for it; of other values only the existence gets out.
RECURSIVE Resolve(_, _)
Resolve(t, names) == IF names = <<>> THEN t
                     ELSE LET n == names[Len(names)] IN Resolve(Subst(t, n[1], n[2]), SubSeq(names, 1, Len(names) - 1))
Outward(fr) == LET t == Resolve(fr.last, fr.names)
               IN Bind("all", fr.args, Bind("ex", SelectSeq(fr.chosen, LAMBDA v : v \in FV(t)), t))
Outer == stack[Len(stack) - 1]
Closed2(fr) == [i \in 1..Len(stack) - 1 |-> IF i = Len(stack) - 1 THEN fr ELSE stack[i]]
CanClose == Begun /\ Inside /\ Top.last # None
\* Of the same form, but saying something else.
Otherwise(t) == IF t[1] \in {"ex", "all"} THEN <<t[1], t[2], <<"not", t[3]>>>>
                ELSE IF t[1] \in {"and", "or", "imp", "eq"} THEN <<t[1], t[3], t[2]>> ELSE <<"not", t>>
CloseForall ==
  /\ CanClose /\ Top.kind = "forall"
  /\ stack' = Closed2(Learn(Outer, Outward(Top)))
  /\ Emit([op |-> "close"])
  /\ LET t == Resolve(Top.last, Top.names)
     IN Mistakes({Bind("ex", Top.chosen, Bind("all", Top.args, t)), Bind("all", Top.args \o Top.chosen, t)})
CloseIf ==
  /\ CanClose /\ Top.kind = "if"
  /\ \E more \in Pick(BOOLEAN) :
     LET claim == Outward(Top)
         fact == <<"imp", Top.data.f, claim>>
         neg == <<"not", Top.data.f>>
         outer == Learn(Outer, fact)
     IN /\ IF more /\ count < MaxLen
           THEN /\ stack' = Append(Closed2(outer), Frame("else", <<>>, Those(outer.worlds, neg), <<neg>>, [f |-> neg, matching |-> claim]))
                /\ Emit([op |-> "else"])
           ELSE stack' = Closed2(outer) /\ Emit([op |-> "close"])
        /\ Mistakes(IF more THEN {claim, Otherwise(claim)}
                   ELSE {claim, <<"not", claim>>, <<"imp", neg, claim>>, <<"imp", claim, Top.data.f>>,
                         <<"imp", Top.data.f, Bind("all", Top.chosen, Resolve(Top.last, Top.names))>>})
CloseElse ==
  /\ CanClose /\ Top.kind = "else"
  /\ LET claim == Outward(Top)
         fact == IF Same(claim, Top.data.matching) THEN claim ELSE <<"imp", Top.data.f, claim>>
     IN /\ stack' = Closed2(Learn(Outer, fact))
        /\ Mistakes({claim, Top.data.f, Top.data.matching, <<"imp", Top.data.f[2], claim>>, <<"and", Top.data.matching, claim>>})
  /\ Emit([op |-> "close"])
RECURSIVE Disjunction(_)
Disjunction(ts) == IF Len(ts) = 1 THEN ts[1] ELSE <<"or", Disjunction(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)]>>
CloseCase ==
  /\ CanClose /\ Top.kind = "case"
  /\ LET claims == Append(Top.data.claims, Outward(Top))
         without(i) == SelectSeq([j \in 1..Len(claims) |-> <<j, claims[j]>>], LAMBDA jt : jt[1] # i)
         next == Case(SubSeq(stack, 1, Len(stack) - 1), Outer.worlds, Top.data.f, Top.data.order, claims)
     IN IF Len(claims) < 3
        THEN /\ stack' = Append(Closed2(Outer), next)
             /\ Emit([op |-> "case", case |-> Shown(next)])
             /\ Mistakes({Outward(Top)})
        ELSE /\ stack' = Closed2(Learn(Outer, Disjunction(claims)))
             /\ Emit([op |-> "close2"])
             /\ Mistakes({claims[i] : i \in 1..3} \cup {<<"or", without(i)[1][2], without(i)[2][2]>> : i \in 1..3})
CloseTheorem ==
  /\ Begun /\ Inside /\ Top.kind = "theorem"
  /\ LET t == Top.data.f
     IN /\ stack' = Closed2([Learn(Outer, Bind("all", Top.args, t)) EXCEPT !.theorems = Append(@, Top.data.entry)])
        /\ Emit([op |-> "endtheorem", name |-> Top.data.entry.name, exp |-> Expect(Top.worlds, Findable, Conclusion(t))])
        /\ Mistakes({Bind("all", Top.args, u) : u \in {Premise(t), Conclusion(t), <<"imp", Conclusion(t), Premise(t)>>}})

\* A theorem is cited: it may be used without proof, unless it is the one being proved.
RECURSIVE Inst(_, _, _)
Inst(t, args, vals) == IF args = <<>> THEN t ELSE Inst(Subst(t, args[1], vals[1]), Tail(args), Tail(vals))
Citable == UNION {{stack[i].theorems[j] : j \in 1..Len(stack[i].theorems)} : i \in 1..Len(stack)}
           \cup UNION {{past[m].theorems[j] : j \in 1..Len(past[m].theorems)} : m \in imports}
Cite ==
  /\ Room /\ Inside /\ Citable # {}
  /\ \E th \in Pick(Citable), s \in Pick(Seeds) :
       LET vals == [i \in 1..Len(th.args) |-> <<"app", "c", <<>>>>]
           own == [i \in 1..Len(th.args) |-> LET vs == VarsOf("D", InScope) IN IF vs = <<>> THEN vals[i] ELSE <<"var", At(vs, s)>>]
           use == IF Coin(s, 3) THEN vals ELSE own
           \* capture is impossible: bound variables are taken from the end of the list of names, and few are in use
           t == Inst(th.f, th.args, use)
       IN /\ stack' = SetTop(Learn(Top, t))
          /\ Emit([op |-> "cite", name |-> th.name, args |-> use, f |-> t])
  /\ Tick /\ Keep
Proving == {i \in 1..Len(stack) : stack[i].kind = "theorem"}
CiteItself ==
  /\ Room /\ Proving # {}
  /\ \E i \in Pick(Proving), s \in Pick(Seeds) :
       LET th == stack[i].data.entry
           use == [k \in 1..Len(th.args) |-> IF Coin(s, 2) THEN <<"app", "c", <<>>>> ELSE <<"var", At(VarsOf("D", InScope), s)>>]
           t == Inst(th.f, th.args, use)
       IN /\ stack' = SetTop(Learn(Top, t))
          /\ Emit([op |-> "claimown", name |-> th.name, args |-> use, f |-> t, exp |-> Expect(Top.worlds, Findable, t)])
  /\ Tick /\ Keep

\* Only axioms and theorems can be imported, and not lemmas.
EndModule ==
  /\ Len(stack) = 1 /\ count >= MaxLen /\ ~done
  /\ LET open == SelectSeq(Top.theorems, LAMBDA th : ~th.lemma)
     IN past' = Append(past, [imports |-> imports, out |-> out, theorems |-> open,
                              exports |-> {Bind("all", open[i].args, open[i].f) : i \in 1..Len(open)}])
  /\ stack' = <<>> /\ imports' = {} /\ out' = <<>> /\ near' = {} /\ count' = 0
  /\ UNCHANGED <<seed, done>>

Next == BeginModule \/ Axiom \/ Claim \/ ClaimFalse \/ Choose \/ NameValue \/ OpenForall \/ OpenIf \/ OpenMatch \/ OpenTheorem
        \/ CloseForall \/ CloseIf \/ CloseElse \/ CloseCase \/ CloseTheorem \/ Cite \/ CiteItself \/ EndModule
Complete == Len(past) = NumModules
Finish == /\ Complete /\ ~done
          /\ Say("scopes", [modules |-> [m \in 1..Len(past) |-> [imports |-> past[m].imports, out |-> past[m].out,
                                                              theorems |-> past[m].theorems]]])
          /\ done' = TRUE
          /\ UNCHANGED <<seed, past, imports, stack, out, near, count>>
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][Next \/ Finish]_vars

-----------------------------------------------------------------------------
(* The discipline is sound: as long as every goal was entailed by what was visible to it,
   everything visible at the top of a module follows from the axioms and imports. *)
Goals == {i \in 1..Len(out) : "exp" \in DOMAIN out[i]}
Honest == \A i \in Goals : ~out[i].exp.refuted
AxiomsSoFar == {out[i].f : i \in {j \in 1..Len(out) : out[j].op = "axiom"}}
Sound == (Begun /\ Len(stack) = 1 /\ Honest) =>
           Top.worlds = {w \in Start(seed) : \A t \in AxiomsSoFar \cup stack[1].data.imported : Holds(w, t)}
Nested == Begun => \A i \in 1..Len(stack) - 1 : \A w \in stack[i + 1].worlds :
            \E w0 \in stack[i].worlds : w0[1] = w[1] /\ \A v \in DOMAIN w0[2] : w0[2][v] = w[2][v]
ScopesRight == Begun => \A i \in 1..Len(stack) : \A w \in stack[i].worlds : DOMAIN w[2] = InScopeOf(SubSeq(stack, 1, i))
=============================================================================
