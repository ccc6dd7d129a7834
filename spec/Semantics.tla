----------------------------- MODULE Semantics -----------------------------
(* What a formula of the language means.  A term is a tuple <<kind, ...>>; a model
   interprets a fixed signature over finite carriers:
     D  an axiomatic type "Dm" with constants c, d and functions f, h
     E  an axiomatic type "Em" with a predicate r and a function g into D; it may be empty
     C  the inductive type Color with exactly the values red and blue
     X  the structure Box with the fields fst: Dm and snd: Color
     B  Bool
   Ev(M, e, t) is the value of t in model M under the assignment e of its free
   variables.  Quantifiers range over the whole carrier, function and predicate
   variables over all functions between carriers, as the logic is higher order. *)
EXTENDS MBV
Reds == <<"red", "blue">>
Dom(M, ty) == CASE ty = "D" -> 1..M.nD
                [] ty = "E" -> 1..M.nE
                [] ty = "C" -> 1..2
                [] ty = "B" -> BOOLEAN
                [] ty = "X" -> (1..M.nD) \X (1..2)
                [] ty = "DD" -> [1..M.nD -> 1..M.nD]
                [] ty = "DB" -> [1..M.nD -> BOOLEAN]

\* Variables have fixed names and types.
VarTy == [x |-> "D", y |-> "D", z |-> "D", u |-> "E", v |-> "E", m |-> "C", n |-> "C",
          o |-> "X", w |-> "B", F |-> "DD", P |-> "DB", i |-> "D", j |-> "D"]

\* Symbols: argument types and result type.
Sig == [c |-> <<<<>>, "D">>, d |-> <<<<>>, "D">>, a |-> <<<<>>, "B">>, b |-> <<<<>>, "B">>,
        f |-> <<<<"D">>, "D">>, h |-> <<<<"D", "D">>, "D">>, g |-> <<<<"E">>, "D">>,
        k |-> <<<<"C">>, "D">>, l |-> <<<<"D">>, "C">>,
        p |-> <<<<"D">>, "B">>, q |-> <<<<"D", "D">>, "B">>, r |-> <<<<"E">>, "B">>,
        t |-> <<<<"C">>, "B">>, s |-> <<<<"X">>, "B">>, e |-> <<<<"D">>, "X">>,
        \* declared along the way: definitions, named values, chosen values
        dp |-> <<<<"D">>, "B">>, dm |-> <<<<"D", "C">>, "D">>,
        ea |-> <<<<>>, "D">>, es |-> <<<<>>, "D">>, fs |-> <<<<"D">>, "D">>]
BaseSyms == {"c", "d", "a", "b", "f", "h", "g", "k", "l", "p", "q", "r", "t", "s", "e"}
Arity(s) == Len(Sig[s][1])

\* Curried interpretation: M[s] is a value or a function from tuples of values.
ArgTuples(M, s) == CASE Arity(s) = 1 -> {<<p1>> : p1 \in Dom(M, Sig[s][1][1])}
                     [] Arity(s) = 2 -> {<<p1, p2>> : p1 \in Dom(M, Sig[s][1][1]), p2 \in Dom(M, Sig[s][1][2])}

RECURSIVE Ev(_, _, _)
Ev(M, e, t) ==
  CASE t[1] = "var" -> e[t[2]]
    [] t[1] = "app" -> IF t[3] = <<>> THEN M[t[2]]
                       ELSE M[t[2]][[i \in 1..Len(t[3]) |-> Ev(M, e, t[3][i])]]
    [] t[1] = "vapp" -> e[t[2]][Ev(M, e, t[3])]
    [] t[1] = "con" -> t[2]                       \* Color.red is 1, Color.blue is 2
    [] t[1] = "mix" -> 2 + Ev(M, e, t[2])         \* Color.mix, where there is one
    [] t[1] = "box" -> <<Ev(M, e, t[2]), Ev(M, e, t[3])>>
    [] t[1] = "fst" -> Ev(M, e, t[2])[1]
    [] t[1] = "snd" -> Ev(M, e, t[2])[2]
    [] t[1] = "true" -> TRUE
    [] t[1] = "false" -> FALSE
    [] t[1] = "eq" -> Ev(M, e, t[2]) = Ev(M, e, t[3])
    [] t[1] = "ne" -> Ev(M, e, t[2]) # Ev(M, e, t[3])
    [] t[1] = "feq" -> Ev(M, e, t[2]) = Ev(M, e, t[3])   \* the same function
    [] t[1] = "fsym" -> [val \in Dom(M, Sig[t[2]][1][1]) |-> M[t[2]][<<val>>]]
    [] t[1] = "pap" -> \* a binary function, given one argument
         LET first == Ev(M, e, t[3]) IN [val \in Dom(M, Sig[t[2]][1][2]) |-> M[t[2]][<<first, val>>]]
    [] t[1] = "lam" -> [val \in 1..M.nD |-> Ev(M, (t[2] :> val) @@ e, t[3])]
    [] t[1] = "not" -> ~Ev(M, e, t[2])
    [] t[1] = "and" -> Ev(M, e, t[2]) /\ Ev(M, e, t[3])
    [] t[1] = "or" -> Ev(M, e, t[2]) \/ Ev(M, e, t[3])
    [] t[1] = "imp" -> Ev(M, e, t[2]) => Ev(M, e, t[3])
    [] t[1] = "iff" -> Ev(M, e, t[2]) = Ev(M, e, t[3])
    [] t[1] = "ite" -> IF Ev(M, e, t[2]) THEN Ev(M, e, t[3]) ELSE Ev(M, e, t[4])
    [] t[1] = "match" -> IF Ev(M, e, t[2]) = 1 THEN Ev(M, e, t[3]) ELSE Ev(M, e, t[4])
    [] t[1] = "all" -> \A val \in Dom(M, VarTy[t[2]]) : Ev(M, (t[2] :> val) @@ e, t[3])
    [] t[1] = "ex" -> \E val \in Dom(M, VarTy[t[2]]) : Ev(M, (t[2] :> val) @@ e, t[3])

NoVars == [nothing \in {} |-> 0]
True(M, t) == Ev(M, NoVars, t)

RECURSIVE FV(_)
FV(t) == CASE t[1] = "var" -> {t[2]}
           [] t[1] = "app" -> UNION {FV(t[3][i]) : i \in 1..Len(t[3])}
           [] t[1] = "vapp" -> {t[2]} \cup FV(t[3])
           [] t[1] \in {"con", "true", "false", "fsym"} -> {}
           [] t[1] = "pap" -> FV(t[3])
           [] t[1] \in {"all", "ex", "lam"} -> FV(t[3]) \ {t[2]}
           [] t[1] \in {"not", "fst", "snd", "mix"} -> FV(t[2])
           [] t[1] \in {"ite", "match"} -> FV(t[2]) \cup FV(t[3]) \cup FV(t[4])
           [] OTHER -> FV(t[2]) \cup FV(t[3])

VarOrder == <<"P", "F", "x", "y", "z", "u", "v", "m", "n", "o", "w", "i", "j">>
RECURSIVE Close(_, _)
Close(t, i) == IF i = 0 THEN t
               ELSE Close(IF VarOrder[i] \in FV(t) THEN <<"all", VarOrder[i], t>> ELSE t, i - 1)
Closed(t) == Close(t, Len(VarOrder))

-----------------------------------------------------------------------------
(* Pseudo-random terms: everything below is a function of an integer seed, so a
   generated formula is one choice of the specification. *)
H(s) == (s * 75 + 74) % 65537
Sub(s, i) == H((H(s) + i * 7919) % 65537)
At(q, s) == q[((H(H(s)) \div 7) % Len(q)) + 1]
Coin(s, n) == (H(H(s + 1)) \div 5) % n = 0

Filter(q, Keep(_)) == SelectSeq(q, Keep)
VarsOf(ty, vs) == Filter(VarOrder, LAMBDA name : name \in vs /\ VarTy[name] = ty)

RECURSIVE Gen(_, _, _, _)
GenApp(sym, vs, n, s) == <<"app", sym, [i \in 1..Arity(sym) |-> Gen(Sig[sym][1][i], vs, n - 1, Sub(s, i))]>>
\* A variable, if there is one, else a closed leaf.
Leaf(ty, vs, s) ==
  LET own == VarsOf(ty, vs)
  IN IF own # <<>> /\ ~Coin(s, 3) THEN <<"var", At(own, s)>>
     ELSE CASE ty = "D" -> <<"app", At(<<"c", "d">>, s), <<>>>>
            [] ty = "C" -> <<"con", At(<<1, 2>>, s)>>
            [] ty = "B" -> At(<<<<"app", "a", <<>>>>, <<"app", "b", <<>>>>, <<"true">>, <<"false">>>>, Sub(s, 9))
            [] ty = "X" -> <<"box", <<"app", At(<<"c", "d">>, s), <<>>>>, <<"con", At(<<1, 2>>, Sub(s, 1))>>>>
            [] ty = "E" -> IF own # <<>> THEN <<"var", own[1]>> ELSE <<"none">>
HasE(vs) == VarsOf("E", vs) # <<>>
Fresh(ty, vs) == Filter(VarOrder, LAMBDA name : name \notin vs /\ VarTy[name] = ty)

\* Declared symbols that may occur are marked in vs by their name.
Declared(name, vs, times) == IF name \in vs THEN [i \in 1..times |-> name] ELSE <<>>
Atom(vs, n, s) ==
  LET kind == At(<<"eq", "eq", "eq", "p", "p", "q", "q", "t", "s", "eqC", "eqX", "other", "leaf", "feq">> \o Declared("dp", vs, 3), s)
  IN CASE kind = "eq" -> <<At(<<"eq", "ne">>, Sub(s, 8)), Gen("D", vs, n - 1, Sub(s, 1)), Gen("D", vs, n - 1, Sub(s, 2))>>
       [] kind \in {"p", "q", "t", "s", "dp"} -> GenApp(kind, vs, n, s)
       [] kind = "eqC" -> <<"eq", Gen("C", vs, n - 1, Sub(s, 1)), Gen("C", vs, n - 1, Sub(s, 2))>>
       [] kind = "eqX" -> <<"eq", Gen("X", vs, n - 1, Sub(s, 1)), Gen("X", vs, n, Sub(s, 2))>>
       [] kind = "feq" -> <<"feq", Gen("DD", vs, n - 1, Sub(s, 1)), Gen("DD", vs, n - 1, Sub(s, 2))>>
       [] kind = "leaf" -> Leaf("B", vs, s)
       [] OTHER -> IF "P" \in vs THEN <<"vapp", "P", Gen("D", vs, n - 1, Sub(s, 1))>>
                   ELSE IF HasE(vs) THEN <<"app", "r", <<Gen("E", vs, n - 1, Sub(s, 1))>>>>
                   ELSE GenApp("p", vs, n, s)

GenD(vs, n, s) ==
  LET kind == At(<<"leaf", "leaf", "f", "f", "h", "k", "F", "g", "ite", "fst">>
                 \o Declared("dm", vs, 2) \o Declared("ea", vs, 1) \o Declared("es", vs, 2) \o Declared("fs", vs, 2), s)
  IN CASE kind \in {"f", "h", "k", "dm", "ea", "es", "fs"} -> GenApp(kind, vs, n, s)
       [] kind = "F" /\ "F" \in vs -> <<"vapp", "F", Gen("D", vs, n - 1, Sub(s, 1))>>
       [] kind = "fst" -> <<"fst", Gen("X", vs, n - 1, Sub(s, 1))>>
       [] kind = "g" /\ HasE(vs) -> <<"app", "g", <<Gen("E", vs, n - 1, Sub(s, 1))>>>>
       [] kind = "ite" /\ n >= 2 -> <<"ite", Gen("B", vs, 0, Sub(s, 1)), Gen("D", vs, n - 2, Sub(s, 2)), Gen("D", vs, n - 2, Sub(s, 3))>>
       [] OTHER -> Leaf("D", vs, s)
GenDD(vs, n, s) ==
  LET kind == At(<<"f", "pap", "F", "fs", "lam">>, s)
      fresh == Fresh("D", vs)
  IN CASE kind = "pap" -> <<"pap", "h", Gen("D", vs, n, Sub(s, 1))>>
       [] kind = "F" /\ "F" \in vs -> <<"var", "F">>
       [] kind = "fs" /\ "fs" \in vs -> <<"fsym", "fs">>
       [] kind = "lam" /\ fresh # <<>> -> <<"lam", fresh[1], Gen("D", vs \cup {fresh[1]}, 1, Sub(s, 1))>>
       [] OTHER -> <<"fsym", "f">>
GenC(vs, n, s) ==
  LET kind == At(<<"leaf", "leaf", "l", "match", "snd">>, s)
  IN CASE kind = "snd" -> <<"snd", Gen("X", vs, n - 1, Sub(s, 1))>>
       [] kind = "l" -> GenApp("l", vs, n, s)
       [] kind = "match" /\ n >= 2 -> <<"match", Gen("C", vs, n - 2, Sub(s, 1)), Gen("C", vs, n - 2, Sub(s, 2)), Gen("C", vs, n - 2, Sub(s, 3))>>
       [] OTHER -> Leaf("C", vs, s)
GenX(vs, n, s) ==
  LET kind == At(<<"leaf", "box", "box", "e">>, s)
  IN CASE kind = "box" -> <<"box", Gen("D", vs, n - 1, Sub(s, 1)), Gen("C", vs, n - 1, Sub(s, 2))>>
       [] kind = "e" -> GenApp("e", vs, n, s)
       [] OTHER -> Leaf("X", vs, s)
GenB(vs, n, s) ==
  LET kind == At(<<"atom", "atom", "not", "and", "or", "or", "imp", "imp", "iff", "all", "ex", "ex", "ite", "match">>, s)
      ty == At(<<"D", "D", "D", "E", "C", "X", "DB", "DD", "B">>, Sub(s, 6))
      fresh == Fresh(ty, vs)
  IN CASE kind = "not" -> <<"not", Gen("B", vs, n - 1, Sub(s, 1))>>
       [] kind \in {"and", "or", "imp", "iff"} -> <<kind, Gen("B", vs, n - 1, Sub(s, 1)), Gen("B", vs, n - 1, Sub(s, 2))>>
       [] kind \in {"all", "ex"} /\ fresh # <<>> -> <<kind, fresh[1], Gen("B", vs \cup {fresh[1]}, n - 1, Sub(s, 1))>>
       [] kind = "ite" -> <<"ite", Atom(vs, 1, Sub(s, 1)), Gen("B", vs, n - 1, Sub(s, 2)), Gen("B", vs, n - 1, Sub(s, 3))>>
       [] kind = "match" -> <<"match", Gen("C", vs, 1, Sub(s, 1)), Gen("B", vs, n - 1, Sub(s, 2)), Gen("B", vs, n - 1, Sub(s, 3))>>
       [] OTHER -> Atom(vs, 2, Sub(s, 5))
Gen(ty, vs, n, s) ==
  IF ty = "DD" THEN GenDD(vs, n, s)
  ELSE IF n <= 0 THEN (IF ty = "B" THEN Atom(vs, 1, s) ELSE Leaf(ty, vs, s))
  ELSE CASE ty = "D" -> GenD(vs, n, s)
         [] ty = "C" -> GenC(vs, n, s)
         [] ty = "X" -> GenX(vs, n, s)
         [] ty = "E" -> Leaf("E", vs, s)
         [] ty = "B" -> GenB(vs, n, s)

\* The types of the parts of a term, to replace one of them.
TyOf(t) == CASE t[1] = "var" -> VarTy[t[2]]
             [] t[1] = "app" -> Sig[t[2]][2]
             [] t[1] = "vapp" -> IF t[2] = "F" THEN "D" ELSE "B"
             [] t[1] = "con" -> "C"
             [] t[1] = "none" -> "E"
             [] t[1] = "box" -> "X"
             [] t[1] \in {"lam", "pap"} -> "DD"
             [] t[1] = "fsym" -> IF t[2] = "p" THEN "DB" ELSE "DD"
             [] t[1] = "fst" -> "D"
             [] t[1] = "snd" -> "C"
             [] t[1] \in {"ite", "match"} -> "?"
             [] OTHER -> "B"
RECURSIVE TypeOf(_)
TypeOf(t) == IF t[1] \in {"ite", "match"} THEN TypeOf(t[3]) ELSE TyOf(t)

Kids(t) == CASE t[1] = "app" -> Len(t[3])
             [] t[1] = "vapp" -> 1
             [] t[1] \in {"var", "con", "true", "false", "none", "fsym"} -> 0
             [] t[1] \in {"all", "ex", "lam", "not", "fst", "snd", "pap"} -> 1
             [] t[1] \in {"ite", "match"} -> 3
             [] OTHER -> 2
Kid(t, i) == IF t[1] = "app" THEN t[3][i]
             ELSE IF t[1] \in {"vapp", "all", "ex", "lam", "pap"} THEN t[3] ELSE t[i + 1]
WithKid(t, i, kid) == IF t[1] = "app" THEN [t EXCEPT ![3][i] = kid]
                      ELSE IF t[1] \in {"vapp", "all", "ex", "lam", "pap"} THEN [t EXCEPT ![3] = kid]
                      ELSE [t EXCEPT ![i + 1] = kid]

\* One change somewhere inside: a part replaced, two parts exchanged, a connective changed.
RECURSIVE Mut(_, _, _)
Mut(t, vs, s) ==
  IF Kids(t) > 0 /\ ~Coin(s, 4)
  THEN LET i == ((H(Sub(s, 3)) \div 3) % Kids(t)) + 1
           vs2 == IF t[1] \in {"all", "ex", "lam"} THEN vs \cup {t[2]} ELSE vs
       IN WithKid(t, i, Mut(Kid(t, i), vs2, Sub(s, 1)))
  ELSE CASE t[1] \in {"and", "or", "imp", "iff"} ->
              (CASE At(<<1, 2, 3>>, s) = 1 -> <<At(<<"and", "or", "imp", "iff">>, Sub(s, 2)), t[2], t[3]>>
                 [] At(<<1, 2, 3>>, s) = 2 -> <<t[1], t[3], t[2]>>
                 [] OTHER -> At(<<t[2], t[3]>>, Sub(s, 4)))
         [] t[1] \in {"eq", "ne"} -> <<IF t[1] = "eq" THEN "ne" ELSE "eq", t[2], t[3]>>
         [] t[1] \in {"all", "ex"} -> <<IF t[1] = "all" THEN "ex" ELSE "all", t[2], t[3]>>
         [] t[1] = "ite" -> <<"ite", t[2], t[4], t[3]>>
         [] t[1] = "match" -> <<"match", t[2], t[4], t[3]>>
         [] t[1] = "app" /\ t[2] \in {"h", "q"} -> <<"app", t[2], <<t[3][2], t[3][1]>>>>
         [] t[1] = "not" -> t[2]
         [] t[1] \in {"lam", "fst", "snd", "fsym", "pap"} -> t
         [] TyOf(t) = "B" -> IF Coin(Sub(s, 6), 2) THEN <<"not", t>> ELSE Gen("B", vs, 0, Sub(s, 7))
         [] OTHER -> Gen(TyOf(t), vs, 1, Sub(s, 7))

\* Substitution of a closed term for a variable (no capture, since it is closed).
RECURSIVE Subst(_, _, _)
Subst(t, name, val) ==
  CASE t[1] = "var" -> IF t[2] = name THEN val ELSE t
    [] t[1] \in {"all", "ex", "lam"} -> IF t[2] = name THEN t ELSE <<t[1], t[2], Subst(t[3], name, val)>>
    [] t[1] = "app" -> <<"app", t[2], [i \in 1..Len(t[3]) |-> Subst(t[3][i], name, val)]>>
    [] t[1] = "vapp" -> <<"vapp", t[2], Subst(t[3], name, val)>>
    [] t[1] \in {"con", "true", "false", "none", "fsym"} -> t
    [] t[1] = "pap" -> <<"pap", t[2], Subst(t[3], name, val)>>
    [] t[1] \in {"not", "fst", "snd", "mix"} -> <<t[1], Subst(t[2], name, val)>>
    [] t[1] \in {"ite", "match"} -> <<t[1], Subst(t[2], name, val), Subst(t[3], name, val), Subst(t[4], name, val)>>
    [] OTHER -> <<t[1], Subst(t[2], name, val), Subst(t[3], name, val)>>
\* Strip leading universal quantifiers over D, C and B, giving each a closed value.
RECURSIVE Instance(_, _, _)
Instance(t, vs, s) ==
  IF t[1] # "all" \/ VarTy[t[2]] \notin {"D", "C", "X", "B"} THEN t
  ELSE Instance(Subst(t[3], t[2], Gen(VarTy[t[2]], vs, 1, Sub(s, 1))), vs, Sub(s, 2))
(* Does every clause of the conjunctive form of t (of its negation) mention a variable?
   A fact  forall(u: Em) { a }  is read as  a  although Em may be empty: a known finding,
   demonstrated on its own.  Elsewhere formulas are kept away from it: what is quantified
   over Em is mentioned by every clause. *)
RECURSIVE InAll(_, _, _)
InAll(t, pos, name) ==
  LET in(x, y) == InAll(x, y, name)
  IN CASE t[1] = "not" -> in(t[2], ~pos)
       [] t[1] = "and" -> IF pos THEN in(t[2], TRUE) /\ in(t[3], TRUE) ELSE in(t[2], FALSE) \/ in(t[3], FALSE)
       [] t[1] = "or" -> IF pos THEN in(t[2], TRUE) \/ in(t[3], TRUE) ELSE in(t[2], FALSE) /\ in(t[3], FALSE)
       [] t[1] = "imp" -> IF pos THEN in(t[2], FALSE) \/ in(t[3], TRUE) ELSE in(t[2], TRUE) /\ in(t[3], FALSE)
       [] t[1] = "iff" -> (in(t[2], FALSE) \/ in(t[3], pos)) /\ (in(t[2], TRUE) \/ in(t[3], ~pos))
       [] t[1] \in {"ite", "match"} /\ TypeOf(t) = "B" ->
            IF t[1] = "match" THEN (name \in FV(t[2]) \/ in(t[3], pos)) /\ (name \in FV(t[2]) \/ in(t[4], pos))
            ELSE (in(t[2], FALSE) \/ in(t[3], pos)) /\ (in(t[2], TRUE) \/ in(t[4], pos))
       [] t[1] \in {"all", "ex"} -> in(t[3], pos)
       [] OTHER -> name \in FV(t) /\ ~(t[1] \in {"eq", "feq"} /\ t[2] = t[3]) /\ ~(t[1] = "ne" /\ t[2] = t[3])
RECURSIVE Mindful(_)
Mindful(t) == /\ (t[1] = "all" /\ VarTy[t[2]] = "E") => InAll(t[3], TRUE, t[2])
              /\ (t[1] = "ex" /\ VarTy[t[2]] = "E") => InAll(t[3], FALSE, t[2])
              /\ \A i \in 1..Kids(t) : Mindful(Kid(t, i))
\* Are there parts with no closed term to stand there?
RECURSIVE Bad(_)
Bad(t) == t[1] = "none" \/ \E i \in 1..Kids(t) : Bad(Kid(t, i))
=============================================================================
