"""Certificates for statements that are false: what the checker must reject."""
import copy
from logiclib import *
from evalib import *

KINDS = """false_lit ite_left ite_right ite_left_then ite_left_else ite_right_then ite_right_else fn_neq_exists
signed_not bool_eq_to_eq pos_forall pos_exists_wit pos_exists neg_forall_exists neg_exists pos_and_left pos_and_right
neg_and pos_or neg_or_left neg_or_right bool_eq_l_or_not_r bool_eq_not_l_or_r bool_neq_not_l_or_not_r
bool_neq_l_or_r""".split()
CLOSED = {"D": ["c", "d", "f(c)", "h(c, d)", "k(Color.red)"], "C": ["Color.red", "Color.blue", "l(c)"],
          "B": ["a", "b", "true", "false"], "X": ["Box.new(c, Color.red)", "e(d)"],
          "DB": ["p", "function(x9: Dm) { a }"], "DD": ["f"]}


def neg(t):
    return t[1] if t[0] == "not" else ["not", t]


def one_line(s):
    return " ".join(s.split())


def wrap(t, args):
    """function(x: T, ...) { body }(args), peeling as many universals as there are arguments."""
    env, bs, depth = {}, [], 0
    for _ in args:
        v = "%s%d" % (t[1].lower(), depth)
        env[t[1]] = v
        bs.append("%s: %s" % (v, TY[VARTY[t[1]]]))
        t, depth = t[2], depth + 1
    return "function(%s) { %s }(%s)" % (", ".join(bs), one_line(show(t, env, depth)), ", ".join(args))


def universals(t):
    n = 0
    while t[0] == "all" and VARTY[t[1]] in CLOSED:
        n, t = n + 1, t[2]
    return n


def instance_text(t, rng):
    n = universals(t)
    if n == 0:
        return one_line(show(t))
    n, args, u = rng.randint(1, n), [], t
    for _ in range(n):
        args.append(rng.choice(CLOSED[VARTY[u[1]]]))
        u = u[2]
    return wrap(t, args)


def subformulas(t):
    yield t
    if t[0] in ("and", "or", "imp", "iff"):
        yield from subformulas(t[1])
        yield from subformulas(t[2])
    elif t[0] == "not":
        yield from subformulas(t[1])


def step(text, rule=None, f=(), g=False, k=None, i=None):
    s = {}
    if rule and rule != "claim":
        s["r"] = rule
    s["c"] = text
    if f:
        s["f"] = list(f)
    if g:
        s["g"] = True
    if k:
        s["k"], s["i"] = k, i
    return s


def says(dc):
    """What a declaration states (Says of Logic.tla)."""
    v = lambda n: ["var", n]
    k, b = dc["sym"], dc.get("body")
    if k == "dp":
        return ["all", "x", ["iff", ["app", "dp", [v("x")]], b]]
    if k == "dm":
        return ["all", "x", ["all", "m", ["eq", ["app", "dm", [v("x"), v("m")]], b]]]
    if k == "ea":
        return ["eq", ["app", "ea", []], b]
    if k == "es":
        return subst(b, "x", ["app", "es", []])
    if k == "fs":
        return ["all", "x", subst(b, "y", ["app", "fs", [v("x")]])]
    return None


def subst(t, name, val):
    """Subst of Semantics.tla."""
    if t == ["var", name]:
        return val
    if t[0] in ("all", "ex", "lam") and t[1] == name:
        return t
    return [subst(u, name, val) if isinstance(u, list) and u and isinstance(u[0], str)
            else [subst(w, name, val) for w in u] if isinstance(u, list) else u for u in t]


def known(problem):
    """Known of Logic.tla; None stands for a declaration left out."""
    return problem["axioms"] + list(map(says, problem["decls"]))


def last_steps(target, rng):
    """Ways to state the target at the end of a certificate."""
    rule = rng.choice(["claim", "fact", "br", "br", "br", "br_intro", "eq", "er", "ef", "ext", "inj", "inst", "contra"])
    f = rng.choice([[], [0], [0], [0], [1], [0, 1], [1, 0], [0, 1, 2]])
    g = rng.random() < 0.35
    if rule == "contra":
        return [step("false", "contra", f)]
    if rule == "br":
        return [step(target, "br", f or [0], g, rng.choice(KINDS), rng.choice([0, 0, 0, 1, 2]))]
    return [step(target, rule, f, g)]


def directed(problem, g, rng):
    """Known statements as premises, then the false statement by some rule."""
    facts = [f for f in known(problem) if f] + [neg(g["f"])]
    source = known(problem)[g["from"] - 1] if g["from"] else None
    steps = []
    for j in range(rng.choice([1, 1, 1, 2, 3])):
        t = source if source and rng.random() < 0.7 else rng.choice(facts)
        steps.append(step(instance_text(t, rng) if rng.random() < 0.6 else one_line(show(t)),
                          rng.choice(["claim", "claim", "fact"])))
    t = g["f"]
    r = rng.random()
    target = one_line(show(t)) if r < 0.6 else instance_text(t, rng) if r < 0.8 else one_line(show(neg(neg(t))))
    if rng.random() < 0.15:
        return steps + witnesses(facts, t, rng)
    return steps + last_steps(target, rng)


def existentials(facts):
    """Formulas that claim something exists, as (outer universals, variable, condition)."""
    for t in facts:
        for sign, u in ((True, t), (False, neg(t))):
            outer = []
            while u[0] == "all":
                outer.append(u[1])
                u = u[2]
            if u[0] == "ex":
                yield outer, u[1], u[2]
            elif u[0] == "not" and u[1][0] == "all":
                yield outer, u[1][1], neg(u[1][2])


def witnesses(facts, goal, rng):
    """Names chosen where nothing need exist, or whose meaning is taken already."""
    name = rng.choice(["w0", "w0", "w0", "s0", "c", "d", "ea", "es", "p", "f", "dp"])
    have = [e for e in existentials(facts + [goal]) if e[1] in VARTY]
    r = rng.random()
    if r < 0.2:
        ty = rng.choice(["Em", "Em", "Dm", "Em -> Em", "Em -> Dm", "Dm -> Em"])
        first = "let %s: %s satisfy { %s }" % (name, ty, rng.choice(["true", "a", "not b", "true or a", "%s = %s" % (name, name)]))
    elif r < 0.3:
        first = "let %s(x9: Dm) -> y9: %s satisfy { %s }" % (
            name, rng.choice(["Dm", "Em", "Color"]), rng.choice(["true", "y9 = y9", "a", "p(x9)"]))
    elif have:
        outer, v, cond = rng.choice(have)
        env = {u: "%s9" % u.lower() for u in outer}
        if outer and rng.random() < 0.7:
            args = ", ".join("%s: %s" % (env[u], TY[VARTY[u]]) for u in outer)
            env[v] = "v9"
            first = "let %s(%s) -> v9: %s satisfy { %s }" % (name, args, TY[VARTY[v]], one_line(show(cond, env)))
        else:
            env = {u: rng.choice(CLOSED.get(VARTY[u], ["c"])) for u in outer}
            env[v] = name
            first = "let %s: %s satisfy { %s }" % (name, TY[VARTY[v]], one_line(show(cond, env)))
    else:
        first = "let %s: Dm satisfy { %s }" % (name, one_line(show(goal)))
    steps = [step(first, "wit", rng.choice([[], [], [0], [0, 1]]), rng.random() < 0.2)]
    r = rng.random()
    if r < 0.4:
        steps += last_steps(one_line(show(goal)), rng)
    elif r < 0.6 and have:
        outer, v, cond = rng.choice(have)
        if not outer:
            steps += last_steps(one_line(show(cond, {v: name})), rng)
    if rng.random() < 0.3:
        steps.append(step("false", "contra", rng.choice([[], [0], [0, 1]])))
    return steps


def transplanted(problem, g, proofs, rng):
    """The proof of another statement, changed in a place or two."""
    steps = copy.deepcopy(rng.choice(proofs))
    texts = [one_line(show(t)) for t in known(problem) + [g["f"], neg(g["f"])] if t] + [s["c"] for p in proofs for s in p if not s["c"].startswith("let ")]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        if not steps:
            break
        j = rng.randrange(len(steps))
        s = steps[j]
        what = rng.choice(["text", "text", "premise", "kind", "index", "rule", "drop", "swap", "generic", "extra"])
        if what == "text" and not s["c"].startswith("let "):
            s["c"] = rng.choice(texts)
        elif what == "premise":
            s["f"] = [rng.randrange(len(steps)) for _ in range(rng.choice([1, 1, 2]))]
        elif what == "kind" and s.get("r") == "br":
            s["k"] = rng.choice(KINDS)
        elif what == "index" and "i" in s:
            s["i"] = rng.choice([0, 1, 2])
        elif what == "rule" and s.get("r") != "wit":
            s["r"] = rng.choice(["claim", "fact", "br_intro", "eq", "er", "ef", "ext", "inj", "inst", "contra"])
        elif what == "drop":
            del steps[j]
        elif what == "swap" and j:
            steps[j], steps[j - 1] = steps[j - 1], steps[j]
        elif what == "generic":
            s["g"] = not s.get("g", False)
        elif what == "extra":
            steps.insert(j, step(rng.choice(texts), rng.choice(["claim", "fact", "br_intro", "eq"])))
    return steps


def attacks(problem, g, proofs, n, rng):
    model = Model(problem, {"goal": g["truth"]})
    res, dropped = [], 0
    while len(res) < n and dropped < 4 * n:
        steps = transplanted(problem, g, proofs, rng) if proofs and rng.random() < 0.45 else directed(problem, g, rng)
        if alias_shape(steps, model):
            dropped += 1
            continue
        res.append(steps)
    return res, dropped
