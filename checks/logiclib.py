"""Rendering the formulas of Semantics.tla as Acorn source, and running problems."""
import json, random
from vlib import *

TY = {"D": "Dm", "X": "Box", "E": "Em", "C": "Color", "B": "Bool", "DD": "Dm -> Dm", "DB": "Dm -> Bool"}
VARTY = {"x": "D", "y": "D", "z": "D", "u": "E", "v": "E", "m": "C", "n": "C", "o": "X", "w": "B",
         "F": "DD", "P": "DB", "i": "D", "j": "D"}
SIG = {"c": ([], "D"), "d": ([], "D"), "a": ([], "B"), "b": ([], "B"), "f": (["D"], "D"),
       "h": (["D", "D"], "D"), "g": (["E"], "D"), "k": (["C"], "D"), "l": (["D"], "C"),
       "p": (["D"], "B"), "q": (["D", "D"], "B"), "r": (["E"], "B"), "t": (["C"], "B"),
       "s": (["X"], "B"), "e": (["D"], "X")}
PREFIX = """type Dm: axiom
type Em: axiom
inductive Color {
    red
    blue
}
structure Box {
    fst: Dm
    snd: Color
}
let c: Dm = axiom
let d: Dm = axiom
let a: Bool = axiom
let b: Bool = axiom
let f: Dm -> Dm = axiom
let h: (Dm, Dm) -> Dm = axiom
let g: Em -> Dm = axiom
let k: Color -> Dm = axiom
let l: Dm -> Color = axiom
let p: Dm -> Bool = axiom
let q: (Dm, Dm) -> Bool = axiom
let r: Em -> Bool = axiom
let t: Color -> Bool = axiom
let s: Box -> Bool = axiom
let e: Dm -> Box = axiom
"""


def show(t, env=None, depth=0):
    """Source text; bound variables are renamed apart."""
    env = env or {}
    go = lambda u: show(u, env, depth)
    par = lambda u: go(u) if u[0] in ("var", "app", "vapp", "con", "mix", "box", "fst", "snd", "true", "false", "all", "ex", "fsym", "pap") else "(" + go(u) + ")"
    k = t[0]
    if k == "var":
        return env.get(t[1], t[1])
    if k == "app":
        return t[1] if not t[2] else "%s(%s)" % (t[1], ", ".join(map(go, t[2])))
    if k == "vapp":
        return "%s(%s)" % (env.get(t[1], t[1]), go(t[2]))
    if k == "con":
        return ["Color.red", "Color.blue"][t[1] - 1]
    if k == "mix":
        return "Color.mix(%s)" % go(t[1])
    if k == "box":
        return "Box.new(%s, %s)" % (go(t[1]), go(t[2]))
    if k in ("fst", "snd"):
        return "%s.%s" % (par(t[1]), k)
    if k in ("true", "false"):
        return k
    if k == "fsym":
        return t[1]
    if k == "pap":
        return "%s(%s)" % (t[1], go(t[2]))
    if k == "not":
        return "not " + par(t[1])
    if k == "ite":
        return "if %s { %s } else { %s }" % (go(t[1]), go(t[2]), go(t[3]))
    if k == "match":
        return "match %s {\nColor.red {\n%s\n}\nColor.blue {\n%s\n}\n}" % (go(t[1]), go(t[2]), go(t[3]))
    if k in ("all", "ex", "lam"):
        name = "%s%d" % (t[1].lower(), depth)
        body = show(t[2], dict(env, **{t[1]: name}), depth + 1)
        word = {"all": "forall", "ex": "exists", "lam": "function"}[k]
        return "%s(%s: %s) { %s }" % (word, name, TY[VARTY[t[1]]], body)
    op = {"eq": "=", "feq": "=", "ne": "!=", "and": "and", "or": "or", "imp": "implies", "iff": "iff"}[k]
    return "%s %s %s" % (par(t[1]), op, par(t[2]))


def statement(word, name, t, peel):
    """`theorem name(x: Dm) { ... }`, moving up to `peel` leading universals to arguments."""
    args, env, depth = [], {}, 0
    while peel and t[0] == "all":
        v = "%s%d" % (t[1].lower(), depth)
        env[t[1]] = v
        args.append("%s: %s" % (v, TY[VARTY[t[1]]]))
        t, depth, peel = t[2], depth + 1, peel - 1
    return "%s %s%s {\n%s\n}\n" % (word, name, "(%s)" % ", ".join(args) if args else "", show(t, env, depth))


def declaration(dc, rng):
    """Source of one declaration of Logic.tla."""
    k, body = dc["sym"], dc.get("body")
    if k == "dp":
        return "define dp(x: Dm) -> Bool {\n%s\n}\n" % show(body)
    if k == "dm":
        return "define dm(x: Dm, m: Color) -> Dm {\n%s\n}\n" % show(body)
    if k == "ea":
        return "let ea: Dm = %s\n" % show(body)
    if k == "es":
        return "let es: Dm satisfy {\n%s\n}\n" % show(body, {"x": "es"})
    if k == "fs":
        return "let fs(x: Dm) -> y: Dm satisfy {\n%s\n}\n" % show(body)
    return ""


SIG.update({"dp": (["D"], "B"), "dm": (["D", "C"], "D"), "ea": ([], "D"), "es": ([], "D"), "fs": (["D"], "D")})


def header(problem, rng):
    out = PREFIX
    for dc in problem["decls"]:
        out += declaration(dc, rng)
    for i, ax in enumerate(problem["axioms"]):
        out += statement("axiom", "ax%d" % (i + 1), ax, rng.choice([0, 0, 9, 9, 1]))
    return out


def module(problem, f, rng, peel=(0, 0, 9, 9, 1)):
    """Source of one module posing one goal; the 1-based line of the theorem."""
    out = header(problem, rng)
    return out + statement("theorem", "goal", f, rng.choice(peel)), out.count("\n") + 1


def problems_ops(problems, rng, build, pick=lambda p, g: True, peel=(0, 0, 9, 9, 1)):
    """One project per problem, one module per goal. Returns operations and what they pose."""
    all_ops, posed = [], []
    for p in problems:
        ops, what = [{"op": "write", "path": "acorn.toml", "content": ""}], {}
        for j, g in enumerate(p["goals"]):
            if pick(p, g):
                text, line = module(p, g["f"], rng, peel)
                what["m%d" % j] = dict(g, line=line, text=text)
                ops.append({"op": "write", "path": "src/m%d.ac" % j, "content": text})
        all_ops.append(ops + build)
        posed.append(what)
    return all_ops, posed


def outcomes(result, posed):
    """For each module: 'verified', 'not', 'error' or 'missing' for its theorem."""
    res, ranges, errors = {}, {}, {}
    for e in result["events"]:
        m = e.get("module")
        if m in posed:
            if e.get("verified"):
                ranges.setdefault(m, []).append(e["verified"])
            if "message" in e or "severity" in e or "log" in e:
                line = e.get("line")
                if line is not None:
                    errors.setdefault(m, []).append((line + 1 >= posed[m]["line"], e.get("severity", ""), e.get("message", e.get("log", ""))))
    for m, g in posed.items():
        mine = [x for x in errors.get(m, []) if x[0]]
        if any("Error" in str(x[1]) for x in errors.get(m, [])):
            res[m] = "error"
        elif mine:
            res[m] = "not"
        elif any(z + 1 >= g["line"] for a, z in ranges.get(m, [])):
            res[m] = "verified"
        else:
            res[m] = "missing"
    return res


def generate(walks, procs=2, cfg="Logic_sim.cfg", seed=None, module="Logic", tag="logic", depth=60):
    """Problems from random walks of the specification; independent walks in parallel."""
    import concurrent.futures
    base = (SEED if seed is None else seed) * 1000
    with concurrent.futures.ThreadPoolExecutor(procs) as pool:
        runs = list(pool.map(lambda i: tlc(module, cfg, workers=1, simulate=walks // procs, depth=depth, heap="2g",
                                           seed=base + i, timeout=800), range(procs)))
    return [p for r in runs for p in r.said(tag)], runs
