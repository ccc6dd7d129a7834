"""C40: a goal may use exactly what is visible to it. Scopes.tla builds modules with nested
proof blocks and imports and follows all two-element models at once; the modules are rendered
as Acorn source and verified. A goal reported verified although some model of everything
visible refutes it, or not verified although it is literally among the visible facts, is a
violation."""
from logiclib import *

BASE = """type Dm: axiom
inductive Color {
    red
    blue
    mix(Dm)
}
let c: Dm = axiom
let a: Bool = axiom
let f: Dm -> Dm = axiom
let l: Dm -> Color = axiom
let p: Dm -> Bool = axiom
"""


def name(n):
    return "m%dt%d" % (n["module"], n["no"])


class Text:
    def __init__(self):
        self.lines, self.depth, self.goals, self.open = [], 0, [], []

    def add(self, s):
        self.lines.append("    " * self.depth + " ".join(s.split()))
        return len(self.lines)

    def goal(self, lines, item, exp=None):
        self.goals.append({"lines": lines, "op": item["op"], "exp": exp or item["exp"]})


def case(k):
    if k["case"] == 3:
        return "Color.mix(%s) {" % k["var"][0]
    return ["Color.red {", "Color.blue {"][k["case"] - 1]


def render(m, problem):
    t = Text()
    t.add("from base import Dm, Color, c, a, f, l, p")
    for i in problem["modules"][m]["imports"]:
        names = ["k%d" % i] + [name(th["name"]) for th in problem["modules"][i - 1]["theorems"]]
        t.add("from m%d import %s" % (i, ", ".join(names)))
    t.add("let k%d: Bool = axiom" % (m + 1))
    theorems = {}
    for it in problem["modules"][m]["out"]:
        op = it["op"]
        if op == "axiom":
            t.add("axiom %s { %s }" % (name(it["name"]), show(it["f"])))
        elif op == "claim":
            s = show(it["f"])
            t.goal([t.add("(%s)" % s if s.startswith(("forall", "exists")) else s)], it)
        elif op in ("cite", "claimown"):
            args = "(%s)" % ", ".join(map(show, it["args"])) if it["args"] else ""
            n = t.add(name(it["name"]) + args)
            if op == "claimown":
                t.goal([n], it)
        elif op == "let":
            t.goal([t.add("let %s: Dm satisfy { %s }" % (it["var"], show(it["body"])))], it)
        elif op == "name":
            t.add("let %s: Dm = %s" % (it["var"], show(it["body"])))
        elif op == "forall":
            t.add("forall(%s: Dm) {" % it["var"])
            t.depth += 1
        elif op == "if":
            t.add("if %s {" % show(it["f"]))
            t.depth += 1
        elif op == "else":
            t.depth -= 1
            t.add("} else {")
            t.depth += 1
        elif op == "match":
            t.add("match %s {" % show(it["term"]))
            t.depth += 1
            t.add(case(it["case"]))
            t.depth += 1
        elif op == "case":
            t.depth -= 1
            t.add("}")
            t.add(case(it["case"]))
            t.depth += 1
        elif op == "close":
            t.depth -= 1
            t.add("}")
        elif op == "close2":
            for _ in range(2):
                t.depth -= 1
                t.add("}")
        elif op == "theorem":
            args = "(%s)" % ", ".join("%s: Dm" % v for v in it["args"]) if it["args"] else ""
            first = t.add("%s %s%s {" % ("lemma" if it["lemma"] else "theorem", name(it["name"]), args))
            t.depth += 1
            t.add(show(it["f"]))
            t.depth -= 1
            last = t.add("} by {" if it["by"] else "}")
            if it["by"]:
                t.depth += 1
                theorems[name(it["name"])] = list(range(first, last + 1)), it
            else:
                t.goal(list(range(first, last + 1)), it)
        elif op == "endtheorem":
            t.depth -= 1
            t.add("}")
            lines, th = theorems[name(it["name"])]
            t.goal(lines, th, it["exp"])
        else:
            raise ToolError("unknown item " + op)
    return "\n".join(t.lines) + "\n", t.goals


def run():
    c = Check("C40", "model_checking")
    binary = build("buildsys")
    c.add_tlc(tlc("Scopes", "Scopes_mc.cfg", workers=8))
    probs, runs = generate(6000 if THOROUGH else 720, 8, cfg="Scopes_sim.cfg", seed=SEED, module="Scopes", tag="scopes", depth=150)
    for r in runs:
        c.add_tlc(r)
    ops, posed = [], []
    for p in probs:
        o = [{"op": "write", "path": "acorn.toml", "content": ""}, {"op": "write", "path": "src/base.ac", "content": BASE}]
        what = {}
        for m in range(len(p["modules"])):
            text, goals = render(m, p)
            what["m%d" % (m + 1)] = text, goals
            o.append({"op": "write", "path": "src/m%d.ac" % (m + 1), "content": text})
        ops.append(o + [{"op": "build", "jobs": 1, "activations": 100, "timeout": 20}])
        posed.append(what)
    out = os.path.join(tmpdir(), "out.ndjson")
    run_driver(binary, [write_lines("in.ndjson", ops), out, 8], timeout=3000)
    total = {}
    for res, what, p in zip(read_lines(out), posed, probs):
        res = res[-1]
        if res["status"] in ("setup_error", "panic", "error"):
            errors = [e for e in res.get("events", []) if "Error" in str(e.get("severity"))]
            c.violation("modules that use only what is visible are not accepted",
                        {"errors": errors[:2], "result": str(res)[:300], "source": {n: t for n, (t, _) in what.items()}})
            continue
        c.traces += 1
        for m, (text, goals) in what.items():
            said = {e["line"] + 1 for e in res["events"] if e.get("module") == m and "message" in e and e.get("line") is not None}
            for g in goals:
                failed, exp = bool(said & set(g["lines"])), g["exp"]
                k = "%s%s/%s" % ("refuted" if exp["refuted"] else "open", ",visible" if exp["known"] else "", "not" if failed else "verified")
                total[k] = total.get(k, 0) + 1
                where = {"module": m, "lines": g["lines"], "source": {n: t for n, (t, _) in what.items()}}
                if exp["refuted"] and not failed:
                    c.violation("a goal that some model of everything visible refutes was reported verified", where)
                elif exp["known"] and exp["consistent"] and failed:
                    c.violation("a goal that is among the visible facts was not verified", where)
                elif not failed:
                    c.sample(where)
    log("goals:", total)
    c.extra["goals"] = total
    if total.get("refuted/not", 0) < 300 or total.get("open,visible/verified", 0) < 50:
        raise ToolError("too few goals: %s" % total)
    c.assumptions = ["Every module of a project is verified; claims that fail count as visible afterwards, as the verifier documents by its warnings."]
    c.finish()


main(run)
