"""What the editor shows whenever the language server has come to rest."""
from buildlib import *


def source(m, c):
    if c["k"] == "err":
        return "theorem t1 {\n"
    deps = [d + 1 for d, x in enumerate(c["deps"]) if x]
    out = ["from %s import c%d" % (NAMES[d - 1], d) for d in deps]
    if not deps:
        v = "false" if c["neg"] else "true"
    else:
        v = "c%d" % deps[0]
        for d in deps[1:]:
            v = "(%s = c%d)" % (v, d)
        v = "not " + v if c["neg"] else v
    out.append("let c%d: Bool = %s" % (m, v))
    for i, t in enumerate(c["thms"]):
        out.append("theorem t%d { %sc%d }" % (i + 1, "" if t == "T" else "not ", m))
    return "\n".join(out) + "\n"


def save(e):
    return {"op": "save", "file": fname(e["m"]), "text": source(e["m"], e["c"]), "version": e["version"]}


def ops(hist):
    out = [{"op": "write", "file": fname(m + 1), "text": source(m + 1, c)} for m, c in enumerate(hist[0]["src"])]
    for e in hist[1:]:
        if e["op"] == "save":
            out.append(save(e))
        elif e["op"] == "saves":
            out.append({"op": "saves", "all": [save(x) for x in e["all"]]})
        elif e["op"] == "close":
            out.append({"op": "close", "file": fname(e["m"])})
        else:
            out.append({k: e[k] for k in ("op", "more") if k in e})
    return out


def wrong(m, x, shown):
    """Why what is shown about module m does not meet what is expected of it, if it does not."""
    doc = shown.get(fname(m)) or {"version": None, "list": []}
    errors = [d for d in doc["list"] if d["severity"] != "Some(Warning)"]
    theorems = set()
    for d in doc["list"]:
        g = re.match(r"t(\d) ", d["message"])
        if d["severity"] == "Some(Warning)":
            theorems.add(int(g.group(1)) if g else 99)
    if doc["list"] and doc["version"] is not None and doc["version"] != x["version"]:
        return "what is shown is of an old version"
    if x["is"] == "nothing" and doc["list"]:
        return "something is shown about a module that nothing saved affects"
    if x["is"] == "error" and not errors:
        return "no error is shown in a module that does not parse"
    if x["is"] == "error" and theorems:
        return "theorems are shown in a module that does not parse"
    if x["is"] == "theorems":
        if errors:
            return "an error is shown in a module that loads"
        if not theorems <= set(x["may"]):
            return "theorem shown that holds"
        if not set(x["must"]) <= theorems and not (x["none"] and not theorems):
            return "false theorem not shown"
    return None


def run():
    c = Check("C32")
    exe = build("editor")
    c.add_tlc(tlc("EditorTasks", "EditorTasks_mc.cfg"))
    c.add_tlc(tlc("EditorTasks", "EditorTasks_live.cfg"))
    if THOROUGH:
        c.add_tlc(tlc("EditorTasks", "EditorTasks_deep.cfg", heap="16g", timeout=3000))
    for cfg in ("remember", "restart", "scoped", "ordered"):
        r = tlc("EditorTasks", "EditorTasks_%s.cfg" % cfg, must_pass=False)
        if not r.violated or r.violated.group(1) != "Current":
            raise ToolError("EditorTasks_%s.cfg should violate Current" % cfg)
    n = 6000 if THOROUGH else 1200
    g = tlc("Editor", "Editor_sim.cfg", workers=1, simulate=n, depth=60)
    c.add_tlc(g)
    hists = g.said("TRACE")
    if len(hists) < n:
        raise ToolError("only %d histories" % len(hists))
    inp = write_lines("in", [ops(h) for h in hists])
    run_driver(exe, [inp, inp + ".out", 12], timeout=850 if not THOROUGH else 3400)
    kinds = {}
    for h, o, res in zip(hists, read_lines(inp), read_lines(inp + ".out")):
        rests = [e for e in h if e["op"] == "settle"]
        if isinstance(res, dict):
            c.violation("the server panicked: " + res["panic"], {"history": o})
            continue
        got = [r for r in res if r]
        if len(got) != len(rests):
            raise ToolError("%d rests, %d reports" % (len(rests), len(got)))
        c.traces += 1
        c.sample({"history": o, "shown": got})
        for k, (e, r) in enumerate(zip(rests, got)):
            if not r["rest"]:
                c.violation("the server does not say that it is done", {"history": o, "rest": k + 1, "shown": r["shown"]})
                break
            bad = [(m, w) for m, w in ((m + 1, wrong(m + 1, x, r["shown"])) for m, x in enumerate(e["expect"])) if w]
            for x in e["expect"]:
                key = x["is"] + (" must" if x["must"] else "") + (" near broken" if x["none"] else "")
                kinds[key] = kinds.get(key, 0) + 1
            if bad:
                c.violation("%s: %s" % (NAMES[bad[0][0] - 1], bad[0][1]),
                            {"history": o, "rest": k + 1, "expected": e["expect"], "shown": r["shown"]})
                break
    c.extra["expected"] = kinds
    log("expected", kinds)
    for need in ("theorems must", "theorems", "error near broken", "nothing"):
        if kinds.get(need, 0) < n // 10:
            raise ToolError("too few: %s" % kinds)
    c.assumptions = ["notifications are handled four at a time, as tower-lsp does by default; the schedules of the server's tasks are those that happened",
                     "a rest is when the server reports its build as finished and no build as running"]
    c.finish()


main(run)
