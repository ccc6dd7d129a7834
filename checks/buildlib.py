"""Rendering build-system histories to files and operations, and what was observed back."""
import json, re
from vlib import *

ACTIVATIONS = 40
NAMES = ["m1", "d.m2", "m3", "d.e.m4"]


def fname(m):
    return "src/" + NAMES[m - 1].replace(".", "/") + ".ac"


def certname(m):
    p = NAMES[m - 1].split(".")
    return "src/" + "/".join(p[:-1] + ["certs", p[-1] + ".jsonl"])


def text(m, c):
    if c["k"] == "err":
        return "define f%d(x: Bool) -> Bool {\n" % m
    deps = [d + 1 for d, x in enumerate(c["deps"]) if x and d + 1 < m]
    out = ["// padding"] * c["pad"]
    out += ["from %s import f%d" % (NAMES[d - 1], d) for d in deps]
    e = "x"
    for d in deps:
        e = "f%d(%s)" % (d, e)
    if c["neg"]:
        e = "not " + e
    out.append("define f%d(x: Bool) -> Bool { %s }" % (m, e))
    if c["k"] == "axiom":
        out.append("axiom ax%d { f%d(true) or f%d(false) }" % (m, m, m))
    for i, v in enumerate(c["thms"]):
        arg, same = ("true", "f%d(true)" % m) if i == 0 else ("false", "not f%d(false)" % m)
        diff = "not f%d(true)" % m if i == 0 else "f%d(false)" % m
        out.append("theorem t%d { %s }" % (i + 1, same if v == "T" else diff))
    return "\n".join(out) + "\n"


def target(t):
    return {} if t == 0 else {"target": NAMES[t - 1]}


def build_op(e, jobs=None):
    o = {"op": "build", "jobs": jobs or e.get("jobs", 1), "activations": ACTIVATIONS, "timeout": 100}
    o.update(target(e["t"]))
    if e["op"] == "check":
        o.update(mode="check", strict=bool(e["strict"]))
        return o
    k = e["kind"]
    if k == "nohash":
        o["check_hashes"] = False
    elif k == "force":
        o["force"] = True
    elif k == "failfast":
        o["fail_fast"] = True
    return o


def render(hist, jobs=None):
    """Driver operations for a history; each model step becomes [op, files]."""
    ops = [{"op": "write", "path": "acorn.toml", "content": ""},
           {"op": "write", "path": "src/.keep", "content": ""}, {"op": "files"}]
    for e in hist:
        if e["op"] == "edit":
            if e["c"]["k"] == "none":
                ops.append({"op": "remove", "path": fname(e["m"])})
            else:
                ops.append({"op": "write", "path": fname(e["m"]), "content": text(e["m"], e["c"])})
        else:
            ops.append(build_op(e, jobs))
        ops.append({"op": "files"})
    return ops


def goals_in(files, m):
    t = files.get(certname(m))
    if t is None:
        return []
    res = []
    for l in t.splitlines():
        g = json.loads(l)["goal"]
        res.append(int(g[1:]) if re.fullmatch(r"t\d", g) else 99)
    return res


def manifest_keys(files):
    t = files.get("src/certs/manifest.json")
    return set(json.loads(t)["implementation"]) if t else set()


def observe(n, out, before, after):
    """What the specification sees of one build."""
    names = {NAMES[m - 1]: m for m in range(1, n + 1)}
    st, failed = ["no"] * n, [[] for _ in range(n)]
    for md in out.get("modules", []):
        m = names.get(md["module"])
        if m:
            st[m - 1] = "skip" if md["skipped"] else "run"
    for ev in out.get("events", []):
        if ev.get("severity") == "Some(Warning)" and ev["module"] in names:
            g = re.match(r"t(\d) ", ev["message"])
            failed[names[ev["module"]] - 1].append(int(g.group(1)) if g else 99)
    keys = manifest_keys(after)
    nb = {k: v for k, v in before.items()}
    return {"status": out["status"], "st": st, "failed": failed,
            "searches": out.get("metrics", {}).get("searches_total", 0),
            "certs": [goals_in(after, m) for m in range(1, n + 1)],
            "man": [1 if fname(m)[4:] in keys else 0 for m in range(1, n + 1)],
            "same": 1 if nb == after else 0}


def attach(n, hist, res):
    """hist with observations, from a driver result for render(hist)."""
    tr = []
    files = res[2]
    for k, e in enumerate(hist):
        out, after = res[3 + 2 * k], res[4 + 2 * k]
        e = dict(e)
        if e["op"] != "edit":
            e["obs"] = observe(n, out, files, after)
        files = after
        tr.append(e)
    return tr


def replay(binary, ops, env=None):
    inp = write_lines("in.ndjson", ops)
    out = inp + ".out"
    run_driver(binary, [inp, out, "8"], timeout=850, env=env)
    return read_lines(out)


def validate(c, n, traces, name):
    """Trace-check recorded histories; returns [(rules, trace prefix)]."""
    path = write_lines(name, traces)
    v = tlc("BuildTrace", "BuildTrace%d.cfg" % n, env={"TRACE_FILE": path}, timeout=900)
    c.add_tlc(v)
    return [(b["rules"], traces[b["trace"] - 1][:b["step"]]) for b in v.said("BAD")]


def run_histories(prop, kinds):
    """Generate histories, run them on the real build system, and check what was observed
    against BuildTrace; only the rules of the given kinds count for this property."""
    c = Check(prop)
    binary = build("buildsys")
    c.add_tlc(tlc("BuildSystem", "BuildSystem_mc.cfg"))
    if THOROUGH:
        c.add_tlc(tlc("BuildSystem", "BuildSystem_deep.cfg", heap="16g", timeout=3000))
    sets = []
    e = tlc("BuildSystem", "BuildSystem_enum%s.cfg" % ("_deep" if THOROUGH else ""), timeout=900)
    sets.append((2, sorted(e.said("TRACE"), key=json.dumps)))
    g = tlc("BuildSystem", "BuildSystem_sim.cfg", workers=1,
            simulate=8000 if THOROUGH else 1200, depth=40, timeout=900)
    sets.append((3, g.said("TRACE")))
    stats = {}
    for n, hists in sets:
        res = replay(binary, [render(h) for h in hists])
        traces = [attach(n, h, r) for h, r in zip(hists, res)]
        c.traces += len(traces)
        c.sample([{k: x for k, x in e.items() if k != "c"} for e in traces[len(traces) // 2]])
        for t in traces:
            for e in t:
                if e["op"] != "edit":
                    key = e["op"] + " " + e["obs"]["status"]
                    stats[key] = stats.get(key, 0) + 1
                    if "skip" in e["obs"]["st"]:
                        stats["with skips"] = stats.get("with skips", 0) + 1
        for rules, t in validate(c, n, traces, "traces%d.ndjson" % n):
            mine = [r for r in rules if r.split(":")[0] in kinds]
            if mine:
                c.violation("; ".join(mine), t)
    c.extra["builds"] = stats
    c.finish()
