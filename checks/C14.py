"""A build on several threads gives what a build on one thread gives."""
import json, os
import buildlib
from vlib import *
from buildlib import *


def essence(out):
    """What must not depend on the number of threads."""
    if out.get("status") in ("error", "panic", "setup_error"):
        # After an error the build stops early, where depends on the schedule.
        return {"status": out["status"]}
    per = {}
    for ev in out["events"]:
        ev = {k: v for k, v in ev.items() if k != "progress"}
        if ev["module"] == "<anonymous>":
            continue
        per.setdefault(ev["module"], []).append(ev)
    progress = [ev["progress"] for ev in out["events"] if "progress" in ev]
    return {"status": out["status"], "events": per, "modules": out["modules"], "metrics": out["metrics"],
            "finished": progress[-1] if progress else None}


def monotone(out):
    last = (0, 0)
    for ev in out.get("events", []):
        if "progress" in ev:
            if ev["progress"][0] < last[0] or ev["progress"][0] > ev["progress"][1]:
                return False
            last = ev["progress"]
    return True


def saved(files):
    """Files to compare. Leftover certificates of replaced goals are written in hash-table
    order, goal by goal, also by a serial build: compare certificates goal by goal."""
    res = {}
    for f, t in files.items():
        if f.endswith(".jsonl"):
            per = {}
            for l in t.splitlines():
                per.setdefault(json.loads(l)["goal"], []).append(l)
            res[f] = per
        else:
            res[f] = t
    return res


def run():
    c = Check("C14")
    binary = build("buildsys")
    c.add_tlc(tlc("Pipeline", "Pipeline.cfg"))
    n = 4
    buildlib.ACTIVATIONS = 300
    g = tlc("BuildSystem", "BuildSystem_sim4.cfg", workers=1,
            simulate=2500 if THOROUGH else 300, depth=40, timeout=900)
    hists = [[e if e["op"] == "edit" or e.get("kind") != "failfast" else dict(e, kind="normal")
              for e in h] for h in g.said("TRACE")]
    serial = replay(binary, [render(h, 1) for h in hists])
    traces = [attach(n, h, r) for h, r in zip(hists, serial)]
    for rules, t in validate(c, n, traces, "serial.ndjson"):
        c.violation("serial build: " + "; ".join(rules), t)
    runs = [(2, None), (3, SEED), (8, SEED + 1)]
    if THOROUGH:
        runs += [(j, SEED + k) for j in (2, 3, 4, 8) for k in range(5)]
    builds = 0
    for jobs, jitter in runs:
        env = None
        if jitter is not None:
            env = {"LD_PRELOAD": os.path.join(VERIF, "build", "shim.so"), "SHIM_JITTER": str(jitter)}
        par = replay(binary, [render(h, jobs) for h in hists], env=env)
        for h, a, b in zip(hists, serial, par):
            for k, e in enumerate(h):
                x, y = a[3 + 2 * k], b[3 + 2 * k]
                if e["op"] == "edit":
                    continue
                builds += 1
                if essence(x) != essence(y):
                    c.violation("%d threads: the build differs" % jobs,
                                {"history": h[:k + 1], "serial": essence(x), "parallel": essence(y)})
                    break
                if not monotone(y):
                    c.violation("progress goes backwards with %d threads" % jobs, {"history": h[:k + 1]})
                if saved(a[4 + 2 * k]) != saved(b[4 + 2 * k]):
                    c.violation("%d threads: the files left behind differ" % jobs,
                                {"history": h[:k + 1], "serial": a[4 + 2 * k], "parallel": b[4 + 2 * k]})
                    break
    c.traces = len(hists) * (1 + len(runs))
    c.extra["parallel_builds_compared"] = builds
    c.sample(hists[0])
    c.finish()


if __name__ == "__main__":
    main(run)
