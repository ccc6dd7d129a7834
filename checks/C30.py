"""Changes of the server's project, views of it and the token that stops builds."""
from vlib import *


def run():
    c = Check("C30")
    exe = build("epochs")
    c.add_tlc(tlc("Epochs", "Epochs_mc.cfg"))
    c.add_tlc(tlc("Epochs", "Epochs_live.cfg"))
    for cfg, inv in (("Epochs_apart.cfg", "StoppedForAReason"), ("Epochs_early.cfg", "StoppedWhenChanged")):
        r = tlc("Epochs", cfg, must_pass=False)
        if not r.violated or r.violated.group(1) != inv:
            raise ToolError("%s should violate %s" % (cfg, inv))
    n = 30000 if THOROUGH else 6000
    g = tlc("Epochs", "Epochs_sim.cfg", workers=1, simulate=n, depth=90)
    c.add_tlc(g)
    scheds = g.said("TRACE")
    if len(scheds) < n // 2:
        raise ToolError("only %d schedules" % len(scheds))
    inp = write_lines("in", scheds)
    run_driver(exe, [inp, inp + ".out"])
    got = read_lines(inp + ".out")
    events = {}
    for tr in got:
        for st in tr:
            for e in st["evs"]:
                key = e["e"] + ("" if e.get("ok", True) else " refused")
                events[key] = events.get(key, 0) + 1
    c.extra["events"] = events
    v = tlc("EpochsTrace", "EpochsTrace.cfg", env={"TRACE_FILE": inp + ".out"}, workers=1)
    c.add_tlc(v)
    c.traces = len(got)
    c.sample({"schedule": scheds[0], "run": got[0]})
    for b in v.said("BAD"):
        c.violation("; ".join(b["rules"]), {"schedule": scheds[b["trace"] - 1], "run": got[b["trace"] - 1][:b["step"]]})
    for need in ("done refused", "view", "apply", "drop", "forget"):
        if events.get(need, 0) < 100:
            raise ToolError("too few %s events: %s" % (need, events))
    c.assumptions = ["coroutines are interleaved at suspension points of one thread (the server handles notifications and tasks as coroutines)"]
    c.finish()


main(run)
