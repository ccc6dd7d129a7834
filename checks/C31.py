"""C31: the server's copy of an open document is the editor's document."""
import copy
from vlib import *


def strip(step):
    """What the specification predicts for one step, in the driver's vocabulary."""
    return step["obs"]


def compare(trace, got):
    if isinstance(got, dict):
        return "panic: %s" % got["panic"]
    for i, (step, g) in enumerate(zip(trace, got)):
        if g is None:  # not the last edit of its notification
            continue
        if step["op"] == "close":
            if not g.get("closed"):
                return "document still open after close"
            continue
        want = strip(step)
        for k in ("lines", "changed", "saved", "env"):
            if g[k] != want[k]:
                return "after step %d (%s): %s is %r, specification says %r" % (
                    i, step["op"], k, g[k], want[k])
        for ln, (line, prefs) in enumerate(zip(want["lines"], g["prefixes"])):
            if prefs != [line[:n] for n in range(len(line) + 1)]:
                return "after step %d: prefixes of line %d are %r" % (i, ln, prefs)
    return None


def main_():
    c = Check("C31")
    exe = build("livedoc")
    c.add_tlc(tlc("LiveDoc", "LiveDoc_mc.cfg"))
    n = 20000 if THOROUGH else 4000
    r = tlc("LiveDoc", "LiveDoc_sim.cfg", workers=1, simulate=n)
    c.add_tlc(r)
    traces = r.said("TRACE")
    if len(traces) < n // 2:
        raise ToolError("only %d behaviours generated" % len(traces))
    inp, out = write_lines("in", traces), os.path.join(tmpdir(), "out")
    run_driver(exe, [inp, out])
    ops = {}
    for t, g in zip(traces, read_lines(out)):
        bad = compare(t, g)
        c.traces += 1
        for s in t:
            ops[s["op"]] = ops.get(s["op"], 0) + 1
        c.sample({"behaviour": t, "code": g})
        if bad:
            c.violation(bad, {"behaviour": t, "code": g})
    c.extra["operations"] = ops
    # the comparison must be able to fail
    t = copy.deepcopy(traces[0]); t[0]["obs"]["saved"] += 1
    if compare(t, read_lines(out)[0]) is None:
        raise ToolError("a corrupted behaviour was accepted")
    c.assumptions = ["no lone CR line endings", "columns are UTF-16 code units (LSP default)"]
    c.finish()


main(main_)
