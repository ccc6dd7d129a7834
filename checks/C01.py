"""C01: what is reported verified is true. Problems with a known answer come from walks of
Logic.tla: a finite model, declarations and axioms that hold in it, and goals whose truth in
the model is computed by the specification. The real verifier is asked for a proof of every
goal; a proof reported for a goal that is false in the model is a violation."""
from logiclib import *


VACUOUS = """type Em: axiom
let a: Bool = axiom
axiom about_each(u: Em) {
    a
}
theorem goal {
    a
}
"""


def probe_findings(c, binary):
    """Inputs on which the property is known to fail, each posed exactly as listed."""
    ops = [{"op": "write", "path": "acorn.toml", "content": ""},
           {"op": "write", "path": "src/m0.ac", "content": VACUOUS}, {"op": "build", "activations": 60, "timeout": 20}]
    out = os.path.join(tmpdir(), "probe.ndjson")
    run_driver(binary, [write_lines("probe_in.ndjson", [ops]), out])
    if outcomes(read_lines(out)[0][-1], {"m0": {"line": 6}})["m0"] == "verified":
        c.violation("a is reported verified from forall(u: Em) { a } although Em may be empty",
                    {"source": VACUOUS}, key="vacuous-quantifier")


def run():
    c = Check("C01", "model_checking")
    binary = build("buildsys")
    r = tlc("Logic", "Logic_mc.cfg", workers=3)
    c.add_tlc(r)
    probs, runs = generate(6000 if THOROUGH else 640, 8 if THOROUGH else 4)
    for r in runs:
        c.add_tlc(r)
    rng = random.Random(SEED)
    probe_findings(c, binary)
    total = {}
    for act, chunk in [(60, probs)] + ([(500, probs[:1200])] if THOROUGH else []):
        ops, posed = problems_ops(chunk, rng, [{"op": "build", "jobs": 1, "activations": act, "timeout": 20}])
        out = os.path.join(tmpdir(), "out.ndjson")
        run_driver(binary, [write_lines("in.ndjson", ops), out, 8], timeout=3000)
        for res, what, p in zip(read_lines(out), posed, chunk):
            res = res[-1]
            if res["status"] in ("setup_error", "panic"):
                # Nothing is verified then.
                c.extra["not run"] = c.extra.get("not run", 0) + 1
                if c.extra["not run"] > 100:
                    raise ToolError("build did not run: %s" % str(res)[:500])
                continue
            c.traces += 1
            for m, o in outcomes(res, what).items():
                g = what[m]
                k = "%s/%s" % (g["truth"], o)
                total[k] = total.get(k, 0) + 1
                if o == "verified" and not g["truth"]:
                    c.violation("a goal that is false in a model of the axioms was reported verified",
                                {"source": g["text"], "goal": show(g["f"]), "how": g["how"], "model": p["model"]})
                if o == "verified" and g["truth"]:
                    c.sample({"goal": show(g["f"]), "how": g["how"]})
    log("truth/outcome:", total)
    c.extra["goals"] = total
    if total.get("True/verified", 0) < 0.4 * sum(n for k, n in total.items() if k.startswith("True/")):
        raise ToolError("too few true goals are proved for the check to mean anything: %s" % total)
    if total.get("False/not", 0) < 100:
        raise ToolError("too few false goals posed: %s" % total)
    c.assumptions = ["Axioms are those of the module and are true in the model; 1-3 elements, at most 2 in the possibly empty type.",
                     "The default scoring model is not available here; the handcrafted one chooses the search order."]
    c.finish()


main(run)
