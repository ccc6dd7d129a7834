"""C02: no certificate makes a false statement verified. For goals that Logic.tla knows to be
false in a model of everything visible, certificates are made up - known statements followed
by the false one under every rule, real proofs of other statements moved over and altered -
and the real verifier, given no time to search, must reject every one of them."""
from attacklib import *

ALIAS = ('type Dm: axiom\nlet p: Dm -> Bool = axiom\nlet c: Dm = axiom\nlet d: Dm = axiom\n'
         'axiom pc { p(c) }\ntheorem goal { p(d) }\n',
         [step("function(x: Dm) { p(x) }(c)"), step("function(x: Dm) { p(x) }(d)"), step("false", "contra")])


def cert_lines(all_steps):
    return "".join(json.dumps({"goal": "goal", "p": s}) + "\n" for s in all_steps)


def run():
    c = Check("C02", "model_checking")
    binary = build("buildsys")
    probs, runs = generate(3200 if THOROUGH else 400, 8 if THOROUGH else 4, seed=SEED + 90)
    for r in runs:
        c.add_tlc(r)
    rng = random.Random(SEED)
    out = os.path.join(tmpdir(), "out.ndjson")
    start = {"op": "write", "path": "acorn.toml", "content": ""}
    # Real proofs of the true goals, and which goals are not proved.
    ops, posed = problems_ops(probs, rng, [{"op": "build", "jobs": 1, "activations": 100, "timeout": 20}, {"op": "files"}],
                              lambda p, g: True, peel=[0])
    run_driver(binary, [write_lines("in.ndjson", ops), out, 8], timeout=3000)
    per_goal = 300 if THOROUGH else 120
    batch, expect = [], []
    n_attacks = n_dropped = n_control = 0
    for res, what, p in zip(read_lines(out), posed, probs):
        b, files = res[-2], res[-1]
        if b["status"] in ("setup_error", "panic"):
            # Nothing is verified then.
            c.extra["not run"] = c.extra.get("not run", 0) + 1
            if c.extra["not run"] > 100:
                raise ToolError("build did not run: %s" % str(b)[:500])
            continue
        o = outcomes(b, what)
        proofs, by = [], {}
        for m in o:
            for line in (files.get("src/certs/%s.jsonl" % m) or "").splitlines():
                j = json.loads(line)
                if j["goal"] == "goal" and j["p"]:
                    by[m] = j["p"]
                    if what[m]["truth"]:
                        proofs.append(j["p"])
        ops2, mods = [start], {}
        for m in o:
            g = what[m]
            if g["truth"]:
                if m in by and len(mods) % 4 == 0:
                    # Control: the genuine proof after many bad ones is found and accepted.
                    bad, _ = attacks(p, dict(g, f=neg(g["f"]), truth=True), proofs, 10, rng)
                    certs = [s for s in bad] + [by[m]]
                    mods[m] = "control"
                else:
                    continue
            elif o[m] == "not":
                certs, dropped = attacks(p, g, proofs, per_goal, rng)
                n_attacks, n_dropped = n_attacks + len(certs), n_dropped + dropped
                mods[m] = "attack"
            else:
                continue
            ops2.append({"op": "write", "path": "src/%s.ac" % m, "content": g["text"]})
            ops2.append({"op": "write", "path": "src/certs/%s.jsonl" % m, "content": cert_lines(certs)})
        if mods:
            batch.append(ops2 + [{"op": "build", "jobs": 1, "activations": 1, "timeout": 5}, {"op": "files"}])
            expect.append((what, mods, p))
    batch.append([start, {"op": "write", "path": "src/m0.ac", "content": ALIAS[0]},
                  {"op": "write", "path": "src/certs/m0.jsonl", "content": cert_lines([ALIAS[1]])},
                  {"op": "build", "jobs": 1, "activations": 1, "timeout": 5}, {"op": "files"}])
    expect.append(({"m0": {"line": 6}}, {}, None))
    run_driver(binary, [write_lines("in2.ndjson", batch), out, 8], timeout=3000)
    trivially = refused = 0
    for res, (what, mods, p) in zip(read_lines(out), expect):
        b, files = res[-2], res[-1]
        if b["status"] in ("setup_error", "panic"):
            c.violation("a certificate makes the build fail to run", {"result": str(b)[:2000]})
            continue
        o = outcomes(b, what)
        if p is None:
            if o["m0"] == "verified":
                c.violation("a statement that holds of one value is accepted of all", {"certificate": ALIAS[1]}, key="instance-as-generalization")
            continue
        c.traces += 1
        for m, kind in mods.items():
            cert = [json.loads(l) for l in (files.get("src/certs/%s.jsonl" % m) or "").splitlines()]
            used = [j["p"] for j in cert if j["goal"] == "goal"]
            if kind == "control":
                n_control += 1
                if o[m] != "verified":
                    refused += 1
            elif o[m] == "verified":
                c.violation("a certificate for a statement that is false in a model of the axioms was accepted",
                            {"goal": show(what[m]["f"]), "accepted": used[:1], "source": what[m]["text"], "model": p["model"]})
            elif o[m] == "error":
                c.extra["errors"] = c.extra.get("errors", 0) + 1
            else:
                c.sample({"false_goal": show(what[m]["f"]), "certificates_rejected": per_goal})
    log("attacks", n_attacks, "left out", n_dropped, "controls", n_control, "refused", refused)
    c.extra.update(certificates_rejected=n_attacks, genuine_accepted=n_control - refused)
    if n_attacks < 5000 or n_control < 30 or 2 * refused > n_control:
        raise ToolError("controls failed: %d attacks, %d of %d genuine proofs refused" % (n_attacks, refused, n_control))
    c.assumptions = ["Certificates claiming an instance that may hold of a generalization that does not are left out: a known finding, posed on its own."]
    c.finish()


main(run)
