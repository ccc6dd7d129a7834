"""C03: a proof that was found and saved is accepted by every later check of the same text.
Problems come from walks of Logic.tla; what the verifier reports as proved is rebuilt from
its saved certificates alone, in check mode and in verification without search."""
from logiclib import *


def run():
    c = Check("C03", "model_checking")
    binary = build("buildsys")
    probs, runs = generate(6000 if THOROUGH else 800, 8 if THOROUGH else 4, seed=SEED + 50)
    for r in runs:
        c.add_tlc(r)
    rng = random.Random(SEED)
    out = os.path.join(tmpdir(), "out.ndjson")
    pick = lambda p, g: g["truth"]
    ops, posed = problems_ops(probs, rng, [{"op": "build", "jobs": 1, "activations": 150, "timeout": 20}, {"op": "files"}], pick)
    run_driver(binary, [write_lines("in.ndjson", ops), out, 8], timeout=3000)
    again, expect = [], []
    proofs = steps = 0
    rules = {}
    for res, what, p in zip(read_lines(out), posed, probs):
        b, files = res[-2], res[-1]
        if b["status"] in ("setup_error", "panic"):
            # Nothing is verified then.
            c.extra["not run"] = c.extra.get("not run", 0) + 1
            if c.extra["not run"] > 100:
                raise ToolError("build did not run: %s" % str(b)[:500])
            continue
        o = outcomes(b, what)
        complain = {e["module"] for e in b["events"] if "message" in e}
        keep = sorted(m for m in o if o[m] == "verified" and m not in complain)
        # The same text and certificates in a new project.
        ops2 = [{"op": "write", "path": "acorn.toml", "content": ""}]
        lost = []
        for m in keep:
            cert = files.get("src/certs/%s.jsonl" % m)
            if not cert:
                if b["status"] != "error":
                    lost.append(m)
                continue
            for line in cert.splitlines():
                proof = json.loads(line)
                proofs += 1
                for st in proof["p"] or []:
                    steps += 1
                    k = st.get("k") or st.get("r", "claim")
                    rules[k] = rules.get(k, 0) + 1
            ops2.append({"op": "write", "path": "src/%s.ac" % m, "content": what[m]["text"]})
            ops2.append({"op": "write", "path": "src/certs/%s.jsonl" % m, "content": cert})
        if lost:
            c.violation("goals were reported verified but no certificate was saved",
                        {"sources": [what[m]["text"] for m in lost[:2]]})
        if len(ops2) > 1:
            again.append(ops2 + [{"op": "build", "mode": "check", "strict": False, "jobs": rng.choice([1, 3])},
                                 {"op": "build", "activations": 1, "timeout": 5, "check_hashes": False}])
            expect.append((what, [o2["path"] for o2 in ops2 if o2["path"].endswith(".jsonl")], ops2))
    run_driver(binary, [write_lines("in2.ndjson", again), out, 8], timeout=3000)
    for res, (what, certs, ops2) in zip(read_lines(out), expect):
        c.traces += 1
        check, verify = res[-2], res[-1]
        if check["status"] != "good":
            e = [x for x in check.get("events", []) if "Error" in str(x.get("severity")) or "Warning" in str(x.get("severity"))]
            c.violation("a saved proof is rejected when it is checked", {"status": check["status"], "events": e[:2], "files": ops2[1:7]})
        elif verify["status"] != "good" or verify["metrics"]["searches_total"] != 0:
            c.violation("a saved proof was searched for again", {"status": verify["status"], "metrics": verify["metrics"], "files": ops2[1:5]})
    log("proofs", proofs, "steps", steps, rules)
    c.extra["proofs_rechecked"], c.extra["steps_by_rule"] = proofs, rules
    if proofs < 200:
        raise ToolError("only %d proofs were found" % proofs)
    c.assumptions = ["Proof search runs with the handcrafted policy; proofs are those it finds within 150 activations."]
    c.finish()


main(run)
