"""Killing a build while it saves never makes a later build or check report the wrong thing."""
import concurrent.futures, os, shutil
from vlib import *
from buildlib import *

TOML = "[editor]\nline_width = 97\n"


def shim(**kw):
    e = {"LD_PRELOAD": os.path.join(VERIF, "build", "shim.so")}
    e.update({k: str(v) for k, v in kw.items()})
    return e


def files_of(root):
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, root)] = h.read().decode("utf8", "replace")
    return res


def certs_after(files, m):
    t = files.get(certname(m))
    if t is None:
        return []
    try:
        if t and not t.endswith("\n"):
            return [-1]
        return goals_in(files, m)
    except ValueError:
        return [-1]


def run():
    c = Check("C12", level="model_checking")
    binary = build("buildsys")
    c.add_tlc(tlc("BuildSystem", "BuildSystem_crash_%s.cfg" % ("deep" if THOROUGH else "invalidate")))
    n = 2
    e = tlc("BuildSystem", "BuildSystem_enum_crash.cfg", timeout=900)
    hists = [h for h in e.said("TRACE") if h[-1]["op"] == "verify"]
    hists.sort(key=json.dumps)
    # The last verification dies; it is also tried ignoring what is recorded.
    cases = []
    for h in hists:
        for kind in ("normal", "nohash"):
            cases.append(h[:-1] + [dict(h[-1], kind=kind)])
    import random
    rnd = random.Random(SEED)
    rnd.shuffle(cases)
    cases = cases[:len(cases) if THOROUGH else 160]
    top = os.path.join(tmpdir(), "crash")
    os.makedirs(top)

    def ops_in(d, ops):
        return [{"op": "dir", "path": d}] + ops

    # Everything before the interrupted build, in a directory of its own.
    pre = []
    for i, h in enumerate(cases):
        d = os.path.join(top, "p%d" % i)
        os.makedirs(d)
        ops = render(h[:-1])
        ops[0]["content"] = TOML
        pre.append(ops_in(d, ops))
    pre_res = [r[1:] for r in replay(binary, pre)]

    def crash_points(i):
        h = cases[i]
        src = os.path.join(top, "p%d" % i)
        base = files_of(src)
        op = build_op(h[-1])

        def attempt(tag, **kw):
            d = os.path.join(top, "c%d_%s" % (i, tag))
            shutil.copytree(src, d)
            inp = d + ".json"
            with open(inp, "w") as f:
                f.write(json.dumps(ops_in(d, [op])) + "\n")
            p = run_driver(binary, [inp, inp + ".out", "1"], env=shim(SHIM_DIR=d + "/", **kw), ok_codes=(0, 77))
            return d, p.returncode

        log_path = os.path.join(top, "log%d" % i)
        d, _ = attempt("full", SHIM_LOG=log_path)
        full = files_of(d)
        shutil.rmtree(d)
        try:
            with open(log_path) as f:
                kinds = [l.split()[1] for l in f]
        except OSError:
            kinds = []
        res = []
        for k, kind in enumerate(kinds, 1):
            for torn in ((0, 1, 2) if kind == "write" else (0, 2)):
                # 0 dies before the call, 1 half-way through the write, 2 the call fails
                if torn == 2:
                    d, rc = attempt("%d_f" % k, SHIM_FAIL=k)
                else:
                    d, rc = attempt("%d_%d" % (k, torn), SHIM_CRASH=k, SHIM_TORN=torn)
                    if rc != 77:
                        continue
                after = files_of(d)
                obs = {"certs": [certs_after(after, m) for m in range(1, n + 1)],
                       "kept": [1 if after.get(certname(m)) == base.get(certname(m)) else 0
                                for m in range(1, n + 1)],
                       "man": [1 if fname(m)[4:] in manifest_keys_safe(after) else 0
                               for m in range(1, n + 1)],
                       "manKept": 1 if after.get("src/certs/manifest.json") == base.get("src/certs/manifest.json") else 0,
                       "done": 1 if after.get("src/certs/manifest.json") == full.get("src/certs/manifest.json") else 0,
                       "config": 1 if TOML.strip() in after.get("acorn.toml", "") else 0}
                res.append((d, i, "%s %d/%d%s" % (kind, k, len(kinds), ("", " torn", " fails")[torn]), obs))
        return res

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        crashed = [x for l in ex.map(crash_points, range(len(cases))) for x in l]

    # What follows: verify and check; or first take back the last edit.
    runs = []
    for d, i, what, obs in crashed:
        h = cases[i]
        follow = [[]]
        edits = [k for k, e in enumerate(h) if e["op"] == "edit"]
        if edits and edits[-1] > n:
            m = h[edits[-1]]["m"]
            prev = [h[k]["c"] for k in edits[:-1] if h[k]["m"] == m]
            follow.append([{"op": "edit", "m": m, "c": prev[-1]}])
        for j, f in enumerate(follow):
            dd = d
            if j:
                dd = d + "_r"
            runs.append((dd, d, i, what, obs, f + [
                {"op": "verify", "t": 0, "kind": "normal", "jobs": 1},
                {"op": "check", "t": 0, "strict": 0, "jobs": 1}]))
    for dd, d, *_ in runs:
        if dd != d:
            shutil.copytree(d, dd)
    post = []
    for dd, d, i, what, obs, f in runs:
        post.append(ops_in(dd, render(f)[2:]))
    out = replay(binary, post)
    traces = []
    for (dd, d, i, what, obs, f), r in zip(runs, out):
        h = cases[i]
        tr = attach(n, h[:-1], pre_res[i])
        tr.append({"op": "crash", "t": h[-1]["t"], "kind": h[-1]["kind"], "obs": obs, "where": what})
        tr += attach(n, f, [None, None, r[1]] + r[2:])
        traces.append(tr)
    c.traces = len(traces)
    c.extra["crash_points"] = len(crashed)
    c.extra["interrupted_builds"] = len(cases)
    if traces:
        c.sample(traces[len(traces) // 2])
    for rules, t in validate(c, n, traces, "crash.ndjson"):
        c.violation("; ".join(rules), t)
    c.assumptions.append("a crash ends the process between two file-system calls or half-way through a write; "
                         "completed calls survive; or the call fails (no space) and the process goes on")
    c.finish()


def manifest_keys_safe(files):
    try:
        return manifest_keys(files)
    except ValueError:
        return {"damaged"}


if __name__ == "__main__":
    main(run)
