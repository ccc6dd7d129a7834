//! Interprets histories of edits and builds on a scratch project, through the same entry
//! points the command line uses.  buildsys IN.ndjson OUT.ndjson [JOBS]
//! Each input line is a list of operations; each output line the list of what was observed.
use acorn::builder::BuildStatus;
use acorn::project::{ProjectConfig, UsageMode};
use acorn::prover::{ScoringConfig, ScoringPolicy};
use acorn::verifier::{LineSelection, Verifier};
use acorn_verif_driver::*;
use serde_json::{json, Map, Value};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn b(v: &Value, k: &str, default: bool) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(default)
}

fn run_build(root: &Path, op: &Value) -> Result<Value, String> {
    let check = op.get("mode").and_then(|m| m.as_str()) == Some("check");
    let force = b(op, "force", false);
    let config = ProjectConfig {
        usage_mode: if check { UsageMode::Check } else { UsageMode::Verify },
        use_filesystem: true,
        read_cache: b(op, "read_cache", !force),
        write_cache: b(op, "write_cache", !check && !force),
        update_version: b(op, "update_version", false),
    };
    let target = op.get("target").and_then(|t| t.as_str()).map(|t| t.to_string());
    let start = root.join(op.get("cwd").and_then(|c| c.as_str()).unwrap_or(""));
    let verifier = if check {
        Verifier::new_for_check(start, config, target)
    } else {
        Verifier::new(start, config, target)
    };
    let mut v = verifier.map_err(|e| format!("setup: {}", e.cli_message()))?;
    v.builder.check_mode = check;
    v.builder.strict = b(op, "strict", false);
    v.builder.check_hashes = !check && !force && b(op, "check_hashes", true);
    v.builder.force_search = force;
    v.builder.check_jobs = op.get("jobs").and_then(|j| j.as_u64()).unwrap_or(1) as usize;
    v.builder.operation_verb = if check { "checked" } else { "verified" };
    v.exit_on_warning = b(op, "fail_fast", false);
    let policy = match op.get("policy").and_then(|p| p.as_str()) {
        Some("depth_first") => ScoringPolicy::DepthFirst,
        _ => ScoringPolicy::Handcrafted,
    };
    v.builder.scoring_config = ScoringConfig::new(policy);
    if let Some(t) = op.get("timeout").and_then(|t| t.as_f64()) {
        v.builder.timeout_secs = t as f32;
    }
    if let Some(a) = op.get("activations").and_then(|t| t.as_i64()) {
        v.builder.activation_limit = a as i32;
    }
    if let Some(l) = op.get("line").and_then(|l| l.as_u64()) {
        v.line_selection = Some(LineSelection::Single(l as u32));
    }
    if let Some(r) = op.get("lines").and_then(|l| l.as_array()) {
        v.line_selection = Some(LineSelection::Range(
            r[0].as_u64().unwrap() as u32,
            r[1].as_u64().unwrap() as u32,
        ));
    }
    v.goal_index = op.get("goal_index").and_then(|l| l.as_u64()).map(|x| x as usize);
    if let Some(c) = op.get("cert") {
        v.builder.cert_override =
            Some(serde_json::from_value(c.clone()).map_err(|e| format!("cert json: {e}"))?);
    }
    let out = v.run().map_err(|e| format!("run: {e}"))?;
    let events: Vec<Value> = out
        .events
        .iter()
        .map(|e| {
            let mut m = Map::new();
            m.insert("module".into(), json!(e.module.to_string()));
            if let Some((d, t)) = e.progress {
                m.insert("progress".into(), json!([d, t]));
            }
            if let Some(l) = &e.log_message {
                m.insert("log".into(), json!(l));
            }
            if let Some(d) = &e.diagnostic {
                m.insert("severity".into(), json!(format!("{:?}", d.severity)));
                m.insert("line".into(), json!(d.range.start.line));
                m.insert("message".into(), json!(d.message));
            }
            if let Some((a, z)) = e.verified {
                m.insert("verified".into(), json!([a, z]));
            }
            Value::Object(m)
        })
        .collect();
    let mut timings: Vec<Value> = out
        .module_timings
        .iter()
        .map(|t| {
            json!({"module": t.module.to_string(), "skipped": t.skipped,
                   "goals": [t.goals_done, t.goals_total],
                   "certs_cached": t.certs_cached, "certs_created": t.certs_created,
                   "searches": [t.searches_success, t.searches_total]})
        })
        .collect();
    timings.sort_by_key(|t| t["module"].as_str().unwrap().to_string());
    let m = &out.metrics;
    Ok(json!({
        "status": match out.status {
            BuildStatus::Good => "good", BuildStatus::Warning => "warning",
            BuildStatus::Error => "error" },
        "events": events,
        "modules": timings,
        "metrics": {"goals_total": m.goals_total, "goals_done": m.goals_done,
            "goals_success": m.goals_success, "certs_cached": m.certs_cached,
            "certs_unused": m.certs_unused, "certs_created": m.certs_created,
            "searches_total": m.searches_total, "searches_success": m.searches_success,
            "modules_total": m.modules_total, "modules_cached": m.modules_cached},
    }))
}

fn tree(root: &Path, dir: &Path, out: &mut Map<String, Value>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.filter_map(Result::ok) {
        let p = e.path();
        if p.is_dir() {
            tree(root, &p, out);
        } else if let Ok(text) = std::fs::read(&p) {
            out.insert(
                p.strip_prefix(root).unwrap().to_string_lossy().to_string(),
                json!(String::from_utf8_lossy(&text)),
            );
        }
    }
}

fn step(root: &Path, op: &Value) -> Value {
    match s(op, "op") {
        "write" => {
            let p = root.join(s(op, "path"));
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, s(op, "content")).unwrap();
            Value::Null
        }
        "remove" => {
            let p = root.join(s(op, "path"));
            if p.is_dir() {
                let _ = std::fs::remove_dir_all(p);
            } else {
                let _ = std::fs::remove_file(p);
            }
            Value::Null
        }
        "dir" => Value::Null,
        "files" => {
            let mut m = Map::new();
            tree(root, root, &mut m);
            Value::Object(m)
        }
        "build" => match guarded(|| run_build(root, op)) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => json!({"status": "setup_error", "message": e}),
            Err(p) => json!({"status": "panic", "message": p}),
        },
        o => panic!("unknown op {o}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    let scenarios = read_lines(&args[1]);
    let jobs: usize = args.get(3).and_then(|j| j.parse().ok()).unwrap_or(8);
    let results: Vec<Mutex<Value>> = scenarios.iter().map(|_| Mutex::new(Value::Null)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..jobs {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= scenarios.len() {
                        break;
                    }
                    let dir = tempfile::tempdir().unwrap();
                    let ops = scenarios[i].as_array().unwrap();
                    // {"op":"dir","path":P} as the first operation: work in P instead.
                    let root = match ops.first() {
                        Some(op) if s(op, "op") == "dir" => std::path::PathBuf::from(s(op, "path")),
                        _ => dir.path().to_path_buf(),
                    };
                    let out: Vec<Value> = ops.iter().map(|op| step(&root, op)).collect();
                    *results[i].lock().unwrap() = Value::Array(out);
                })
                .unwrap();
        }
    });
    let results: Vec<Value> = results.into_iter().map(|m| m.into_inner().unwrap()).collect();
    write_lines(&args[2], &results);
}
