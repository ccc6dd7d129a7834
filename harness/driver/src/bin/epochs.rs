//! Runs the language server's project manager under given schedules, one suspension point at a
//! time.  epochs IN.ndjson OUT.ndjson
//! Suspensions are forced with tokio's cooperative budget: a poll that has one unit left gets
//! through one lock and is then suspended at the next.
use acorn::project::{ProjectConfig, UsageMode};
use acorn::verif_project_manager::{ProjectManager, ProjectView};
use acorn_verif_driver::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use tokio_util::sync::CancellationToken;

enum Done {
    Mutated(bool, Option<u64>),
    View(ProjectView<'static>),
}
type Fut = Pin<Box<dyn Future<Output = Done>>>;

enum Proc {
    Running(Fut, usize),
    View(ProjectView<'static>),
    Kept(CancellationToken),
    Over,
}

/// Polls once with `left` units of budget.
async fn poll_with(fut: &mut Fut, left: usize) -> Poll<Done> {
    let mut out = None;
    poll_fn(|cx: &mut Context<'_>| {
        if out.is_none() {
            // a fresh poll of the task: 128 units
            let mut used = 0;
            while used < 128 - left {
                let mut f = Box::pin(tokio::task::consume_budget());
                if f.as_mut().poll(cx).is_pending() {
                    break;
                }
                used += 1;
            }
            out = Some(fut.as_mut().poll(cx));
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await;
    out.unwrap()
}

async fn replay(dir: &std::path::Path, trace: &Value) -> Value {
    let config = ProjectConfig { usage_mode: UsageMode::Ide, write_cache: false, ..Default::default() };
    let manager: &'static ProjectManager = Box::leak(Box::new(
        ProjectManager::new(dir.join("src"), dir.join("build"), config, false).unwrap(),
    ));
    let applied: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![]));
    let count = Arc::new(AtomicU64::new(0));
    let mut procs: BTreeMap<u64, Proc> = BTreeMap::new();
    let mut out: Vec<Value> = vec![];
    let mut evs: Vec<Value> = vec![];

    let steps = trace.as_array().unwrap();
    let mut k = 0;
    let mut extra = 0;
    loop {
        // after the given schedule: round robin until everything has ended
        let (op, p) = if k < steps.len() {
            (s(&steps[k], "op").to_string(), n(&steps[k], "p") as u64)
        } else {
            let todo: Vec<u64> = procs
                .iter()
                .filter(|(_, q)| matches!(q, Proc::Running(..) | Proc::View(_)))
                .map(|(p, _)| *p)
                .collect();
            if todo.is_empty() || extra > 400 {
                if !todo.is_empty() {
                    out.push(json!({"evs": [{"e": "stuck", "p": todo[0]}], "c": []}));
                }
                break;
            }
            let p = todo[extra % todo.len()];
            extra += 1;
            ("poll".to_string(), p)
        };
        let state = procs.remove(&p).unwrap_or(Proc::Over);
        let state = match (op.as_str(), state) {
            ("start", Proc::Over | Proc::Kept(_)) => {
                let kind = s(&steps[k], "kind").to_string();
                let epoch = steps[k]["epoch"].as_i64().unwrap();
                let log = applied.clone();
                let cnt = count.clone();
                let f = move |_: &mut acorn::project::Project| {
                    log.lock().unwrap().push(p);
                    cnt.fetch_add(1, Ordering::SeqCst);
                };
                let odd = k % 2 == 1;
                evs.push(json!({"e": "invoke", "p": p, "kind": kind, "epoch": epoch}));
                let fut: Fut = match kind.as_str() {
                    "mutate" if odd => Box::pin(async move {
                        manager.mutate(f).await;
                        Done::Mutated(true, None)
                    }),
                    "mutate" => Box::pin(async move {
                        Done::Mutated(true, Some(manager.mutate_with_epoch(f).await.1))
                    }),
                    "mutateif" if odd => Box::pin(async move {
                        Done::Mutated(manager.mutate_if_epoch(epoch as u64, f).await.is_ok(), None)
                    }),
                    "mutateif" => Box::pin(async move {
                        match manager.mutate_if_epoch_with_epoch(epoch as u64, f).await {
                            Ok((_, e)) => Done::Mutated(true, Some(e)),
                            Err(()) => Done::Mutated(false, None),
                        }
                    }),
                    _ => Box::pin(async move { Done::View(manager.read().await) }),
                };
                // what runs before the first suspension is part of the first poll
                Proc::Running(fut, 0)
            }
            ("poll", Proc::Running(mut fut, polls)) => {
                let got = poll_with(&mut fut, polls.min(1)).await;
                for q in applied.lock().unwrap().drain(..) {
                    evs.push(json!({"e": "apply", "p": q}));
                }
                match got {
                    Poll::Pending => Proc::Running(fut, polls + 1),
                    Poll::Ready(Done::Mutated(ok, epoch)) => {
                        evs.push(json!({"e": "done", "p": p, "ok": ok,
                                        "epoch": epoch.map_or(-1, |e| e as i64)}));
                        Proc::Over
                    }
                    Poll::Ready(Done::View(v)) => {
                        evs.push(json!({"e": "view", "p": p, "epoch": v.epoch}));
                        Proc::View(v)
                    }
                }
            }
            ("poll" | "drop", Proc::View(v)) => {
                evs.push(json!({"e": "drop", "p": p}));
                Proc::Kept(v.cancel.clone())
            }
            ("forget", Proc::Kept(_)) => {
                evs.push(json!({"e": "forget", "p": p}));
                Proc::Over
            }
            (_, state) => state,
        };
        procs.insert(p, state);
        k += 1;
        let cancelled: Vec<u64> = procs
            .iter()
            .filter(|(_, q)| match q {
                Proc::View(v) => v.cancel.is_cancelled(),
                Proc::Kept(t) => t.is_cancelled(),
                _ => false,
            })
            .map(|(p, _)| *p)
            .collect();
        out.push(json!({"evs": std::mem::take(&mut evs), "c": cancelled}));
    }
    Value::Array(out)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = tempfile::tempdir().unwrap();
    std::fs::create_dir_all(dir.path().join("src")).unwrap();
    std::fs::write(dir.path().join("acorn.toml"), "").unwrap();
    quiet_panics();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut results = vec![];
    for t in read_lines(&args[1]).iter() {
        results.push(match guarded(|| rt.block_on(replay(dir.path(), t))) {
            Ok(v) => v,
            Err(e) => json!([{"evs": [{"e": "panic", "p": 0, "message": e}], "c": []}]),
        });
    }
    write_lines(&args[2], &results);
}
