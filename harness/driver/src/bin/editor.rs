//! Plays histories of saves and closes against the language server, and reports what the editor
//! has been told whenever the server is at rest.
//! editor IN.ndjson OUT.ndjson [JOBS]     one history (a list of ops) per line
use acorn::interfaces::{ProgressParams, SelectionParams};
use acorn::server::{AcornLanguageServer, LspClient, ServerArgs};
use acorn_verif_driver::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tower_lsp::lsp_types::*;
use tower_lsp::LanguageServer;

#[derive(Default)]
struct Client {
    shown: Mutex<BTreeMap<String, (Option<i32>, Vec<Diagnostic>)>>,
    count: AtomicU64,
    root: String,
}

#[async_trait::async_trait]
impl LspClient for Client {
    async fn publish_diagnostics(&self, u: Url, d: Vec<Diagnostic>, v: Option<i32>) {
        self.count.fetch_add(1, Ordering::SeqCst);
        let name = u.path().strip_prefix(&self.root).unwrap_or(u.path()).to_string();
        self.shown.lock().unwrap().insert(name, (v, d));
    }
}

const PATIENCE: Duration = Duration::from_secs(8);

struct Session<'a> {
    server: AcornLanguageServer,
    client: Arc<Client>,
    root: &'a Path,
}

impl Session<'_> {
    fn url(&self, file: &str) -> Url {
        Url::from_file_path(self.root.join(file)).unwrap()
    }

    async fn building(&self) -> bool {
        let params = SelectionParams { uri: self.url("src/none.ac"), version: 0, selected_line: 0, id: 0 };
        self.server.handle_selection_request(params).await.unwrap().building
    }

    /// Waits until no build is running or due. Gives up if nothing at all happens for long.
    async fn settle(&self) -> Value {
        let (mut since, mut count) = (Instant::now(), 0);
        loop {
            let progress = self.server.handle_progress_request(ProgressParams {}).await.unwrap();
            let building = self.building().await;
            let told = self.client.count.load(Ordering::SeqCst);
            if progress.finished && !building {
                return self.report(&progress, true);
            }
            if told != count {
                (since, count) = (Instant::now(), told);
            }
            if since.elapsed() > PATIENCE {
                return self.report(&progress, false);
            }
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
    }

    fn report(&self, progress: &acorn::interfaces::ProgressResponse, rest: bool) -> Value {
        let mut docs = serde_json::Map::new();
        for (name, (version, list)) in self.client.shown.lock().unwrap().iter() {
            let list: Vec<Value> = list
                .iter()
                .map(|d| {
                    json!({"line": d.range.start.line, "message": d.message,
                           "severity": format!("{:?}", d.severity)})
                })
                .collect();
            docs.insert(name.clone(), json!({"version": version, "list": list}));
        }
        let mut verified = serde_json::Map::new();
        for (url, doc) in &progress.docs {
            let name = url.path().strip_prefix(&self.client.root).unwrap_or(url.path()).to_string();
            verified.insert(name, json!({"version": doc.version, "lines": doc.verified}));
        }
        json!({"rest": rest, "done": progress.done, "total": progress.total,
               "shown": docs, "verified": verified})
    }

    async fn save(&self, op: &Value) {
        let (file, text, version) = (s(op, "file"), s(op, "text"), n(op, "version") as i32);
        let uri = self.url(file);
        let path = self.root.join(file);
        if self.server.documents.get(&uri).is_none() {
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let text_document =
                TextDocumentItem { uri: uri.clone(), language_id: "acorn".into(), version: version - 1, text };
            self.server.did_open(DidOpenTextDocumentParams { text_document }).await;
        }
        let change = TextDocumentContentChangeEvent { range: None, range_length: None, text: text.into() };
        self.server
            .did_change(DidChangeTextDocumentParams {
                text_document: VersionedTextDocumentIdentifier { uri: uri.clone(), version },
                content_changes: vec![change],
            })
            .await;
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(&path, text).unwrap();
        self.server
            .did_save(DidSaveTextDocumentParams {
                text_document: TextDocumentIdentifier { uri },
                text: Some(text.to_string()),
            })
            .await;
    }

    async fn run(&self, op: &Value) -> Value {
        match s(op, "op") {
            "save" => self.save(op).await,
            "saves" => {
                // notifications that arrive together
                let all = arr(op, "all").iter().map(|o| self.save(o));
                join_all(all).await;
            }
            "close" => {
                let text_document = TextDocumentIdentifier { uri: self.url(s(op, "file")) };
                self.server.did_close(DidCloseTextDocumentParams { text_document }).await
            }
            "pause" => tokio::time::sleep(Duration::from_millis(n(op, "ms") as u64)).await,
            "told" => {
                // until the server has said something more, or a little later
                let (t, c) = (Instant::now(), self.client.count.load(Ordering::SeqCst));
                while self.client.count.load(Ordering::SeqCst) < c + n(op, "more") as u64
                    && t.elapsed() < Duration::from_millis(300)
                {
                    tokio::time::sleep(Duration::from_micros(200)).await;
                }
            }
            "settle" => return self.settle().await,
            op => panic!("op {op}"),
        }
        Value::Null
    }
}

/// Polls all of them in turn.
async fn join_all<F: std::future::Future<Output = ()>>(futures: impl Iterator<Item = F>) {
    let mut all: Vec<_> = futures.map(Box::pin).collect();
    std::future::poll_fn(move |cx| {
        all.retain_mut(|f| f.as_mut().poll(cx).is_pending());
        if all.is_empty() {
            std::task::Poll::Ready(())
        } else {
            std::task::Poll::Pending
        }
    })
    .await
}

fn history(ops: &Value) -> Value {
    let dir = tempfile::tempdir().unwrap();
    let root = dir.path().canonicalize().unwrap();
    std::fs::create_dir_all(root.join("src")).unwrap();
    std::fs::write(root.join("acorn.toml"), "").unwrap();
    let ops = ops.as_array().unwrap();
    let split = ops.iter().position(|o| s(o, "op") != "write").unwrap_or(ops.len());
    for o in &ops[..split] {
        let path = root.join(s(o, "file"));
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, s(o, "text")).unwrap();
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let client = Arc::new(Client { root: format!("{}/", root.display()), ..Default::default() });
    let args = ServerArgs {
        workspace_root: Some(root.to_str().unwrap().to_string()),
        acornlib_cache_dir: None,
    };
    let out = guarded(|| {
        rt.block_on(async {
            let server = AcornLanguageServer::new(client.clone(), &args).unwrap();
            let session = Session { server, client, root: &root };
            let mut out = vec![];
            for o in &ops[split..] {
                out.push(session.run(o).await);
            }
            json!(out)
        })
    });
    rt.shutdown_timeout(Duration::from_secs(20));
    out.unwrap_or_else(|e| json!({"panic": e}))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    quiet_panics();
    let todo = read_lines(&args[1]);
    let jobs = args.get(3).map_or(4, |j| j.parse().unwrap());
    let out = Mutex::new(vec![Value::Null; todo.len()]);
    let next = AtomicUsize::new(0);
    std::thread::scope(|scope| {
        for _ in 0..jobs {
            scope.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let Some(ops) = todo.get(i) else { return };
                let r = history(ops);
                out.lock().unwrap()[i] = r;
            });
        }
    });
    write_lines(&args[2], &out.into_inner().unwrap());
}
