//! Replays LiveDoc behaviours through the language server's document notifications.
//! livedoc IN.ndjson OUT.ndjson
use acorn::server::{AcornLanguageServer, LspClient, ServerArgs};
use acorn_verif_driver::*;
use serde_json::{json, Value};
use std::sync::Arc;
use tower_lsp::lsp_types::*;
use tower_lsp::LanguageServer;

struct Client;
#[async_trait::async_trait]
impl LspClient for Client {
    async fn publish_diagnostics(&self, _: Url, _: Vec<Diagnostic>, _: Option<i32>) {}
}

const GLYPHS: [&str; 6] = ["a", "b", "\n", "\r\n", "\u{e9}", "\u{1d538}"];

fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| GLYPHS[c.as_u64().unwrap() as usize]).collect()
}

fn decode(line: &str) -> Vec<i64> {
    line.chars()
        .map(|c| GLYPHS.iter().position(|g| g.chars().eq([c])).map_or(-1, |i| i as i64))
        .collect()
}


fn change(step: &Value) -> TextDocumentContentChangeEvent {
    let range = step.get("range").map(|r| {
        let g = |i: usize| r[i].as_u64().unwrap() as u32;
        Range::new(Position::new(g(0), g(1)), Position::new(g(2), g(3)))
    });
    TextDocumentContentChangeEvent { range, range_length: None, text: text(&step["text"]) }
}

/// One notification. steps: the edits it carries, or the one other step.
async fn notify(server: &AcornLanguageServer, url: &Url, steps: &[Value]) -> Value {
    let step = &steps[0];
    let version = n(step, "version") as i32;
    match s(step, "op") {
        "open" => {
            server
                .did_open(DidOpenTextDocumentParams {
                    text_document: TextDocumentItem {
                        uri: url.clone(),
                        language_id: "acorn".into(),
                        version,
                        text: text(&step["text"]),
                    },
                })
                .await
        }
        "change" | "changeall" => {
            server
                .did_change(DidChangeTextDocumentParams {
                    text_document: VersionedTextDocumentIdentifier { uri: url.clone(), version },
                    content_changes: steps.iter().map(change).collect(),
                })
                .await
        }
        "save" => {
            server
                .did_save(DidSaveTextDocumentParams {
                    text_document: TextDocumentIdentifier { uri: url.clone() },
                    text: Some(text(&step["text"])),
                })
                .await
        }
        "close" => {
            server
                .did_close(DidCloseTextDocumentParams {
                    text_document: TextDocumentIdentifier { uri: url.clone() },
                })
                .await;
            return json!({"closed": server.documents.get(url).is_none()});
        }
        op => panic!("op {op}"),
    }
    let doc = server.documents.get(url).unwrap().clone();
    let doc = doc.read().await;
    let shown = doc.display();
    let mut lines = vec![];
    let mut changed = vec![];
    for l in shown.split('\n') {
        changed.push(l.starts_with("* "));
        lines.push(decode(&l[2..]));
    }
    let env: Vec<u32> = (0..lines.len()).map(|i| doc.get_env_line(i as u32)).collect();
    // every prefix the editor can ask completions for
    let prefixes: Vec<Vec<Vec<i64>>> = lines
        .iter()
        .enumerate()
        .map(|(i, l)| {
            let mut units = 0u32;
            let mut v = vec![vec![]];
            for c in l {
                units += if *c == 5 { 2 } else { 1 };
                v.push(decode(&doc.get_prefix(i as u32, units)));
            }
            v
        })
        .collect();
    json!({"lines": lines, "changed": changed, "saved": doc.saved_version(),
           "env": env, "prefixes": prefixes})
}

/// The notifications of one behaviour: runs of edits with the same version go together.
fn notifications(trace: &Value) -> Vec<&[Value]> {
    let is_change = |v: &Value| s(v, "op").starts_with("change");
    trace
        .as_array()
        .unwrap()
        .chunk_by(|a, b| is_change(a) && is_change(b) && a["version"] == b["version"])
        .collect()
}

/// Two behaviours at a time, on two documents of one server, notification by notification.
async fn replay(server: &AcornLanguageServer, urls: &[Url], traces: &[Value]) -> Vec<Value> {
    let todo: Vec<_> = traces.iter().map(notifications).collect();
    let mut out: Vec<Vec<Value>> = vec![vec![]; traces.len()];
    for k in 0..todo.iter().map(|t| t.len()).max().unwrap_or(0) {
        for (i, t) in todo.iter().enumerate() {
            if let Some(steps) = t.get(k) {
                let got = notify(server, &urls[i], steps).await;
                out[i].extend(steps[1..].iter().map(|_| Value::Null));
                out[i].push(got);
            }
        }
    }
    for u in urls {
        server.documents.remove(u);
    }
    out.into_iter().map(Value::Array).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = tempfile::tempdir().unwrap();
    std::fs::create_dir_all(dir.path().join("src")).unwrap();
    std::fs::write(dir.path().join("acorn.toml"), "").unwrap();
    quiet_panics();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let server = AcornLanguageServer::new(
        Arc::new(Client),
        &ServerArgs {
            workspace_root: Some(dir.path().to_str().unwrap().to_string()),
            acornlib_cache_dir: None,
        },
    )
    .unwrap();
    let mut results = vec![];
    for (i, pair) in read_lines(&args[1]).chunks(2).enumerate() {
        let urls: Vec<Url> = (0..pair.len())
            .map(|k| Url::parse(&format!("untitled:doc{i}_{k}")).unwrap())
            .collect();
        match guarded(|| rt.block_on(replay(&server, &urls, pair))) {
            Ok(v) => results.extend(v),
            Err(e) => results.extend(pair.iter().map(|_| json!({"panic": e.clone()}))),
        }
    }
    write_lines(&args[2], &results);
}
