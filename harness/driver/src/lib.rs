//! Small helpers shared by the driver binaries.
use serde_json::Value;
use std::io::{BufRead, Write};

pub fn read_lines(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("open {path}: {e}"));
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect()
}

pub fn write_lines(path: &str, items: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for it in items {
        writeln!(f, "{it}").unwrap();
    }
    f.flush().unwrap();
}

thread_local! {
    static WHERE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Runs f; a panic of the code under test is an observation, not a failure of the driver.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    WHERE.with(|w| w.borrow_mut().clear());
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let message = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        };
        WHERE.with(|w| format!("{} at {}", message, w.borrow()))
    })
}

pub fn quiet_panics() {
    if std::env::var_os("SHOW_PANICS").is_none() {
        std::panic::set_hook(Box::new(|info| {
            let place = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
            WHERE.with(|w| *w.borrow_mut() = place.unwrap_or_default());
        }));
    }
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("missing string {k} in {v}"))
}

pub fn n(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("missing int {k} in {v}"))
}

pub fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array().unwrap_or_else(|| panic!("missing array {k} in {v}"))
}
