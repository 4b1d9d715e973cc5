#[allow(unused_imports)]
use crate::*;
#[allow(unused_imports)]
use serde_json::{json, Value};

/// JSON lines in, JSON lines out.
pub fn run_if_requested() {
    if std::env::var_os("VERIF_CALL").is_none() {
        return;
    }
    use std::io::{BufRead, Write};
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("stdin");
        let v: Value = serde_json::from_str(&line).expect("json");
        let op = v["op"].as_str().expect("op").to_owned();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&op, &v)));
        let out = match r {
            Ok(r) => json!({ "ok": r }),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
                json!({ "panic": m })
            }
        };
        let mut so = std::io::stdout().lock();
        writeln!(so, "VERIF:{out}").expect("stdout");
        so.flush().expect("flush");
    }
    std::process::exit(0);
}
#[allow(dead_code)]
fn us(v: &Value) -> usize {
    usize::try_from(v.as_u64().expect("number")).expect("usize")
}
#[allow(dead_code)]
fn st(v: &Value) -> String {
    v.as_str().expect("string").to_owned()
}
#[allow(dead_code)]
fn strs(v: &Value) -> Vec<String> {
    v.as_array().expect("array").iter().map(st).collect()
}
