fn call_manifest(op: &str, v: &Value) -> Option<Value> {
    let p = |k: &str| camino::Utf8PathBuf::from(st(&v[k]));
    match op {
        "fix_manifest" => Some(match crate::manifest::fix_manifest(&p("path"), &p("source")) {
            Ok(()) => json!(true),
            Err(e) => json!({ "err": format!("{e:#}") }),
        }),
        "fix_cargo_config" => Some(match crate::manifest::fix_cargo_config(&p("build"), &p("source")) {
            Ok(()) => json!(true),
            Err(e) => json!({ "err": format!("{e:#}") }),
        }),
        _ => None,
    }
}
