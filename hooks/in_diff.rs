thread_local! {
    static DIFF_CACHE: std::cell::RefCell<std::collections::HashMap<String, Vec<crate::mutant::Mutant>>> = std::cell::RefCell::new(std::collections::HashMap::new());
}
fn diff_mutants(dir: &str) -> Vec<crate::mutant::Mutant> {
    DIFF_CACHE.with(|c| {
        c.borrow_mut()
            .entry(dir.to_owned())
            .or_insert_with(|| {
                let ws = crate::workspace::Workspace::open(camino::Utf8Path::new(dir)).expect("workspace");
                ws.discover(&crate::workspace::PackageFilter::All, &Options::default(), &crate::console::Console::new()).expect("discover").mutants
            })
            .clone()
    })
}
fn diff_ids(ms: &[crate::mutant::Mutant]) -> Value {
    json!(ms
        .iter()
        .map(|m| json!([m.source_file.path().as_str(), m.span.start.line, m.span.end.line, format!("{} {:?}", m.name(true), m.span)]))
        .collect::<Vec<_>>())
}
fn call_in_diff(op: &str, v: &Value) -> Option<Value> {
    match op {
        "diff_mutants" => Some(diff_ids(&diff_mutants(&st(&v["dir"])))),
        "diff" => Some(match crate::in_diff::diff_filter(diff_mutants(&st(&v["dir"])), &st(&v["diff"])) {
            Ok(k) => json!({ "kept": diff_ids(&k) }),
            Err(e) => json!({ "err": format!("{e:#}") }),
        }),
        _ => None,
    }
}
