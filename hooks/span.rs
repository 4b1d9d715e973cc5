fn call_span(op: &str, v: &Value) -> Option<Value> {
    let span = || {
        let q = v["span"].as_array().expect("span");
        crate::span::Span {
            start: crate::span::LineColumn { line: us(&q[0]), column: us(&q[1]) },
            end: crate::span::LineColumn { line: us(&q[2]), column: us(&q[3]) },
        }
    };
    match op {
        "replace" => Some(json!(span().replace(&st(&v["s"]), &st(&v["r"])))),
        "extract" => Some(json!(span().extract(&st(&v["s"])))),
        _ => None,
    }
}
