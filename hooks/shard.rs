fn call_shard(op: &str, v: &Value) -> Option<Value> {
    use std::str::FromStr;
    match op {
        "shard" => Some(json!(crate::shard::Shard { k: us(&v["k"]), n: us(&v["n"]) }.select(0..us(&v["len"])))),
        "shard_parse" => Some(match crate::shard::Shard::from_str(&st(&v["s"])) {
            Ok(s) => json!([s.k, s.n]),
            Err(_) => Value::Null,
        }),
        _ => None,
    }
}
