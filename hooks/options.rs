fn hook_options(v: &Value) -> Option<Options> {
    use std::str::FromStr;
    let mut argv = vec!["mutants".to_owned()];
    argv.extend(strs(&v["argv"]));
    let args = <Args as clap::Parser>::try_parse_from(argv).ok()?;
    let config = match v["config"].as_str() {
        Some(s) => crate::config::Config::from_str(s).ok()?,
        None => crate::config::Config::default(),
    };
    Options::new(&args, &config).ok()
}
fn call_options(op: &str, v: &Value) -> Option<Value> {
    match op {
        "options" => Some(match hook_options(v) {
            None => Value::Null,
            Some(o) => json!({
                "test_timeout": o.test_timeout.map(|d| d.as_nanos() as u64),
                "build_timeout": o.build_timeout.map(|d| d.as_nanos() as u64),
                "minimum_test_timeout": o.minimum_test_timeout.as_nanos() as u64,
                "test_timeout_multiplier": o.test_timeout_multiplier,
                "build_timeout_multiplier": o.build_timeout_multiplier,
                "test_package": format!("{:?}", o.test_package),
                "cap_lints": o.cap_lints, "copy_vcs": o.copy_vcs, "gitignore": o.gitignore,
                "profile": o.profile, "output": o.output_in_dir.as_ref().map(|p| p.as_str().to_owned()),
                "test_tool": format!("{:?}", o.test_tool),
                "features": format!("{:?}", o.features),
                "cargo_args": o.additional_cargo_args, "test_args": o.additional_cargo_test_args,
                "error_values": o.error_values, "skip_calls": o.skip_calls,
                "examine_re": o.examine_names.patterns(), "exclude_re": o.exclude_names.patterns(),
                "examine_globs": o.examine_globset.as_ref().map(|g| g.len()), "exclude_globs": o.exclude_globset.as_ref().map(|g| g.len()),
                "baseline": format!("{:?}", o.baseline), "check_only": o.check_only, "in_place": o.in_place, "jobs": o.jobs,
            }),
        }),
        "path_ok" => Some(match hook_options(v) {
            None => Value::Null,
            Some(o) => json!(strs(&v["paths"]).iter().map(|p| o.allows_source_file_path(camino::Utf8Path::new(p))).collect::<Vec<_>>()),
        }),
        _ => None,
    }
}
