fn call_timeouts(op: &str, v: &Value) -> Option<Value> {
    use crate::outcome::{Phase, PhaseResult, ScenarioOutcome};
    use crate::timeouts::Timeouts;
    if op != "timeouts" {
        return None;
    }
    let Some(options) = hook_options(v) else {
        return Some(Value::Null);
    };
    thread_local!(static S: std::cell::RefCell<Option<crate::output::ScenarioOutput>> = const { std::cell::RefCell::new(None) });
    let mut o = S.with(|c| {
        let mut c = c.borrow_mut();
        let so = c.get_or_insert_with(|| {
            let t = std::env::current_dir().unwrap().join("hook_timeouts_out");
            std::fs::create_dir_all(&t).unwrap();
            let t = camino::Utf8PathBuf::try_from(t).unwrap();
            let mut od = crate::output::OutputDir::new(&t).unwrap();
            od.start_scenario(&Scenario::Baseline).unwrap()
        });
        ScenarioOutcome::new(so, Scenario::Baseline)
    });
    for p in v["phases"].as_array().unwrap() {
        let phase = match p[0].as_str().unwrap() {
            "Check" => Phase::Check,
            "Build" => Phase::Build,
            _ => Phase::Test,
        };
        o.add_phase_result(PhaseResult { phase, duration: std::time::Duration::from_nanos(p[1].as_u64().unwrap()), process_status: crate::process::Exit::Success, argv: vec![] });
    }
    let t = |t: Timeouts| json!({"test": t.test.map(|d| d.as_nanos() as u64), "build": t.build.map(|d| d.as_nanos() as u64)});
    Some(json!({"for": t(Timeouts::for_baseline(&options)), "from": t(Timeouts::from_baseline(&o, &options)), "without": t(Timeouts::without_baseline(&options))}))
}
