fn call_outcome(op: &str, v: &Value) -> Option<Value> {
    use crate::outcome::{Phase, PhaseResult, ScenarioOutcome};
    use crate::process::Exit;
    match op {
        "exit_of" => {
            use std::os::unix::process::ExitStatusExt;
            let st = std::process::ExitStatus::from_raw((us(&v["code"]) as i32) << 8);
            Some(serde_json::to_value(Exit::from(st)).unwrap())
        }
        "summary" => {
            let mut scenario = Scenario::Baseline;
            if v["baseline"] != json!(true) {
                let dir = std::env::current_dir().unwrap().join("hook_outcome_tree");
                std::fs::create_dir_all(dir.join("src")).unwrap();
                std::fs::write(dir.join("src/lib.rs"), "pub fn f(x: i32) -> i32 { x + 1 }\n").unwrap();
                std::fs::write(dir.join("Cargo.toml"), "[package]\nname = \"h\"\nversion = \"0.1.0\"\nedition = \"2021\"\n").unwrap();
                thread_local!(static M: std::cell::RefCell<Option<Mutant>> = const { std::cell::RefCell::new(None) });
                let m = M.with(|c| {
                    c.borrow_mut()
                        .get_or_insert_with(|| {
                            let options = Options::default();
                            let d = camino::Utf8PathBuf::try_from(dir.clone()).unwrap();
                            Workspace::open(&d).unwrap().discover(&PackageFilter::All, &options, &Console::new()).unwrap().mutants.remove(0)
                        })
                        .clone()
                });
                scenario = Scenario::Mutant(m);
            }
            thread_local!(static S: std::cell::RefCell<Option<crate::output::ScenarioOutput>> = const { std::cell::RefCell::new(None) });
            let mut o = S.with(|c| {
                let mut c = c.borrow_mut();
                let so = c.get_or_insert_with(|| {
                    let t = std::env::current_dir().unwrap().join("hook_outcome_out");
                    std::fs::create_dir_all(&t).unwrap();
                    let t = camino::Utf8PathBuf::try_from(t).unwrap();
                    let mut od = crate::output::OutputDir::new(&t).unwrap();
                    od.start_scenario(&Scenario::Baseline).unwrap()
                });
                ScenarioOutcome::new(so, scenario)
            });
            for p in v["phases"].as_array().unwrap() {
                let phase = match p[0].as_str().unwrap() {
                    "Check" => Phase::Check,
                    "Build" => Phase::Build,
                    _ => Phase::Test,
                };
                let s = &p[1];
                let process_status = match s.as_str() {
                    Some("Success") => Exit::Success,
                    Some("Timeout") => Exit::Timeout,
                    Some(_) => Exit::Other,
                    None => {
                        if let Some(c) = s["Failure"].as_i64() {
                            Exit::Failure(c as i32)
                        } else {
                            Exit::Signalled(s["Signalled"].as_i64().unwrap() as _)
                        }
                    }
                };
                o.add_phase_result(PhaseResult { phase, duration: std::time::Duration::from_secs(1), process_status, argv: vec![] });
            }
            Some(serde_json::to_value(o.summary()).unwrap())
        }
        _ => None,
    }
}
