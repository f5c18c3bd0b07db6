//! Calls dump_syms as a library. Reads a plan from the file named by the first argument:
//! {"threads": n, "info": [..] or null, "calls": [{"files": [..], "out": .., ...}]}
//! and writes one line of JSON per call to the file named by the second: what the call returned.
use dump_syms::dumper::{several_files, single_file, Config, FileOutput, Output};
use serde_json::{json, Value};
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::panic;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

/// A path, which need not be UTF-8: %FF stands for that byte.
fn path(s: &str) -> PathBuf {
    let mut b = Vec::new();
    for (i, part) in s.split("%FF").enumerate() {
        if i > 0 {
            b.push(0xff);
        }
        b.extend_from_slice(part.as_bytes());
    }
    OsString::from_vec(b).into()
}

fn output(v: &Value) -> Output {
    let file = |f: &str| match f {
        "<stderr>" => FileOutput::Stderr,
        "<stdout>" => FileOutput::Stdout,
        f if f.contains("%FF") => FileOutput::Path(path(f)),
        f => f.into(),
    };
    match (v["file"].as_str(), v["store"].as_str()) {
        (Some(f), Some(s)) => Output::FileAndStore {
            file: file(f),
            store_directory: path(s),
        },
        (Some(f), None) if v["bare"].as_bool() == Some(true) => path(f).into(),
        (Some(f), None) => Output::File(file(f)),
        (None, Some(s)) => Output::Store(path(s)),
        _ => unreachable!(),
    }
}

fn strings(v: &Value) -> Option<Vec<&str>> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap()).collect())
}

fn call(c: &Value) -> Value {
    let run = || {
        let mut config = Config::with_output(output(&c["out"]));
        if c["defaults"].as_bool() != Some(true) {
            config.symbol_server = c["server"].as_str();
            config.debug_id = c["debug_id"].as_str();
            config.code_id = c["code_id"].as_str();
            if let Some(a) = c["arch"].as_str() {
                config.arch = a;
            }
            config.num_jobs = c["jobs"].as_u64().unwrap_or(1) as usize;
            config.check_cfi = c["check_cfi"].as_bool().unwrap_or(false);
            config.emit_inlines = c["inlines"].as_bool().unwrap_or(false);
            config.mapping_var = strings(&c["var"]);
            config.mapping_src = strings(&c["src"]);
            config.mapping_dest = strings(&c["dest"]);
            config.mapping_file = c["map"].as_str();
        }
        let files = strings(&c["files"]).unwrap();
        if files.len() == 1 && c["several"].as_bool() != Some(true) {
            single_file(&config, files[0])
        } else {
            several_files(&config, &files)
        }
    };
    match panic::catch_unwind(panic::AssertUnwindSafe(run)) {
        Ok(Ok(())) => json!("ok"),
        Ok(Err(e)) => json!({"err": e.to_string()}),
        Err(_) => json!("panic"),
    }
}

fn main() {
    let plan: Value =
        serde_json::from_slice(&std::fs::read(std::env::args().nth(1).unwrap()).unwrap()).unwrap();
    if let Some(i) = strings(&plan["info"]) {
        dump_syms::common::EXTRA_INFO
            .set(i.into_iter().map(str::to_string).collect())
            .unwrap();
    }
    panic::set_hook(Box::new(|_| {}));
    let calls = plan["calls"].as_array().unwrap();
    let n = plan["threads"].as_u64().unwrap() as usize;
    let next = AtomicUsize::new(0);
    let log = Mutex::new(std::fs::File::create(std::env::args().nth(2).unwrap()).unwrap());
    let start = Barrier::new(n);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || {
                    start.wait();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        let Some(c) = calls.get(i) else { break };
                        let r = call(c);
                        let mut l = log.lock().unwrap();
                        writeln!(l, "{}", json!({"call": i, "result": r})).unwrap();
                    }
                })
                .unwrap();
        }
    });
}
