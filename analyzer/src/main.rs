#![feature(rustc_private)]
#![allow(dead_code, clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
mod au;
mod dom;
mod effects;
mod interp;
mod lin;
mod models;
mod rank;
mod share;
mod simplex;
mod summary;
mod types;
mod spec;

use interp::*;
use rustc_middle::ty::{TyCtxt, TypingEnv};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    format!("[{}]", v.into_iter().map(|x| js(x.as_ref())).collect::<Vec<_>>().join(","))
}

/// the time for the whole run is used up
fn late(t0: std::time::Instant) -> bool {
    let total = std::env::var("AS_TOTAL").ok().and_then(|x| x.parse().ok()).unwrap_or(400);
    t0.elapsed().as_secs() > total
}

struct Cb {
    prop: Option<String>,
    out: String,
    only: Option<String>,
    secs: u64,
    verbose: bool,
    shard: (usize, usize),
}

fn analyse(tcx: TyCtxt<'_>, cb: &Cb) -> String {
    let t0 = std::time::Instant::now();
    let any = tcx.hir_body_owners().next().expect("a crate with functions").to_def_id();
    let mut cx = Cx {
        tcx,
        env: TypingEnv::post_analysis(tcx, any),
        bodies: Default::default(),
        overflow_checks: tcx.sess.overflow_checks(),
        mode: Mode::Pure,
        sink: vec![],
        stack: vec![],
        fuel: 0,
        memory_mb: 2500,
        entry: String::new(),
        stats: Default::default(),
        visited: Default::default(),
        unmodelled: Default::default(),
        verbose: cb.verbose,
        gave_up: None,
        deadline: t0,
        entry_secs: cb.secs,
        second_ms: 0,
        sums: Default::default(),
        done: Default::default(),
        proved: false,
        use_sums: false,
        log_panics: std::env::var("AS_LOGPANIC").is_ok(),
    };
    let entries = cx.entries();
    let mut reps = vec![];
    for (i, e) in entries.iter().enumerate() {
        if i % cb.shard.1 != cb.shard.0 {
            continue;
        }
        if let Some(o) = &cb.only {
            if !e.label.contains(o.as_str()) {
                continue;
            }
        }
        if let Some(p) = &cb.prop {
            let want = match p.as_str() {
                "C01" | "F01" => true,
                "L01" => e.contract == Some(spec::Contract::Capacity),
                p => cx.entry_props(e).contains(&p),
            };
            if !want {
                continue;
            }
        }
        if late(t0) {
            cx.entry_secs = 3;
        }
        let modes: &[Mode] = if cx.has_user_code(e) { &[Mode::Pure, Mode::Hostile] } else { &[Mode::Pure] };
        for m in modes {
            if cb.verbose {
                eprintln!("#### {} {:?}", e.label, m);
            }
            let te = std::time::Instant::now();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.run_entry(e, *m)));
            if std::env::var("AS_PROGRESS").is_ok() {
                eprintln!("{:>7} ms  {} {:?}", te.elapsed().as_millis(), e.label, m);
            }
            reps.push(match r {
                Ok(r) => r,
                Err(_) => cx.crashed(e, *m),
            });
        }
    }
    if cb.shard.0 == 0 && cb.only.is_none() {
        match cb.prop.as_deref() {
            None => {
                cx.type_rules();
                cx.effect_rules();
            }
            Some("L01" | "L03") => cx.type_rules(),
            Some("L02") => cx.effect_rules(),
            _ => {}
        }
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, "\"overflow_checks\":{},\"ms\":{},", cx.overflow_checks, t0.elapsed().as_millis());
    let _ = writeln!(o, "\"entries\":[");
    for (i, r) in reps.iter().enumerate() {
        let _ = writeln!(
            o,
            "{{\"label\":{},\"site\":{},\"props\":{},\"mode\":\"{:?}\",\"paths\":{},\"rets\":{},\"unwinds\":{},\"panics\":{},\"checks\":{},\"required\":{},\"gave_up\":{},\"ms\":{}}}{}",
            js(&r.label),
            js(&r.site),
            jl(&r.props),
            r.mode,
            r.paths,
            r.rets,
            r.unwinds,
            r.panics,
            r.checks,
            r.required,
            r.gave_up.as_deref().map(js).unwrap_or("null".into()),
            r.ms,
            if i + 1 < reps.len() { "," } else { "" }
        );
    }
    let _ = writeln!(o, "],\n\"violations\":[");
    for (i, v) in cx.sink.iter().enumerate() {
        let _ = writeln!(
            o,
            "{{\"prop\":{},\"rule\":{},\"msg\":{},\"entry\":{},\"site\":{},\"unknown\":{},\"trace\":{}}}{}",
            js(v.prop),
            js(&v.rule),
            js(&v.msg),
            js(&v.entry),
            js(&v.site),
            v.unknown,
            jl(&v.trace),
            if i + 1 < cx.sink.len() { "," } else { "" }
        );
    }
    let _ = writeln!(o, "],\n\"stats\":{{{}}},", cx.stats.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = writeln!(o, "\"all\":{},\n\"visited\":{},\n\"unmodelled\":{}\n}}", jl(entries.iter().map(|e| &e.label)), jl(&cx.visited), jl(&cx.unmodelled));
    o
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let s = analyse(tcx, self);
        std::fs::write(&self.out, s).expect("write report");
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let env = |k: &str| std::env::var(k).ok();
    let mut cb = Cb {
        out: env("AS_OUT").unwrap_or("/dev/stdout".into()),
        only: env("AS_ONLY"),
        prop: env("AS_PROP"),
        secs: env("AS_SECS").and_then(|x| x.parse().ok()).unwrap_or(60),
        verbose: env("AS_VERBOSE").is_some(),
        shard: env("AS_SHARD").and_then(|x| x.split_once('/').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).unwrap_or((0, 1)),
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    // deep recursion in the interpreter
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
    });
    match h.unwrap().join() {
        Ok(c) => std::process::exit((c != std::process::ExitCode::SUCCESS) as i32),
        Err(_) => std::process::exit(3),
    }
}
