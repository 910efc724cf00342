//! Command line: `run` supervises a worker process, so that a case which kills the process
//! (abort, stack overflow, memory error caught by the allocator) is found, shrunk and reported
//! like any other failure.

use crate::engine::*;
use std::fs;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main() {
    main_with(crate::checks::all())
}

pub fn main_with(checks: Vec<Check>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for c in &checks { println!("{} quick={} thorough={}", c.id, c.quick, c.thorough); }
        return;
    }
    if cmd == "distinct" {
        println!("{}", distinct(&args[1..]));
        return;
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("no such check: {:?}", id);
        std::process::exit(2)
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let cases: u64 = get("--cases").and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { check.quick } else { check.thorough });
    let share: f64 = get("--share").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = ((cases as f64 * share) as u64).max(1);
    // A replay file carries the dictionary that its case was drawn with.
    let kept = if cmd == "case" { get("--tape").and_then(|f| fs::read_to_string(f).ok()).and_then(|t| t.lines().find_map(|l| l.strip_prefix("# dict ").map(|d| d.to_string()))) } else { None };
    Dict::parse(&kept.or_else(|| std::env::var("BSV_DICT").ok()).unwrap_or_default()).set();
    let code = match cmd {
        "run" => run(check, seed, tier, cases, &get("--out").unwrap_or("/dev/null".into())),
        "worker" => worker(check, seed, tier, cases, &get("--out").unwrap(), &get("--slots").unwrap()),
        "case" => big_stack(|| {
            let idx: u64 = get("--idx").and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut src = match get("--tape") {
                Some(f) => Src::from_tape(read_tape(&f)),
                None => Src::from_seed(case_seed(seed, check.id, idx)),
            };
            if let Some(f) = get("--log") { src.log_to(fs::File::create(f).unwrap()); }
            let mut stats = Stats::default();
            match run_case(check.f, &mut src, &mut stats, idx, tier) {
                Outcome::Pass => { println!("held"); 0 }
                Outcome::Fail(m) => { println!("{}", m); 10 }
                Outcome::HarnessError(m) => { println!("HARNESS ERROR {}", m); 11 }
            }
        }),
        _ => { eprintln!("usage: bsv list | run ID | case ID [--idx N --seed S | --tape FILE]"); 2 }
    };
    std::process::exit(code)
}

/// How many different hashes the files have between them.
fn distinct(files: &[String]) -> usize {
    let mut all: Vec<u64> = Vec::new();
    for f in files {
        all.extend(fs::read(f).unwrap().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    all.sort_unstable();
    all.dedup();
    all.len()
}

fn big_stack(f: impl FnOnce() -> i32 + Send) -> i32 {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap_or(11))
}

/// A tape file holds one number per line; lines starting with '#' are comments.
fn read_tape(f: &str) -> Vec<u64> {
    fs::read_to_string(f).unwrap().lines().filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| l.trim().parse().unwrap()).collect()
}

fn tape_text(t: &[u64]) -> String {
    let mut s = String::new();
    for x in t { s.push_str(&x.to_string()); s.push('\n'); }
    s
}

fn write_out(out: &str, check: &Check, stats: &Stats, status: &str, fail: Option<(u64, &str, &[u64])>, wall: f64) {
    let mut s = String::from("{");
    s.push_str(&format!("\"property\":{},\"status\":{},\"evaluations\":{},\"discarded\":{},\"distinct\":{},\"rule\":{},\"wall_s\":{:.3},",
        js(check.id), js(status), stats.evaluations, stats.discarded, stats.distinct.len(), js(check.rule), wall));
    s.push_str("\"labels\":{");
    s.push_str(&stats.labels.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&stats.samples.values().map(|v| js(v)).collect::<Vec<_>>().join(","));
    s.push(']');
    if let Some((idx, msg, tape)) = fail {
        s.push_str(&format!(",\"idx\":{},\"message\":{},\"tape\":[{}]", idx, js(msg),
            tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
    }
    s.push('}');
    fs::write(out, s).unwrap();
    if out != "/dev/null" {
        let mut b = Vec::with_capacity(stats.distinct.len() * 8);
        for h in &stats.distinct { b.extend(h.to_le_bytes()); }
        fs::write(format!("{}.hashes", out), b).unwrap();
    }
}

fn worker(check: &Check, seed: u64, tier: Tier, cases: u64, out: &str, slots: &str) -> i32 {
    let t0 = Instant::now();
    let slot_file = fs::OpenOptions::new().write(true).create(true).open(slots).unwrap();
    let r = run_parallel(check, seed, cases, tier, Some(slot_file));
    if let Some(m) = r.harness_error {
        write_out(out, check, &r.stats, "harness_error", Some((0, &m, &[])), t0.elapsed().as_secs_f64());
        return 2;
    }
    if let Some((idx, msg, tape)) = r.failure {
        // The unshrunk failure first, in case shrinking dies.
        write_out(out, check, &r.stats, "fail", Some((idx, &msg, &tape)), t0.elapsed().as_secs_f64());
        let mut found = (tape.clone(), msg.clone());
        big_stack(|| {
            found = shrink(tape, msg, 4000, |t| {
                let mut src = Src::from_tape(t.to_vec());
                let mut st = Stats::default();
                match run_case(check.f, &mut src, &mut st, idx, tier) {
                    Outcome::Fail(m) => Some((m, src.rec)),
                    _ => None,
                }
            });
            0
        });
        write_out(out, check, &r.stats, "fail", Some((idx, &found.1, &found.0)), t0.elapsed().as_secs_f64());
        return 1;
    }
    write_out(out, check, &r.stats, "pass", None, t0.elapsed().as_secs_f64());
    0
}

enum Child { Exit(i32, String), Signal(i32), Timeout }

fn run_child(args: &[String], secs: u64) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut ch = Command::new(exe).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
    // Messages are short, but drain the pipe while waiting.
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || { let mut b = Vec::new(); let _ = std::io::Read::read_to_end(&mut so, &mut b); String::from_utf8_lossy(&b).into_owned() });
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let text = rd.join().unwrap_or_default();
            return match st.signal() { Some(s) => Child::Signal(s), None => Child::Exit(st.code().unwrap_or(2), text) };
        }
        if t0.elapsed().as_secs() > secs {
            let _ = ch.kill();
            let _ = ch.wait();
            return Child::Timeout;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn is_crash(sig: i32) -> bool {
    // ILL, TRAP, ABRT, BUS, FPE, SEGV: not KILL, TERM and the like
    [4, 5, 6, 7, 8, 11].contains(&sig)
}

fn sig_name(s: i32) -> &'static str {
    match s { 4 => "SIGILL", 5 => "SIGTRAP", 6 => "SIGABRT", 7 => "SIGBUS", 8 => "SIGFPE", 11 => "SIGSEGV", _ => "signal" }
}

fn run(check: &Check, seed: u64, tier: Tier, cases: u64, out: &str) -> i32 {
    let t0 = Instant::now();
    let slots = format!("{}.slots", out);
    if out != "/dev/null" { let _ = fs::remove_file(out); }
    let _ = fs::remove_file(&slots);
    let a = |s: &str| s.to_string();
    let tiers = if tier == Tier::Quick { "quick" } else { "thorough" };
    let base = |cmd: &str| vec![a(cmd), a(check.id), a("--seed"), seed.to_string(), a("--tier"), a(tiers)];
    let mut w = base("worker");
    w.extend([a("--cases"), cases.to_string(), a("--out"), a(out), a("--slots"), slots.clone()]);
    let limit = if tier == Tier::Quick { 780 } else { 6 * 3600 };
    let r = run_child(&w, limit);
    let slot_bytes = fs::read(&slots).unwrap_or_default();
    let _ = fs::remove_file(&slots);
    let failed = || fs::read_to_string(out).unwrap_or_default().contains("\"status\":\"fail\"");
    match r {
        Child::Exit(c, _) if c == 0 || c == 1 => c,
        Child::Exit(c, t) => { println!("worker exit {} {}", c, t); 2 }
        // A failure is on file; only its shrinking did not end well.
        Child::Timeout | Child::Signal(_) if failed() => 1,
        Child::Timeout => { println!("worker did not end in {} s", limit); 2 }
        Child::Signal(s) if !is_crash(s) => { println!("worker ended by signal {}", s); 2 }
        Child::Signal(s) => crash(check, seed, tier, &slot_bytes, &base, out, s, t0),
    }
}

#[allow(clippy::too_many_arguments)]
fn crash(check: &Check, _seed: u64, _tier: Tier, slots: &[u8], base: &dyn Fn(&str) -> Vec<String>, out: &str, sig: i32, t0: Instant) -> i32 {
    let a = |s: &str| s.to_string();
    let mut idxs: Vec<u64> = slots.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
    idxs.sort();
    let log = format!("{}.tape", out);
    for idx in idxs {
        let mut c = base("case");
        c.extend([a("--idx"), idx.to_string(), a("--log"), log.clone()]);
        let Child::Signal(s) = run_child(&c, 60) else { continue };
        if !is_crash(s) { continue; }
        let tape = read_tape(&log);
        let msg0 = format!("the process dies with {} (abort, stack overflow or memory error)", sig_name(s));
        let (tape, msg) = shrink(tape, msg0.clone(), 250, |t| {
            let f = format!("{}.try", out);
            fs::write(&f, tape_text(t)).unwrap();
            let mut c = base("case");
            c.extend([a("--idx"), idx.to_string(), a("--tape"), f.clone(), a("--log"), log.clone()]);
            let r = run_child(&c, 20);
            let _ = fs::remove_file(&f);
            match r { Child::Signal(s) if is_crash(s) => Some((msg0.clone(), read_tape(&log))), _ => None }
        });
        let _ = fs::remove_file(&log);
        let stats = Stats { evaluations: idx + 1, ..Stats::default() };
        write_out(out, check, &stats, "fail", Some((idx, &msg, &tape)), t0.elapsed().as_secs_f64());
        return 1;
    }
    let _ = fs::remove_file(&log);
    println!("worker died with {} but no single case reproduces it", sig_name(sig));
    2
}
