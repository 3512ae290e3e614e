#[macro_use]
mod engine;
mod flat;
mod bristol;
mod model;
mod p_bristol;
mod p_circuit;
mod p_lib;
mod p_misc;
#[cfg(feature = "generic")]
mod p_generic;
mod p_values;
mod p_wide;
mod p_work;
use engine::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_circuit::props());
    v.extend(p_bristol::props());
    v.extend(p_lib::props());
    v.extend(p_misc::props());
    v.extend(p_work::props());
    v.extend(p_values::props());
    #[cfg(feature = "generic")]
    v.extend(p_generic::props());
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// signatures listed in the known-findings file for this property
fn known_sigs(path: &str, id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("");
            let text = it.next().unwrap_or("");
            if p == format!("property={id}") {
                if let Some(s) = s.strip_prefix("signature=") {
                    v.push((s.to_string(), text.to_string()));
                }
            }
        }
    }
    v
}

struct Args {
    id: String,
    thorough: bool,
    seed: u64,
    evidence: String,
    replays: String,
    known: String,
    cases: Option<u64>,
}

fn describe(p: &Prop, tape: &[u64], thorough: bool) -> (Vec<String>, R) {
    let mut src = Src::tape(tape);
    let mut cx = Cx::new(true, thorough);
    let r = run_case(p, &mut src, &mut cx);
    let mut log = cx.log;
    for l in log.iter_mut() {
        if l.len() > 4000 {
            let mut k = 4000;
            while !l.is_char_boundary(k) {
                k -= 1;
            }
            l.truncate(k);
            l.push_str("...");
        }
    }
    if log.len() > 200 {
        let extra = log.len() - 200;
        log.truncate(200);
        log.push(format!("... {extra} more lines"));
    }
    (log, r)
}

fn write_replay(a: &Args, p: &Prop, tape: &[u64], index: u64, msg: &str, log: &[String], crash: bool) -> String {
    let _ = std::fs::create_dir_all(&a.replays);
    let path = format!("{}/{}-seed{}-case{}.json", a.replays, p.id, a.seed, index);
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n \"seed\": {},\n \"index\": {},\n \"thorough\": {},\n \"crash\": {},\n", js(p.id), a.seed, index, a.thorough, crash);
    s += &format!(" \"tape\": [{}],\n", tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    s += &format!(" \"failure\": {},\n", js(msg));
    s += &format!(" \"case\": [{}]\n", log.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n  "));
    s += "}\n";
    std::fs::write(&path, s).expect("write replay");
    path
}

/// in a thread with a big stack
fn big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn worker(a: &Args) -> i32 {
    let props = props();
    let p = props.iter().find(|p| p.id == a.id).expect("unknown property");
    let start = Instant::now();
    let sigs = known_sigs(&a.known, p.id);
    let known: Vec<String> = sigs.iter().map(|x| x.0.clone()).collect();
    let slots = std::env::var("VH_SLOTS").ok().and_then(|s| std::fs::OpenOptions::new().write(true).open(s).ok());
    let n = a.cases.unwrap_or(if a.thorough { p.thorough } else { p.quick });
    let o = campaign(p, a.seed, a.thorough, n, &known, slots.as_ref());
    let mut violations = 0;
    let mut code = 0;
    if let Some((idx, tape, f)) = &o.failure {
        violations = 1;
        code = 1;
        // Should shrinking crash or hang, the parent reports the case as it was found.
        if let Ok(sl) = std::env::var("VH_SLOTS") {
            let path = write_replay(a, p, tape, *idx, &f.msg, &[], false);
            let _ = std::fs::write(format!("{sl}.pending"), format!("{path}\n{idx}\n{}", f.msg));
        }
        let (path, t, f2) = big(|| {
            let (t, f2) = shrink(p, tape.clone(), f.clone(), a.thorough, &known, 25);
            let (log, _) = describe(p, &t, a.thorough);
            (write_replay(a, p, &t, *idx, &f2.msg, &log, false), t, f2)
        });
        println!("case {} failed; shrunk to a tape of {} choices", idx, t.len());
        println!("failure: {}", f2.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
    }
    for (sig, text) in &sigs {
        match o.stats.known.get(sig.as_str()) {
            Some((k, ex)) => println!("KNOWN-FINDING: property={} {} (seen in {} cases, e.g. {})", p.id, text, k, ex),
            None => println!("note: listed finding {} of {} was not observed in this run", sig, p.id),
        }
    }
    // evidence
    let mut samples = vec![];
    let picks: Vec<_> = {
        let s = &o.stats.samples;
        let step = (s.len() / 4).max(1);
        s.iter().step_by(step).take(4).collect()
    };
    for (i, tape) in picks {
        let (log, r) = big(|| describe(p, tape, a.thorough));
        let mut text = log.join(" | ");
        if text.len() > 1500 {
            let mut k = 1500;
            while !text.is_char_boundary(k) {
                k -= 1;
            }
            text.truncate(k);
            text += " ...";
        }
        samples.push(format!("{{\"case\": {}, \"choices\": {}, \"text\": {}, \"result\": {}}}", i, tape.len(), js(&text), js(if r.is_ok() { "held" } else { "failed or known finding" })));
    }
    let labels = o.stats.labels.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let mut ev = String::from("{\n");
    ev += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(p.id), js(if a.thorough { "thorough" } else { "quick" }), a.seed);
    ev += &format!(" \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"oracle_comparisons\": {},\n  \"rule\": {},\n  \"classes\": {{{}}},\n  \"known_finding_hits\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n", o.stats.cases, o.stats.nontrivial, o.stats.comparisons, js(p.rule), labels, o.stats.known.values().map(|x| x.0).sum::<u64>(), samples.join(",\n   "));
    ev += &format!(" \"assumptions\": [{}],\n", p.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    ev += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", start.elapsed().as_secs_f64(), violations);
    if let Some(d) = std::path::Path::new(&a.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&a.evidence, ev).expect("write evidence");
    println!("{}: {} cases, {} distinct non-trivial, {} comparisons, {:.1} s", p.id, o.stats.cases, o.stats.nontrivial, o.stats.comparisons, start.elapsed().as_secs_f64());
    if std::env::var("VH_LABELS").is_ok() {
        for (k, v) in &o.stats.labels {
            println!("  {k}: {v}");
        }
    }
    code
}

enum Ended {
    Code(i32),
    Died(i32),
    Stuck(u64),
    Late,
    Other(String),
}
/// seconds a single case may take (they take milliseconds)
const CASE_LIMIT: u64 = 120;

/// index + 1 of the case each thread is running, 0 when idle
fn read_slots(path: &str) -> Vec<u64> {
    std::fs::read(path).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn evidence_crash(a: &Args, p: &Prop, i: u64, msg: &str) {
    let mut ev = String::from("{\n");
    ev += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", js(p.id), js(if a.thorough { "thorough" } else { "quick" }), a.seed);
    ev += &format!(" \"coverage\": {{\"evaluations\": 1, \"distinct_nontrivial\": 1, \"rule\": {}, \"samples\": [{{\"case\": {i}, \"text\": {}}}]}},\n", js("the case that ended the process"), js(msg));
    ev += " \"assumptions\": [],\n \"wall_s\": 0,\n \"violations\": 1\n}\n";
    let _ = std::fs::write(&a.evidence, ev);
}

/// Runs the worker as a child so that a crash of the code under test (stack overflow, abort)
/// is attributed to the case that was running instead of ending the check.
fn parent(a: &Args, argv: &[String]) -> i32 {
    let limit = Duration::from_secs(if a.thorough { 6 * 3600 } else { 780 });
    let exe = std::env::current_exe().unwrap();
    let slots = format!("{}/.slots-{}-{}", a.replays, a.id, std::process::id());
    let _ = std::fs::create_dir_all(&a.replays);
    std::fs::write(&slots, vec![0u8; 8 * 64]).expect("slots");
    // Runs a child with limited memory. With `watch`, a case that makes no progress for
    // CASE_LIMIT seconds ends the run.
    let run = |args: &[String], limit: Duration, kb: u64, watch: bool| -> Ended {
        let mut ch = match Command::new("/bin/bash")
            .args(["-c", &format!("ulimit -c 0; ulimit -v {kb}; exec \"$0\" \"$@\"")])
            .arg(&exe)
            .args(args)
            .env("VH_SLOTS", &slots)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(e) => return Ended::Other(e.to_string()),
        };
        let t0 = Instant::now();
        let mut seen: Vec<(u64, Instant)> = vec![];
        let mut tick = 0u64;
        loop {
            match ch.try_wait() {
                Ok(Some(st)) => {
                    return match (st.code(), st.signal()) {
                        (Some(c @ (0 | 1)), _) => Ended::Code(c),
                        (_, Some(n @ (4 | 6 | 7 | 8 | 9 | 11))) => Ended::Died(n),
                        _ => Ended::Other(format!("worker ended with {st}")),
                    }
                }
                Ok(None) => {}
                Err(e) => return Ended::Other(e.to_string()),
            }
            tick += 1;
            let mut stuck = None;
            if watch && tick % 200 == 0 {
                for (k, i) in read_slots(&slots).into_iter().enumerate() {
                    if seen.len() <= k {
                        seen.push((0, Instant::now()));
                    }
                    if seen[k].0 != i {
                        seen[k] = (i, Instant::now());
                    } else if i > 0 && seen[k].1.elapsed().as_secs() >= CASE_LIMIT {
                        stuck = Some(i - 1);
                    }
                }
            }
            if stuck.is_some() || t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                return match stuck {
                    Some(i) => Ended::Stuck(i),
                    None => Ended::Late,
                };
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    };
    let pending_file = format!("{slots}.pending");
    let blame = |cand: Vec<u64>| -> i32 {
        if let Ok(t) = std::fs::read_to_string(&pending_file) {
            let mut it = t.splitn(3, '\n');
            let (path, idx, msg) = (it.next().unwrap_or(""), it.next().unwrap_or("0"), it.next().unwrap_or(""));
            println!("failure (not shrunk: shrinking ended abnormally): {msg}");
            println!("VIOLATION property={} replay={}", a.id, path);
            let props = props();
            evidence_crash(a, props.iter().find(|p| p.id == a.id).unwrap(), idx.parse().unwrap_or(0), msg);
            return 1;
        }
        for i in cand {
            let mut args: Vec<String> = argv.to_vec();
            args[0] = "one".into();
            args.push("--index".into());
            args.push(i.to_string());
            let msg = match run(&args, Duration::from_secs(CASE_LIMIT), 8_000_000, false) {
                Ended::Died(n) => format!("the process is ended by signal {n} while running this case alone (with 8 GB of memory)"),
                Ended::Late => format!("no answer within {CASE_LIMIT} s while running this case alone; such cases take milliseconds"),
                _ => continue,
            };
            let props = props();
            let p = props.iter().find(|p| p.id == a.id).unwrap();
            let path = write_replay(a, p, &[], i, &msg, &[], true);
            println!("failure: {msg}");
            println!("VIOLATION property={} replay={}", a.id, path);
            evidence_crash(a, p, i, &msg);
            return 1;
        }
        println!("ERROR: the worker crashed or hung, but no single case reproduces it");
        2
    };
    let mut args: Vec<String> = argv.to_vec();
    args[0] = "worker".into();
    let code = match run(&args, limit, 26_000_000, true) {
        Ended::Code(c) => c,
        Ended::Died(n) => {
            println!("worker ended by signal {n}");
            let mut cand: Vec<u64> = read_slots(&slots).into_iter().filter(|x| *x > 0).map(|x| x - 1).collect();
            cand.sort();
            blame(cand)
        }
        Ended::Stuck(i) => {
            println!("case {i} makes no progress");
            blame(vec![i])
        }
        Ended::Late if std::path::Path::new(&pending_file).exists() => blame(vec![]),
        Ended::Late => {
            println!("ERROR: no answer within {} s (inconclusive)", limit.as_secs());
            2
        }
        Ended::Other(e) => {
            println!("ERROR: {e}");
            2
        }
    };
    let _ = std::fs::remove_file(&slots);
    let _ = std::fs::remove_file(&pending_file);
    let _ = std::io::stdout().flush();
    code
}

fn num_after(text: &str, key: &str) -> u64 {
    let k = format!("\"{key}\":");
    let i = text.find(&k).unwrap_or_else(|| panic!("{key} missing")) + k.len();
    text[i..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

fn replay(path: &str, known_file: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("read replay file");
    let i = text.find("\"property\": \"").unwrap() + 13;
    let id = text[i..].split('"').next().unwrap().to_string();
    let thorough = text.contains("\"thorough\": true");
    let props = props();
    let p = props.iter().find(|p| p.id == id).expect("unknown property");
    let known: Vec<String> = known_sigs(known_file, p.id).into_iter().map(|x| x.0).collect();
    let tape: Vec<u64> = if text.contains("\"crash\": true") {
        println!("(crash replay: regenerating the case from seed and index; the process is expected to die)");
        let seed = num_after(&text, "seed");
        let index = num_after(&text, "index");
        return big(|| {
            let mut src = case_src(p, seed, index, &(p.fixed)(thorough));
            let mut cx = Cx::new(false, thorough);
            let r = run_case(p, &mut src, &mut cx);
            println!("result: {r:?}");
            if r.is_ok() { 0 } else { 1 }
        });
    } else {
        let i = text.find("\"tape\": [").unwrap() + 9;
        let t = text[i..].split(']').next().unwrap();
        t.split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect()
    };
    let (log, _) = big(|| describe(p, &tape, thorough));
    for l in &log {
        println!("{l}");
    }
    match big(|| bad(p, &tape, thorough, &known)) {
        Some((_, f)) => {
            println!("failure: {}", f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            1
        }
        None => {
            println!("held");
            0
        }
    }
}

fn main() {
    install_hook();
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let cmd = argv.first().cloned().unwrap_or_default();
    let opt = |k: &str| argv.iter().position(|x| x == k).and_then(|i| argv.get(i + 1).cloned());
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let id = argv.get(1).cloned().unwrap_or_default();
    let a = Args {
        thorough: opt("--tier").map_or(false, |t| t == "thorough"),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        evidence: opt("--evidence").unwrap_or(format!("{root}/evidence/{id}.json")),
        replays: opt("--replays").unwrap_or(format!("{root}/replays")),
        known: opt("--known").unwrap_or(format!("{root}/KNOWN_FINDINGS.txt")),
        cases: opt("--cases").and_then(|s| s.parse().ok()),
        id: id.clone(),
    };
    let code = match cmd.as_str() {
        "list" => {
            for p in props() {
                println!("{}", p.id);
            }
            0
        }
        "check" => parent(&a, &argv),
        "worker" => worker(&a),
        "one" => {
            let props = props();
            let p = props.iter().find(|p| p.id == a.id).unwrap();
            let idx: u64 = opt("--index").unwrap().parse().unwrap();
            big(|| {
                let mut src = case_src(p, a.seed, idx, &(p.fixed)(a.thorough));
                let mut cx = Cx::new(false, a.thorough);
                let _ = run_case(p, &mut src, &mut cx);
            });
            0
        }
        "replay" => replay(&id, &a.known),
        _ => {
            eprintln!("usage: vh check ID [--tier quick|thorough] [--seed N] | vh replay FILE | vh list");
            2
        }
    };
    std::process::exit(code);
}
