//! The command line: supervision of a worker process, evidence, replay files.

use crate::engine::*;
use crate::registry;
use std::io::Write as _;
use std::process::{Child, Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn threads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()))
        .min(SLOTS)
}

fn write_replay(id: &str, tier: Tier, family: &str, idx: u64, why: &str, trace: &str) -> String {
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, id);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"family\": {},\n \"index\": {},\n \"why\": {},\n \"trace\": {},\n \"rerun\": {}\n}}\n",
        json_str(id),
        tier.name(),
        json_str(family),
        idx,
        json_str(why),
        json_str(trace),
        json_str(&format!("{}/check.sh replay {}", verif_dir(), path)),
    );
    let _ = std::fs::write(&path, text);
    path
}

fn write_evidence(id: &str, tier: Tier, rep: &Report, p: &Property, wall: f64) {
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(0);
    let exhaustive =
        rep.violation.is_none() && rep.families.iter().all(|f| f.executed == f.size);
    let mut fams = String::new();
    let mut samples = String::new();
    let mut ns = 0;
    for (i, f) in rep.families.iter().enumerate() {
        if i > 0 {
            fams.push_str(",\n   ");
        }
        fams.push_str(&format!(
            "{{\"family\": {}, \"space\": {}, \"executed\": {}, \"bounds\": {}, \"wall_s\": {:.3}}}",
            json_str(&f.name),
            f.size,
            f.executed,
            json_str(&f.bounds),
            f.wall_s
        ));
        for s in &f.samples {
            if ns < 40 {
                if ns > 0 {
                    samples.push_str(",\n   ");
                }
                samples.push_str(&json_str(&format!("{} {}", f.name, s)));
                ns += 1;
            }
        }
    }
    let outcomes = rep
        .outcomes
        .iter()
        .map(|(k, v)| format!("{}: {}", json_str(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let assumptions = p
        .assumptions
        .iter()
        .map(|a| json_str(a))
        .collect::<Vec<_>>()
        .join(",\n  ");
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"outcomes\": {{{}}},\n  \"families\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [\n  {}\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(id),
        tier.name(),
        seed,
        rep.states,
        rep.transitions,
        rep.traces,
        exhaustive,
        outcomes,
        fams,
        samples,
        assumptions,
        wall,
        rep.violation.is_some() as u32,
    );
    let _ = std::fs::write(format!("{}/{}.json", dir, id), text);
}

fn parse_tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// A runaway allocation becomes an allocation failure in this process only.
fn limit_memory() {
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 26 << 30,
            rlim_max: 26 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn worker(id: &str, tier: Tier, journal: &str) -> i32 {
    limit_memory();
    install_panic_hook();
    let t0 = Instant::now();
    let p = match registry::property(id, tier) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        }
    };
    let only = std::env::var("MC_FAMILY").ok();
    let p = match only {
        Some(f) => Property {
            families: p
                .families
                .into_iter()
                .filter(|x| x.name.contains(&f))
                .collect(),
            assumptions: p.assumptions,
        },
        None => p,
    };
    let j = Journal::open(journal).ok();
    let rep = explore(&p, j, threads());
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(id, tier, &rep, &p, wall);
    if std::env::var("MC_VERBOSE").is_ok() {
        for f in &rep.families {
            eprintln!("  {:<60} {:>12} {:>8.2}s", f.name, f.size, f.wall_s);
        }
        eprintln!("  outcomes {:?}", rep.outcomes);
    }
    if let Some((fam, idx, why, trace)) = &rep.violation {
        let path = write_replay(id, tier, fam, *idx, why, trace);
        println!("{}: {} #{}: {}", id, fam, idx, why);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    println!(
        "{} {}: held; {} families, {} states, {} transitions, {} executions of the real code, {:.1} s",
        id,
        tier.name(),
        rep.families.len(),
        rep.states,
        rep.transitions,
        rep.traces,
        wall
    );
    0
}

/// Runs a single case in this process: 0 holds, 1 violated.
fn case(id: &str, tier: Tier, family: &str, idx: u64) -> i32 {
    limit_memory();
    install_panic_hook();
    let p = match registry::property(id, tier) {
        Some(p) => p,
        None => return 2,
    };
    for f in &p.families {
        if f.name == family {
            let mut code = 0;
            std::thread::scope(|s| {
                let t = std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        let mut ctx = Ctx {
                            tracing: true,
                            ..Ctx::default()
                        };
                        let r = run_case(f, idx, &mut ctx);
                        println!("{}", ctx.text);
                        match r {
                            Ok(()) => {
                                println!("held");
                                0
                            }
                            Err(e) => {
                                println!("violated: {}", e);
                                1
                            }
                        }
                    })
                    .unwrap();
                code = t.join().unwrap_or(2);
            });
            return code;
        }
    }
    eprintln!("no family {}", family);
    2
}

fn wait_limit(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let p = match registry::property(id, tier) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        }
    };
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    if std::fs::create_dir_all(&scratch).is_err() {
        eprintln!("no scratch directory");
        return 2;
    }
    let jpath = scratch.join("journal").to_string_lossy().to_string();
    let journal = match Journal::open(&jpath) {
        Ok(j) => j,
        Err(e) => {
            eprintln!("no journal: {}", e);
            return 2;
        }
    };
    let exe = std::env::current_exe().expect("own path");
    let mut child = match Command::new(&exe)
        .args(["worker", id, tier.name(), &jpath])
        .stdin(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the worker: {}", e);
            return 2;
        }
    };
    let mut seen: Vec<(u64, u64, u64, Instant)> = vec![(0, 0, 0, Instant::now()); SLOTS];
    // Cases to re-run, and why.
    let mut suspects: Vec<(u64, u64)> = vec![];
    let mut how = String::new();
    let mut status = None;
    loop {
        if let Ok(Some(s)) = child.try_wait() {
            status = Some(s);
            break;
        }
        let now = Instant::now();
        for (slot, fam, idx, seq) in journal.active() {
            let e = &mut seen[slot];
            if (e.0, e.1, e.2) != (fam, idx, seq) {
                *e = (fam, idx, seq, now);
            } else {
                let limit = p.families.get(fam as usize).map_or(60, |f| f.hang_s);
                if now.duration_since(e.3).as_secs() > limit {
                    suspects.push((fam, idx));
                }
            }
        }
        if !suspects.is_empty() {
            let _ = child.kill();
            let _ = child.wait();
            how = "did not finish".into();
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    if let Some(s) = status {
        if let Some(code) = s.code() {
            let _ = std::fs::remove_dir_all(&scratch);
            if code == 0 || code == 1 {
                return code;
            }
            eprintln!("worker ended with {}", code);
            return 2;
        }
        how = format!("the process was ended by the code under test ({})", s);
        suspects = journal.active().iter().map(|(_, f, i, _)| (*f, *i)).collect();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    // Confirm by running each suspect alone.
    for (fam, idx) in suspects {
        let f = match p.families.get(fam as usize) {
            Some(f) => f,
            None => continue,
        };
        let mut c = match Command::new(&exe)
            .args(["case", id, tier.name(), &f.name, &idx.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
        {
            Ok(c) => c,
            Err(_) => continue,
        };
        let why = match wait_limit(&mut c, Duration::from_secs(f.hang_s)) {
            None => format!("a call does not return within {} s", f.hang_s),
            Some(s) if s.code().is_none() => format!("the process is aborted ({})", s),
            Some(s) if s.code() == Some(1) => "the case is violated when run alone".into(),
            _ => continue,
        };
        let mut rep = Report::default();
        rep.traces = 1;
        rep.transitions = 1;
        rep.states = 1;
        let why = format!("{}; {}", how, why);
        rep.violation = Some((f.name.clone(), idx, why.clone(), String::new()));
        write_evidence(id, tier, &rep, &p, t0.elapsed().as_secs_f64());
        let path = write_replay(id, tier, &f.name, idx, &why, "");
        println!("{}: {} #{}: {}", id, f.name, idx, why);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    eprintln!("{}: {} and could not be reproduced", id, how);
    2
}

fn field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{}\": ", key))? + key.len() + 4;
    let rest = &text[at..];
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => o.push(it.next()?),
                c => o.push(c),
            }
        }
        None
    } else {
        Some(rest.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

pub fn main() -> ExitCode {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => {
            supervise(&a[2], parse_tier(a.get(3).map_or("quick", |s| s.as_str())))
        }
        Some("worker") if a.len() == 5 => worker(&a[2], parse_tier(&a[3]), &a[4]),
        Some("case") if a.len() == 6 => {
            case(&a[2], parse_tier(&a[3]), &a[4], a[5].parse().unwrap_or(0))
        }
        Some("replay") if a.len() == 3 => match std::fs::read_to_string(&a[2]) {
            Ok(t) => match (
                field(&t, "property"),
                field(&t, "tier"),
                field(&t, "family"),
                field(&t, "index"),
            ) {
                (Some(id), Some(tier), Some(f), Some(i)) => {
                    case(&id, parse_tier(&tier), &f, i.parse().unwrap_or(0))
                }
                _ => 2,
            },
            Err(e) => {
                eprintln!("{}", e);
                2
            }
        },
        Some("list") => {
            for i in registry::IDS {
                println!("{}", i);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    let _ = std::io::stdout().flush();
    ExitCode::from(code as u8)
}
