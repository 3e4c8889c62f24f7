//! Model checker for the dmidecode crate. See ../DESIGN.md.
#![allow(dead_code)]
mod dict;
mod engine;
mod evals;
mod model;
mod props;
mod render;
mod spaces;
mod tables;
mod values;

use engine::{decode, encode, explore, Arena, Case, Fx, Job, Report, Stats, EXIT_CRASH};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::process::{exit, Command};
use std::time::Instant;

/// CPU seconds one case may take
const LIMIT: f64 = 30.0;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage());
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => exit(run(arg(2), arg(3), &a[4..])),
        Some("worker") => exit(worker(arg(2), arg(3) == "thorough", arg(4))),
        Some("one") => exit(one(arg(2), arg(3) == "thorough", arg(4), arg(5))),
        Some("replay") => exit(replay(arg(2), &a[3..])),
        Some("digest") => exit(digest(arg(2) == "thorough", arg(3))),
        Some("digest-item") => exit(digest_item(arg(2) == "thorough", arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5))),
        Some("digest-case") => exit(digest_one(arg(2) == "thorough", arg(3), arg(4))),
        Some("texts") => print!("{}", values::dump_texts()),
        Some("literals") => print!("{}", dict::dump()),
        Some("layouts") => print!("{}", values::dump_layouts()),
        Some("ids") => println!("{}", props::IDS.join(" ")),
        _ => usage(),
    }
}
fn usage() -> ! {
    eprintln!("usage: mc run <property> quick|thorough [builds..] | replay <file> [builds..] | texts | layouts | ids");
    exit(2)
}
fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)
}

// ---------------------------------------------------------------- JSON

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn coverage(r: &Report, extra: &str) -> String {
    let samples: Vec<String> = r.samples.iter().take(24).map(|s| js(s)).collect();
    let spaces: Vec<String> = r.per_job.iter().map(|(n, c, s)| format!("{{\"space\":{},\"cases\":{c},\"states\":{s}}}", js(n))).collect();
    let classes: Vec<String> = r.classes.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    format!(
        "{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"samples\":[{}],\"spaces\":[{}],\"outcomes\":{{{}}}{extra}}}",
        r.states,
        r.transitions,
        r.cases,
        r.violation.is_none(),
        samples.join(","),
        spaces.join(","),
        classes.join(",")
    )
}

// ---------------------------------------------------------------- worker: explores all jobs of a check

const EXIT_VIOLATION: i32 = 10;
fn worker(id: &str, thorough: bool, dir: &str) -> i32 {
    engine::install(&format!("{dir}/crash"));
    let jobs = props::jobs(id, thorough);
    let mut r = explore(&jobs, threads(), LIMIT);
    if props::VOLTAGE.load(std::sync::atomic::Ordering::SeqCst) {
        if known(id).iter().any(|l| l.contains("Voltage::Legacy")) {
            std::fs::write(format!("{dir}/known"), values::VOLTAGE_FINDING).unwrap();
        } else if r.violation.is_none() {
            r.violation = Some((Case { aux: 1, ..Default::default() }, 1, values::VOLTAGE_FINDING.into()));
        }
    }
    std::fs::write(format!("{dir}/coverage"), coverage(&r, "")).unwrap();
    if let Some((c, j, why)) = &r.violation {
        std::fs::write(format!("{dir}/crash"), encode(c, *j, why)).unwrap();
        return EXIT_VIOLATION;
    }
    if r.cases == 0 || r.per_job.iter().any(|j| j.1 == 0) {
        eprintln!("ENGINE ERROR: an empty space: {:?}", r.per_job.iter().filter(|j| j.1 == 0).map(|j| &j.0).collect::<Vec<_>>());
        return engine::EXIT_ENGINE;
    }
    0
}
/// the listed findings of a property
fn known(id: &str) -> Vec<String> {
    let file = std::env::var("MC_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.txt".into());
    let text = std::fs::read_to_string(file).unwrap_or_default();
    text.lines().filter(|l| l.starts_with(&format!("known: property={id} "))).map(|l| l.to_string()).collect()
}
/// one case in a fresh process
fn one(id: &str, thorough: bool, file: &str, dir: &str) -> i32 {
    engine::install(&format!("{dir}/crash1"));
    let text = std::fs::read_to_string(file).expect("case file");
    let Some((c, j, _)) = decode(&text) else {
        eprintln!("not a case: {file}");
        return 2;
    };
    let mut jobs = props::jobs(id, thorough);
    if j as usize >= jobs.len() {
        return 2;
    }
    let job = jobs.swap_remove(j as usize);
    let n = vec![Job { name: job.name, items: 1, gen: Box::new(move |_, _, out| out(&c)), eval: job.eval }];
    let r = explore(&n, 1, LIMIT);
    if let Some((_, _, why)) = r.violation {
        println!("{why}");
        return EXIT_VIOLATION;
    }
    if props::VOLTAGE.load(std::sync::atomic::Ordering::SeqCst) && known(id).is_empty() {
        println!("{}", values::VOLTAGE_FINDING);
        return EXIT_VIOLATION;
    }
    0
}
fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}
fn read(p: &str) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}
/// does the case fail in a fresh process? Some(reason) if so
fn confirm(id: &str, tier: &str, file: &str, dir: &str) -> Option<String> {
    let o = me().args(["one", id, tier, file, dir]).output().expect("child");
    match o.status.code() {
        Some(EXIT_VIOLATION) => Some(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        Some(EXIT_CRASH) => Some(decode(&read(&format!("{dir}/crash1"))).map(|x| x.2).unwrap_or("crashed".into())),
        Some(0) => None,
        Some(n) => {
            eprintln!("ENGINE ERROR: confirmation ended with {n}: {}", String::from_utf8_lossy(&o.stderr));
            None
        }
        None => Some("killed by a signal".into()),
    }
}

// ---------------------------------------------------------------- run: a whole check

fn evidence(id: &str, tier: &str, cov: &str, start: Instant, violations: u32) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::var("MC_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let assume = [
        "the model (mc/src/model.rs, tables.rs, golden/*.tsv) states the SMBIOS specification as documented in the crate",
        "the enumeration is complete inside of the listed spaces and says nothing outside of them",
        "rustc 1.90.0 and the std library on x86_64; no random choice is made, the seed is not used",
    ];
    let assume: Vec<String> = assume.iter().map(|s| js(s)).collect();
    let text = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{violations}}}\n",
        js(id),
        js(tier),
        if cov.is_empty() { "{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[],\"exhaustive\":false}" } else { cov },
        assume.join(","),
        start.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{dir}/{id}.json"), text).expect("evidence");
}
fn run(id: &str, tier: &str, builds: &[String]) -> i32 {
    if !props::IDS.contains(&id) || !["quick", "thorough"].contains(&tier) {
        usage();
    }
    let start = Instant::now();
    let work = std::env::var("MC_WORK").unwrap_or_else(|_| "/verif/work".into());
    let dir = format!("{work}/{id}-{tier}-{}", std::process::id());
    std::fs::create_dir_all(&dir).expect("work directory");
    std::fs::create_dir_all(format!("{work}/replay")).expect("work directory");
    let keep = format!("{work}/replay/{id}-{tier}.case");
    let code = if id == "C23" { run_builds(tier, builds, &dir, &keep, start) } else { run_check(id, tier, &dir, &keep, start) };
    let _ = std::fs::remove_dir_all(&dir);
    code
}
fn run_check(id: &str, tier: &str, dir: &str, keep: &str, start: Instant) -> i32 {
    let mut seen = vec![];
    for attempt in 0..4 {
        for f in ["crash", "coverage", "known"] {
            let _ = std::fs::remove_file(format!("{dir}/{f}"));
        }
        let status = me().args(["worker", id, tier, dir]).status().expect("worker");
        let cov = read(&format!("{dir}/coverage"));
        match status.code() {
            Some(0) => {
                if attempt > 0 && attempt < 3 {
                    continue;
                }
                if attempt > 0 {
                    eprintln!("ENGINE ERROR: {seen:?} did not show again");
                    return 2;
                }
                evidence(id, tier, &cov, start, 0);
                let k = read(&format!("{dir}/known"));
                if !k.is_empty() {
                    println!("KNOWN-FINDING: property={id} {k}");
                }
                println!("OK property={id} tier={tier} {:.1}s {}", start.elapsed().as_secs_f64(), summary(&cov));
                return 0;
            }
            Some(EXIT_VIOLATION) | Some(EXIT_CRASH) => {
                let case = read(&format!("{dir}/crash"));
                let Some((c, j, why)) = decode(&case) else {
                    eprintln!("ENGINE ERROR: unreadable case");
                    return 2;
                };
                std::fs::write(format!("{dir}/case"), &case).unwrap();
                let again = confirm(id, tier, &format!("{dir}/case"), dir);
                if again.is_none() && attempt == 0 && seen.is_empty() {
                    // depends on what ran before it: explore once more
                    seen.push(why);
                    continue;
                }
                let note = match &again {
                    Some(w) => w.clone(),
                    None => format!("{why} (in the course of the exploration, not on its own)"),
                };
                std::fs::write(keep, format!("property={id} tier={tier}{}\n{}", if again.is_none() { " whole" } else { "" }, encode(&c, j, &note))).unwrap();
                evidence(id, tier, &cov, start, 1);
                println!("{}: {note}", props::jobs(id, tier == "thorough")[j as usize].name);
                println!("VIOLATION property={id} replay={keep}");
                return 1;
            }
            other => {
                eprintln!("ENGINE ERROR: worker ended with {other:?} {status:?}");
                return 2;
            }
        }
    }
    2
}
fn summary(cov: &str) -> String {
    cov.split(",\"exhaustive\"").next().unwrap_or("").trim_start_matches('{').replace('"', "")
}
fn replay(file: &str, builds: &[String]) -> i32 {
    let text = read(file);
    let Some((head, rest)) = text.split_once('\n') else { usage() };
    let mut id = "";
    let mut tier = "quick";
    let mut whole = false;
    for w in head.split(' ') {
        match w.split_once('=') {
            Some(("property", v)) => id = v,
            Some(("tier", v)) => tier = v,
            _ => whole = true,
        }
    }
    let dir = format!("{}/replay-{}", std::env::var("MC_WORK").unwrap_or_else(|_| "/verif/work".into()), std::process::id());
    std::fs::create_dir_all(&dir).expect("work directory");
    let case = format!("{dir}/case");
    std::fs::write(&case, rest).unwrap();
    let code = if id == "C23" {
        match differ(tier, builds, &case) {
            Some(w) => {
                println!("{w}\nVIOLATION property={id} replay={file}");
                1
            }
            None => 0,
        }
    } else if whole {
        run_check(id, tier, &dir, file, Instant::now())
    } else {
        match confirm(id, tier, &case, &dir) {
            Some(w) => {
                println!("{w}\nVIOLATION property={id} replay={file}");
                1
            }
            None => {
                println!("holds on this case");
                0
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

// ---------------------------------------------------------------- C23: the same exploration in several builds

fn digest_jobs(thorough: bool) -> Vec<(String, usize, engine::Gen, props::Digest)> {
    props::digests(thorough)
        .into_iter()
        .map(|(s, d)| {
            let g = s.gen.clone();
            (s.name.clone(), s.items, Box::new(move |i: usize, c: &mut Case, out: &mut dyn FnMut(&Case)| g(i, c, out)) as engine::Gen, d)
        })
        .collect()
}
/// digest of one case: a panic is an answer as well
fn digest_of(d: props::Digest, c: &Case, buf: &[u8], st: &mut Stats) -> u64 {
    let mut o = Fx(0x1234_5678_9abc_def1);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d(c, buf, st, &mut o))) {
        Ok(()) => o.fin(),
        Err(_) => 0xDEAD,
    }
}
fn digest(thorough: bool, dir: &str) -> i32 {
    let jobs = digest_jobs(thorough);
    engine::install(&format!("{dir}/crash"));
    let table = std::sync::Arc::new(std::sync::Mutex::new(BTreeMap::<(usize, usize), u64>::new()));
    // an item is explored by one thread: its digest is accumulated there
    thread_local!(static ACC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
    let mut list = vec![];
    for (j, (name, items, gen, d)) in jobs.into_iter().enumerate() {
        let table = table.clone();
        list.push(Job {
            name,
            items,
            gen: Box::new(move |i, c, out| {
                ACC.set(0);
                gen(i, c, out);
                table.lock().unwrap().insert((j, i), ACC.get());
            }),
            eval: Box::new(move |c, b, st| {
                let h = digest_of(d, c, b, st);
                let mut o = Fx(ACC.get());
                o.add(h);
                ACC.set(o.0);
                Ok(())
            }),
        });
    }
    let n = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(threads());
    let r = explore(&list, n, 4.0 * LIMIT);
    let mut s = String::new();
    for ((j, i), h) in table.lock().unwrap().iter() {
        let _ = writeln!(s, "{j} {i} {h:016x}");
    }
    std::fs::write(format!("{dir}/digests"), s).unwrap();
    std::fs::write(format!("{dir}/coverage"), coverage(&r, "")).unwrap();
    std::fs::write(format!("{dir}/numbers"), format!("{} {} {}", r.states, r.transitions, r.cases)).unwrap();
    0
}
fn digest_item(thorough: bool, job: usize, item: usize, out: &str) -> i32 {
    engine::install(&format!("{out}.crash"));
    let (_, _, gen, d) = &digest_jobs(thorough)[job];
    let mut arena = Arena::new(1 << 20);
    let mut st = Stats { quiet: true, ..Default::default() };
    let mut s = String::new();
    gen(item, &mut Case::default(), &mut |c| {
        let h = digest_of(*d, c, arena.place(&c.buf, c.place), &mut st);
        let _ = writeln!(s, "{h:016x}");
    });
    std::fs::write(out, s).unwrap();
    0
}
fn digest_one(thorough: bool, file: &str, out: &str) -> i32 {
    engine::install(&format!("{out}.crash"));
    let Some((c, j, _)) = decode(&read(file)) else { return 2 };
    let d = digest_jobs(thorough)[j as usize].3;
    let mut arena = Arena::new(1 << 20);
    let mut st = Stats { quiet: true, ..Default::default() };
    println!("{:016x}", digest_of(d, &c, arena.place(&c.buf, c.place), &mut st));
    0
}
/// Some(reason) if the builds disagree about the case
fn differ(tier: &str, builds: &[String], case: &str) -> Option<String> {
    let mut got = vec![];
    for b in builds {
        let (name, path) = b.split_once('=').unwrap_or_else(|| usage());
        let o = Command::new(path).args(["digest-case", tier, case, &format!("{case}.{name}")]).output().expect("build");
        let t = String::from_utf8_lossy(&o.stdout).trim().to_string();
        got.push((name, if !o.status.success() { format!("ends with {:?}", o.status.code()) } else if t == format!("{:016x}", 0xDEAD) { "panics".into() } else { t }));
    }
    let first = got.first()?.1.clone();
    let other = got.iter().find(|g| g.1 != first)?;
    Some(format!("build {} answers {first}, build {} answers {}", got[0].0, other.0, other.1))
}
fn run_builds(tier: &str, builds: &[String], dir: &str, keep: &str, start: Instant) -> i32 {
    if builds.len() < 2 {
        usage();
    }
    // the unoptimised builds take longest: all at the same time
    let mut kids = vec![];
    for b in builds {
        let (name, path) = b.split_once('=').unwrap_or_else(|| usage());
        let d = format!("{dir}/{name}");
        std::fs::create_dir_all(&d).unwrap();
        kids.push((name, path, d.clone(), Command::new(path).args(["digest", tier, &d]).spawn().expect("build")));
    }
    let mut res = vec![];
    let mut crashed = None;
    for (name, path, d, mut k) in kids {
        let s = k.wait().expect("build");
        match s.code() {
            Some(0) => res.push((name, path, d)),
            Some(EXIT_CRASH) => crashed = crashed.or(Some((name, read(&format!("{d}/crash"))))),
            other => {
                eprintln!("ENGINE ERROR: build {name} ended with {other:?}");
                return 2;
            }
        }
    }
    if let Some((name, case)) = crashed {
        std::fs::write(format!("{dir}/case"), &case).unwrap();
        match differ(tier, builds, &format!("{dir}/case")) {
            Some(w) => {
                std::fs::write(keep, format!("property=C23 tier={tier}\n{case}")).unwrap();
                evidence("C23", tier, "", start, 1);
                println!("{w}\nVIOLATION property=C23 replay={keep}");
                return 1;
            }
            None => {
                // every build fails alike: not a difference between builds, but nothing can be compared either
                if res.is_empty() {
                    evidence("C23", tier, "", start, 0);
                    println!("OK property=C23 tier={tier}: all builds stop alike at the same case ({name})");
                    return 0;
                }
                eprintln!("ENGINE ERROR: build {name} crashed, not reproduced");
                return 2;
            }
        }
    }
    let all: Vec<Vec<(usize, usize, String)>> = res
        .iter()
        .map(|r| {
            read(&format!("{}/digests", r.2))
                .lines()
                .map(|l| {
                    let f: Vec<&str> = l.split(' ').collect();
                    (f[0].parse().unwrap(), f[1].parse().unwrap(), f[2].to_string())
                })
                .collect()
        })
        .collect();
    let thorough = tier == "thorough";
    for k in 0..all[0].len() {
        let (j, i, _) = all[0][k];
        let Some(b) = (1..all.len()).find(|b| all[*b].get(k) != all[0].get(k)) else { continue };
        // find the case
        let mut lines = vec![];
        for r in [&res[0], &res[b]] {
            let f = format!("{dir}/item-{}", r.0);
            let _ = Command::new(r.1).args(["digest-item", tier, &j.to_string(), &i.to_string(), &f]).status();
            lines.push(read(&f).lines().map(|l| l.to_string()).collect::<Vec<_>>());
        }
        let Some(n) = (0..lines[0].len()).find(|n| lines[0].get(*n) != lines[1].get(*n)) else { continue };
        let (_, _, gen, _) = &digest_jobs(thorough)[j];
        let mut c = None;
        let mut at = 0;
        gen(i, &mut Case::default(), &mut |x| {
            if at == n {
                c = Some(x.clone());
            }
            at += 1;
        });
        let c = c.expect("case");
        std::fs::write(format!("{dir}/case"), encode(&c, j as u32, "")).unwrap();
        if let Some(w) = differ(tier, builds, &format!("{dir}/case")) {
            std::fs::write(keep, format!("property=C23 tier={tier}\n{}", encode(&c, j as u32, &w))).unwrap();
            evidence("C23", tier, &read(&format!("{}/coverage", res[0].2)), start, 1);
            println!("{w}\nVIOLATION property=C23 replay={keep}");
            return 1;
        }
    }
    if all.iter().any(|a| *a != all[0]) {
        eprintln!("ENGINE ERROR: a difference that does not show again");
        return 2;
    }
    // every build is one execution of every case
    let mut sum = [0u64; 3];
    for r in &res {
        for (a, b) in sum.iter_mut().zip(read(&format!("{}/numbers", r.2)).split(' ')) {
            *a += b.parse::<u64>().unwrap_or(0);
        }
    }
    let cov = read(&format!("{}/coverage", res[0].2));
    let head = format!("{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"builds\":[{}],", sum[0], sum[1], sum[2], res.iter().map(|r| js(r.0)).collect::<Vec<_>>().join(","));
    let cov = head + cov.split_once("\"exhaustive\"").map(|x| format!("\"exhaustive\"{}", x.1)).unwrap_or_default().as_str();
    evidence("C23", tier, &cov, start, 0);
    println!("OK property=C23 tier={tier} {:.1}s {} builds {}", start.elapsed().as_secs_f64(), res.len(), summary(&cov));
    0
}
