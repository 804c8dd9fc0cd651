mod checks;
mod compose;
mod exec;
mod gen;
mod html;
mod model;
mod rng;
mod run;
mod scenario;
mod symbols;
mod sys;
mod tables;
mod types;
mod view;

use checks::{Lab, Outcome, Stats};
use run::{Batch, Summary};
use scenario::Scenario;
use std::path::{Path, PathBuf};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}

fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

/// Runs per check: what fits the time a check is given, found by measuring.
fn runs(prop: &str, thorough: bool) -> u64 {
    let quick = match prop {
        "C01" => 6000,
        "C02" => 40000,
        "C03" => 150000,
        "C04" => 30000,
        "C05" => 5000,
        "C06" => 1500,
        "C07" => 150000,
        "C08" => 50000,
        "C09" => 120000,
        "C10" => 120000,
        "C11" => 16000,
        "C12" => 6000,
        "C13" => 13000,
        _ => 1000,
    };
    if thorough { quick * 40 } else { quick }
}

fn replay_file(lab: &Lab, path: &Path) -> Result<(Scenario, Outcome), String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    let sc = Scenario::read(&text).ok_or("not a replay file")?;
    checks::prepare(&sc.prop);
    let o = checks::evaluate(lab, &sc, &mut Stats::default());
    Ok((sc, o))
}

fn report(lab: &Lab, sc: Scenario, v: checks::Violation, out: &Path, name: &str) -> ! {
    let prop = sc.prop.clone();
    let before = sc.size();
    let seconds = std::env::var("SIM_MINIMISE_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
    let (small, small_msg) = run::minimise(lab, sc.clone(), &v, 400, seconds);
    let path = out.join(format!("{prop}-{name}.replay"));
    // the first of these that a fresh process reproduces from the file: it, it with the schedule
    // its seed stands for, and what was found
    let mut tries = vec![(small.clone(), small_msg.clone())];
    if small.env.switches.is_some() {
        let mut seeded = small;
        seeded.env.switches = None;
        tries.push((seeded, small_msg));
    }
    tries.push((sc, v.msg.clone()));
    let mut found = None;
    for (min, msg) in tries {
        let text = format!("# {}\n{}", msg.replace('\n', " "), min.write());
        if let Err(e) = std::fs::write(&path, text) {
            eprintln!("cannot write {}: {e}", path.display());
            std::process::exit(2);
        }
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        match again {
            Ok(o) if o.status.code() == Some(1) => {
                found = Some((min, msg));
                break;
            }
            o => eprintln!("a replay of size {} does not reproduce: {o:?}", min.size()),
        }
    }
    let Some((min, msg)) = found else { std::process::exit(2) };
    println!("broken ({}): {}", v.class, msg);
    println!("minimised from {} to {}", before, min.size());
    println!("VIOLATION property={prop} replay={}", path.display());
    std::process::exit(1);
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(b: &Batch, s: &Summary, thorough: bool, wall: f64, regress: usize, path: &Path) {
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let get = |k: &str| s.count.get(k).copied().unwrap_or(0);
    let group = |p: &str| -> String {
        let l: Vec<String> = s
            .count
            .iter()
            .filter(|(k, _)| k.starts_with(p))
            .map(|(k, v)| format!("{}: {v}", json(k.trim_start_matches(p).trim_start_matches(": "))))
            .collect();
        format!("{{{}}}", l.join(", "))
    };
    let other: Vec<String> = s
        .count
        .iter()
        .filter(|(k, _)| !k.starts_with("fault: ") && !k.starts_with("probe: "))
        .map(|(k, v)| format!("{}: {v}", json(k)))
        .collect();
    let mut samples = vec![];
    for i in [0, b.runs / 2, b.runs - 1] {
        let sc = checks::generate(&b.prop, run::seed_of(b.seed, i));
        let t: String = sc.write().chars().take(1500).collect();
        samples.push(json(&t));
    }
    let (rule, real, stub, assume) = checks::about(&b.prop);
    let text = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"wall_s\": {:.3}, \"violations\": {},\n \"assumptions\": [{}],\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"runs_planned\": {},\n  \"regression_replays\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"distinct_interleavings\": {},\n  \"engine_basic_blocks_reached\": {},\n  \"simulated_line_seconds_at_9600_baud\": {},\n  \"result_digest\": {},\n  \"faults_fired\": {},\n  \"probes\": {},\n  \"counts\": {{{}}},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"workers\": {},\n  \"samples\": [{}]\n }}\n}}\n",
        json(&b.prop),
        json(if thorough { "thorough" } else { "quick" }),
        b.seed,
        wall,
        s.broken.is_some() as u32,
        assume.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "),
        s.finished,
        s.shapes.len(),
        json(&rule),
        b.runs,
        regress,
        per_hour(s.finished),
        per_hour(s.finished),
        s.schedules.len(),
        s.blocks,
        get("bytes delivered") / 960,
        json(&format!("{:016x}", s.digest)),
        group("fault: "),
        group("probe: "),
        other.join(", "),
        json(real),
        json(stub),
        b.workers,
        samples.join(", "),
    );
    if let Err(e) = std::fs::create_dir_all(path.parent().unwrap()).and_then(|_| std::fs::write(path, text)) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
}

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let path = PathBuf::from(&a[2]);
            let lab = Lab { shm: exec::Shm::new() };
            match replay_file(&lab, &path) {
                Err(e) => {
                    eprintln!("{}: {e}", path.display());
                    std::process::exit(2)
                }
                Ok((sc, Outcome::Broken(v))) => {
                    println!("broken ({}): {}", v.class, v.msg);
                    println!("VIOLATION property={} replay={}", sc.prop, path.display());
                    std::process::exit(1)
                }
                Ok((_, Outcome::Harness(m))) => {
                    eprintln!("harness: {m}");
                    std::process::exit(2)
                }
                Ok((sc, Outcome::Held)) => println!("property {} held", sc.prop),
            }
        }
        Some("show") => {
            let seed = run::seed_of(a[3].parse().unwrap(), a[4].parse().unwrap());
            print!("{}", checks::generate(&a[2], seed).write());
        }
        Some("digest") => {
            // the same seed gives the same runs, whoever runs them
            let b = Batch {
                prop: a[2].clone(),
                seed: a[3].parse().unwrap(),
                runs: a[4].parse().unwrap(),
                workers: arg(&a, "--workers").and_then(|w| w.parse().ok()).unwrap_or_else(workers),
                deadline_s: 3600,
            };
            let s = run::batch(&b);
            println!("{} {} {:016x} {} {} {} {:?} {:?}", b.prop, s.finished, s.digest, s.shapes.len(), s.schedules.len(), s.blocks, s.broken, s.harness);
        }
        Some("check") => {
            let prop = a[2].clone();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let tier = arg(&a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let thorough = tier == "thorough";
            let root = PathBuf::from(arg(&a, "--root").unwrap_or("/verif".into()));
            let n = arg(&a, "--runs").and_then(|n| n.parse().ok()).unwrap_or(runs(&prop, thorough));
            let out = root.join("out");
            std::fs::create_dir_all(&out).unwrap();
            let t0 = sys::real_ns();
            println!("property {prop} seed {seed} tier {tier} runs {n}");
            // defects repaired earlier stay repaired
            let mut regress = vec![];
            if let Ok(d) = std::fs::read_dir(root.join("sim/regress")) {
                let mut l: Vec<PathBuf> = d.filter_map(|e| Some(e.ok()?.path())).collect();
                l.sort();
                for p in l {
                    let Ok(t) = std::fs::read_to_string(&p) else { continue };
                    match Scenario::read(&t) {
                        Some(sc) if sc.prop == prop => regress.push((p, sc)),
                        Some(_) => {}
                        None => {
                            eprintln!("{}: not a replay file", p.display());
                            std::process::exit(2);
                        }
                    }
                }
            }
            let b = Batch {
                prop: prop.clone(),
                seed,
                runs: n,
                workers: arg(&a, "--workers").and_then(|w| w.parse().ok()).unwrap_or_else(workers),
                deadline_s: arg(&a, "--seconds").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 }),
            };
            let lab = Lab { shm: exec::Shm::new() };
            let ev = root.join("evidence").join(format!("{prop}.json"));
            for (p, sc) in &regress {
                match checks::evaluate(&lab, sc, &mut Stats::default()) {
                    Outcome::Held => {}
                    Outcome::Harness(m) => {
                        eprintln!("harness: {}: {m}", p.display());
                        std::process::exit(2);
                    }
                    Outcome::Broken(v) => {
                        let s = Summary { finished: 1, broken: Some((0, v.class.into(), v.msg.clone())), ..Default::default() };
                        evidence(&b, &s, thorough, (sys::real_ns() - t0) as f64 / 1e9, regress.len(), &ev);
                        let name = p.file_stem().unwrap().to_string_lossy().to_string();
                        report(&lab, sc.clone(), v, &out, &name);
                    }
                }
            }
            let s = run::batch(&b);
            let wall = (sys::real_ns() - t0) as f64 / 1e9;
            if let Some(h) = &s.harness {
                eprintln!("harness error: {h}");
                std::process::exit(2);
            }
            evidence(&b, &s, thorough, wall, regress.len(), &ev);
            if let Some((idx, class, msg)) = &s.broken {
                let rs = run::seed_of(seed, *idx);
                println!("run {idx} (seed {rs}) {class}: {msg}");
                let sc = checks::generate(&prop, rs);
                match checks::evaluate(&lab, &sc, &mut Stats::default()) {
                    Outcome::Broken(v) => report(&lab, sc, v, &out, &format!("seed{seed}-run{idx}")),
                    _ => {
                        eprintln!("run {idx} does not repeat");
                        std::process::exit(2);
                    }
                }
            }
            println!(
                "held: {} runs, {} distinct, {:.1} s, digest {:016x}, {} blocks",
                s.finished,
                s.shapes.len(),
                wall,
                s.digest,
                s.blocks
            );
        }
        _ => {
            eprintln!("sim check <property> [--tier quick|thorough] | replay <file> | show <property> <seed> <run> | digest <property> <seed> <runs>");
            std::process::exit(2);
        }
    }
}
