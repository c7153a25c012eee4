//! check PROP TIER: the search over seeds for one property, its self-checks, and its evidence file.
use crate::stats;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

const WORKERS: u64 = 8;

fn counts(prop: &str, thorough: bool) -> u64 {
    let (q, t) = match prop {
        "W01" => (80_000, 1_200_000),
        "W02" => (60_000, 1_000_000),
        "R03" => (200_000, 1_500_000),
        "S01" => (200_000, 1_000_000),
        "S02" => (160_000, 1_000_000),
        "S03" => (240_000, 1_000_000),
        "S05" => (40_000, 240_000),
        "S06" => (200_000, 1_500_000),
        "S07" => (160_000, 2_000_000),
        "R02" => (300_000, 3_000_000),
        "R05" => (240_000, 2_500_000),
        _ => (120_000, 2_000_000),
    };
    if thorough {
        t
    } else {
        q
    }
}

pub fn nontrivial(prop: &str) -> &'static [&'static str] {
    match prop {
        "T01" | "T02" | "T03" => &["at_pt_minus_1", "at_pt", "at_pt_plus_1", "scan_stall", "zero_time_scan"],
        "T04" => &["time_passed_inside_call"],
        "T05" => &["wall_step", "wall_step_inside_call"],
        "T06" => &["mono_backward"],
        "C01" | "C02" | "C03" => &["saturated_high", "saturated_low", "simultaneous_edges", "retained_value_restored"],
        "E01" | "L01" => &["input_edge"],
        "R01" => &["cold_restart"],
        "R02" => &["torn_mid_call"],
        "R04" => &["warm_restart"],
        "R05" => &["instance_copied"],
        "R03" => &["garbage_destination", "interrupted_destination", "reused_destination"],
        "S05" => &["repeated_calls", "varied_calls"],
        "S06" => &["heap_failed_in_call"],
        "S07" => &["calls_cut_off"],
        "S04" => &["calls_under_full_heap"],
        "W02" => &["zone_damaged", "zone_changed", "file_failure", "file_short_read", "file_early_end"],
        "W01" => &["time_passed_inside_call", "wall_step_inside_call", "day_wrap_near", "dst_near"],
        _ => &["preemption"],
    }
}

fn env_path(k: &str) -> PathBuf {
    PathBuf::from(std::env::var(k).unwrap_or_else(|_| {
        eprintln!("{k} is not set; run this through /verif/check");
        std::process::exit(2)
    }))
}

#[derive(Default)]
struct Out {
    runs: u64,
    steps: u64,
    sim: u128,
    bad: Option<(u64, String)>,
    harness: Option<String>,
    known: Vec<u64>,
    ctr: BTreeMap<String, u64>,
    hashes: Vec<(u64, u64, bool)>,
    states: HashSet<u64>,
}
fn words(p: &Path) -> Vec<u64> {
    std::fs::read(p).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
fn read_out(base: &Path) -> Option<Out> {
    let s = std::fs::read_to_string(base).ok()?;
    let mut o = Out::default();
    let mut complete = false;
    for l in s.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        match w[0] {
            "runs" => o.runs = w[1].parse().ok()?,
            "steps" => o.steps = w[1].parse().ok()?,
            "sim" => o.sim = w[1].parse().ok()?,
            "bad" => o.bad = Some((w[1].parse().ok()?, w[2].to_string())),
            "harness" => o.harness = Some(l.to_string()),
            "known" => o.known = w[1..].join(" ").split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            "ctr" => {
                o.ctr.insert(w[1].to_string(), w[2].parse().ok()?);
            }
            "end" => complete = true,
            _ => {}
        }
    }
    let ext = |e: &str| PathBuf::from(format!("{}.{e}", base.display()));
    o.hashes = words(&ext("hash")).chunks_exact(3).map(|c| (c[0], c[1], c[2] != 0)).collect();
    o.states = words(&ext("state")).into_iter().collect();
    complete.then_some(o)
}

struct Job {
    bin: PathBuf,
    first: u64,
    stride: u64,
    end: u64,
    cpu: u64,
}
fn run_jobs(prop: &str, tier: &str, seed: u64, known: &str, jobs: &[Job], dir: &Path, tag: &str) -> Vec<Result<Out, String>> {
    let stop = dir.join(format!("{tag}-stop"));
    let mut ch = vec![];
    for (n, j) in jobs.iter().enumerate() {
        let out = dir.join(format!("{tag}-{n}"));
        let c = Command::new(&j.bin)
            .args(["worker", prop, tier])
            .args([seed, j.first, j.stride, j.end, j.cpu].map(|x| x.to_string()))
            .arg(&out)
            .arg(&stop)
            .env("PLCSIM_KNOWN", known)
            .envs(if tag == "d" { Some(("PLCSIM_FOLLOW", "0")) } else { None })
            .stdin(Stdio::null())
            .spawn();
        ch.push((out, c));
    }
    ch.into_iter()
        .map(|(out, c)| {
            let mut c = c.map_err(|e| format!("cannot start a worker: {e}"))?;
            let st = c.wait().map_err(|e| e.to_string())?;
            read_out(&out).ok_or(format!("worker ended without its results ({st})"))
        })
        .collect()
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

/// open: property=T01 match="..." text
fn known_findings(root: &Path, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(r) = l.trim().strip_prefix(&format!("open: property={prop} match=\"")) else { continue };
        if let Some((m, what)) = r.split_once('"') {
            if !m.is_empty() {
                v.push((m.to_string(), what.trim().to_string()));
            }
        }
    }
    v
}

pub fn main(a: &[String]) -> i32 {
    let t0 = Instant::now();
    if a.len() < 2 || crate::family(&a[0]).is_none() || !["quick", "thorough"].contains(&a[1].as_str()) {
        eprintln!("usage: check PROPERTY quick|thorough");
        return 2;
    }
    let (prop, tier) = (a[0].as_str(), a[1].as_str());
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let root = env_path("PLCSIM_ROOT");
    let bins = [env_path("PLCSIM_DEV"), env_path("PLCSIM_REL")];
    let bin_of = |idx: u64| &bins[(idx % 2) as usize];
    let profile_of = |idx: u64| ["dev", "release"][(idx % 2) as usize];
    let total = std::env::var("PLCSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(counts(prop, thorough));
    let dir = root.join("target").join(format!("run-{prop}-{}", std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        eprintln!("cannot create {}", dir.display());
        return 2;
    }
    let known = known_findings(&root, prop);
    let known_env = known.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join("\n");

    // --- search: run i of this seed is executed by worker i mod 8; even runs use the debug build of the library
    let jobs: Vec<Job> =
        (0..WORKERS).map(|w| Job { bin: bin_of(w).clone(), first: w, stride: WORKERS, end: total, cpu: w }).collect();
    let ts = Instant::now();
    let res = run_jobs(prop, tier, seed, &known_env, &jobs, &dir, "s");
    let search_s = ts.elapsed().as_secs_f64();
    let mut all = Out { known: vec![0; known.len()], ..Default::default() };
    let mut errors: Vec<String> = vec![];
    for r in res {
        match r {
            Err(e) => errors.push(e),
            Ok(o) => {
                all.runs += o.runs;
                all.steps += o.steps;
                all.sim += o.sim;
                for (k, v) in o.ctr {
                    let e = all.ctr.entry(k.clone()).or_default();
                    if stats::is_max(&k) {
                        *e = (*e).max(v);
                    } else {
                        *e += v;
                    }
                }
                all.hashes.extend(o.hashes);
                all.states.extend(o.states);
                for (i, n) in o.known.iter().enumerate() {
                    all.known[i] += n;
                }
                if let Some(h) = o.harness {
                    errors.push(h);
                }
                if let Some(b) = o.bad {
                    if all.bad.as_ref().map_or(true, |x| b.0 < x.0) {
                        all.bad = Some(b);
                    }
                }
            }
        }
    }

    // --- is one seed one execution? Re-run a sample elsewhere: other processes, other partition, other CPUs
    let mut rechecked = 0u64;
    let mut diverged = vec![];
    if all.bad.is_none() && errors.is_empty() {
        let want = std::env::var("PLCSIM_REPEAT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 4000 } else { 320u64 });
        let step = (total / want.max(1) / 2 * 2).max(2);
        let jobs: Vec<Job> = (0..4u64)
            .map(|k| Job {
                bin: bin_of(k).clone(),
                first: (k % 2) + (k / 2) * step,
                stride: 2 * step,
                end: total,
                cpu: 7 - k,
            })
            .collect();
        let by: HashMap<u64, u64> = all.hashes.iter().map(|h| (h.0, h.1)).collect();
        for r in run_jobs(prop, tier, seed, &known_env, &jobs, &dir, "d") {
            match r {
                Err(e) => errors.push(e),
                Ok(o) => {
                    if let Some(h) = o.harness {
                        errors.push(h);
                    }
                    if let Some((i, m)) = o.bad {
                        errors.push(format!("run {i} failed only when repeated: {m}"));
                    }
                    for (i, h, _) in o.hashes {
                        let Some(was) = by.get(&i) else { continue };
                        rechecked += 1;
                        if *was != h {
                            diverged.push(i);
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);

    // --- violation: minimise, write the replay file, make sure it reproduces in a fresh process
    let mut exit = 0;
    let mut violations = 0;
    let mut first_bad = String::new();
    if let Some((idx, m)) = &all.bad {
        violations = 1;
        first_bad = m.clone();
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{prop}-{tier}-{seed}-{idx}.replay"));
        let bin = bin_of(*idx);
        let reproduces = |p: &Path| -> bool {
            (0..2).all(|_| Command::new(bin).arg("replay").arg(p).stdin(Stdio::null()).output().map_or(false, |o| o.status.code() == Some(1)))
        };
        let ok = Command::new(bin)
            .args(["minimise", prop, tier, &seed.to_string(), &idx.to_string(), profile_of(*idx)])
            .arg(&path)
            .env("PLCSIM_KNOWN", &known_env)
            .stdin(Stdio::null())
            .output()
            .map_or(false, |o| o.status.success())
            && reproduces(&path);
        if !ok {
            let s = format!(
                "# plcsim replay: bash /verif/check replay <this file>\nproperty {prop}\nprofile {}\n# {m}\nseedrun tier={tier} seed={seed} run={idx}\n",
                profile_of(*idx)
            );
            let _ = std::fs::write(&path, s);
            if !reproduces(&path) {
                errors.push(format!("run {idx} failed once and does not reproduce: {m}"));
            }
        }
        println!("run {idx} ({} build of the library): {m}", profile_of(*idx));
        if errors.iter().all(|e| !e.contains("does not reproduce")) {
            println!("VIOLATION property={prop} replay={}", path.display());
            exit = 1;
            errors.clear();
        }
    }
    for (i, (_, what)) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={prop} {what} (met {} times)", all.known[i]);
    }
    if !diverged.is_empty() {
        errors.push(format!("runs differ when repeated: {:?}", &diverged[..diverged.len().min(5)]));
    }
    if exit == 0 && !errors.is_empty() {
        for e in &errors {
            eprintln!("HARNESS ERROR {e}");
        }
        exit = 2;
    }

    // --- evidence
    let mut seen = HashSet::new();
    let distinct = all.hashes.iter().filter(|h| h.2 && seen.insert(h.1)).count();
    let traces: HashSet<u64> = all.hashes.iter().map(|h| h.1).collect();
    let faults: &[&str] = &[
        "scan_stall", "zero_time_scan", "pt_change", "cold_restart", "warm_restart", "relocated_by_restart", "torn_image", "torn_mid_call", "crash_after_call", "wall_step",
        "wall_step_inside_call", "mono_backward", "mono_forward_jump", "time_passed_inside_call", "heap_denied_allocations", "calls_cut_off",
        "calls_under_full_heap", "retained_value_restored", "preemption", "forced_yield", "frozen_mid_call", "refused_call",
        "garbage_destination", "interrupted_destination", "reused_destination", "shared_source", "address_reuse",
        "interrupt_on_same_stack", "instance_copied", "copied_to_another_process", "repeated_calls", "varied_calls", "heap_failed_in_call", "ended_by_heap_failure",
        "file_failure", "file_interrupted", "file_short_read", "file_early_end", "file_slow", "file_changed_inside_call", "zone_changed", "zone_damaged",
    ];
    let obj = |names: &mut dyn Iterator<Item = &str>| -> String {
        let v: Vec<String> =
            names.filter_map(|n| all.ctr.get(n).filter(|c| **c > 0).map(|c| format!("{}: {c}", json(n)))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let fault_obj = obj(&mut faults.iter().copied());
    let other_obj = obj(&mut stats::NAMES.iter().copied().filter(|n| !faults.contains(n)));
    let sample_idx = all.hashes.iter().filter(|h| h.2).map(|h| h.0).min().unwrap_or(0);
    let sample = Command::new(bin_of(sample_idx))
        .args(["dump", prop, &seed.to_string(), &sample_idx.to_string(), tier])
        .stdin(Stdio::null())
        .output()
        .map(|o| String::from_utf8_lossy(&o.stdout).into_owned())
        .unwrap_or_default();
    let lines: Vec<&str> = sample.lines().collect();
    let mut cut: Vec<String> = lines.iter().take(60).map(|l| l.chars().take(300).collect()).collect();
    if lines.len() > 60 {
        cut.push(format!("... {} more steps", lines.len() - 60));
    }
    let hours = search_s.max(0.001) / 3600.0;
    let (unit, what) = states_rule(prop);
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {p},\n \"tier\": {tier},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {runs},\n  \"distinct_nontrivial\": {distinct},\n  \"rule\": {rule},\n  \"samples\": [{sample}],\n  \
         \"simulated_runs\": {runs},\n  \"runs_per_hour\": {rph:.0},\n  \"seeds_per_hour\": {rph:.0},\n  \"steps\": {steps},\n  \
         \"simulated_seconds\": {sims},\n  \"distinct_traces\": {traces},\n  \"{unit}\": {states},\n  \"{unit}_measure\": {what},\n  \
         \"faults_injected\": {fault_obj},\n  \"observed\": {other_obj},\n  \"runs_repeated_for_determinism\": {rechecked},\n  \
         \"runs_that_differed_when_repeated\": {div},\n  \"builds\": \"even runs: dev profile (overflow checks, no optimisation); odd runs: release profile\",\n  \
         \"real_components\": {real},\n  \"stubbed_components\": {stub}\n }},\n \"assumptions\": {assume},\n \"wall_s\": {wall:.2},\n \"violations\": {violations}{viol}\n}}\n",
        p = json(prop),
        tier = json(tier),
        runs = all.runs,
        rule = json(&format!(
            "one evaluation = one simulated run: a workload, schedule and fault sequence drawn from mix(VERIF_SEED, property, run index), \
             executed in a process of its own and judged step by step against the reference model; non-trivial = at least one of [{}] \
             really happened in the run; distinct = the run's recorded history (schedule, clocks, inputs, outputs) hashes differently from all others",
            nontrivial(prop).join(", ")
        )),
        sample = cut.iter().map(|l| json(l)).collect::<Vec<_>>().join(", "),
        rph = all.runs as f64 / hours,
        steps = all.steps,
        sims = (all.sim / 1_000_000_000).min(u64::MAX as u128),
        traces = traces.len(),
        states = all.states.len(),
        what = json(what),
        div = diverged.len(),
        real = "[\"the whole iec61131std crate, compiled from /repo's working tree (dev and release)\", \"Rust std Instant/SystemTime/Duration, chrono, num\", \"glibc localtime/tzset\"]",
        stub = "[\"clocks, sleeping, futex waits and randomness (answered by the simulator)\", \"heap (real allocator, denied on demand)\", \"the file system (time-zone files only)\", \"PLC runtime: task scheduler, scan cycle, retained memory, process crash and restart\", \"the ST compiler (calls are made through the C ABI directly)\"]",
        assume = "[\"the caller of a function block is alone in using that instance\", \"preemption and crash points are before instrumented edges, loads and stores of the library's own code, not inside std\"]",
        viol = if violations > 0 { format!(",\n \"violation\": {}", json(&first_bad)) } else { String::new() },
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let f = root.join("evidence").join(format!("{prop}.json"));
    if std::fs::write(&f, ev).is_err() {
        eprintln!("cannot write {}", f.display());
        return if exit == 1 { 1 } else { 2 };
    }
    println!(
        "{prop} {tier}: {} runs, {} steps, {} distinct non-trivial, {} s simulated, {:.1} s, exit {exit}",
        all.runs,
        all.steps,
        distinct,
        all.sim / 1_000_000_000,
        wall
    );
    exit
}

fn states_rule(prop: &str) -> (&'static str, &'static str) {
    match crate::family(prop) {
        Some(crate::Family::Par) => (
            "distinct_interleavings",
            "distinct prefixes of the global schedule: which task was interrupted at which library event of which call, in order",
        ),
        Some(crate::Family::Heap) => ("distinct_situations", "distinct (function, how many allocations the call makes, which of them fail, outcome)"),
        Some(crate::Family::Buf) => ("distinct_situations", "distinct (function, previous content, way of interruption) combinations"),
        Some(crate::Family::Tz) => ("distinct_situations", "distinct (sequence of file operations so far, number of zones that may be in effect, intact or not, failures and changes in the call)"),
        _ if prop == "W01" => ("distinct_situations", "distinct (quarter hour of local day, zone offset around the call, clock motion during the call)"),
        _ => (
            "distinct_states",
            "distinct abstract situations: block kind, inputs, outputs, model state, magnitude classes of elapsed time and preset, distance to limits",
        ),
    }
}
