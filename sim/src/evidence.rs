//! Budgets, the evidence file, the determinism self-check and the known finding
use crate::json;
use crate::run::{exec_any, seed_of, End, Total, RUN_CPU};
use crate::src::{hash_bytes, mix, Src};
use crate::{child, root, Args};
use std::process::Stdio;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Runs and seconds
pub fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = match prop {
        "C01" => 250_000,
        "C02" => 250_000,
        "C03" => 100_000,
        "C04" => 250_000,
        "C05" => 200_000,
        "C06" => 200_000,
        "C07" => 300_000,
        "C08" => 200_000,
        "C09" => 60_000,
        "C13" => 300_000,
        "C14" => 300_000,
        "C15" => 300_000,
        "C10" => 25_000,
        "C11" => 60_000,
        _ => 18_000,
    };
    if thorough {
        (quick * 1000, 720)
    } else {
        (quick, 240)
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one seed draws a document with its meaning, 1-3 deliveries (piece sizes, interruptions, reader wrapping); non-trivial: the document has elements and some delivery cuts or interrupts it; distinct: by document shape and deliveries",
        "C02" => "one seed draws a document of the value grammar with its meaning and 1-3 deliveries; non-trivial: it has entries and some delivery cuts or interrupts it; distinct: by document shape and deliveries",
        "C03" => "one seed draws a document with repeating keys, hash seeds, a delivery and a history of merge / as_merged / unmerge / as_unmerged / as_owned; non-trivial: more than one entry; distinct: by document shape, delivery and history",
        "C04" => "one seed draws 1-2 documents and 1-5 reads, each good or failing at a drawn byte with a drawn error or panic; non-trivial: at least one failing read of non-empty bytes; distinct: by lengths, deliveries and failures",
        "C05" => "one seed draws a document or a stress text, damages or cuts it and gives it to every entry point; non-trivial: bytes are left; distinct: by the damaged bytes",
        "C06" => "one seed draws a pool of blocks and a history over the block index under drawn hash seeds, some sources panicking; non-trivial: see index.rs (the history reads after writing); distinct: by the history",
        "C07" => "one seed draws a history over both variants of the collection under drawn hash seeds, some sources panicking; non-trivial: the history reads after writing; distinct: by the history",
        "C08" => "one seed draws a document, a receiving type that may fail, stop or panic, and loads it under drawn hash seeds; non-trivial: the document has elements; distinct: by document shape and type",
        "C09" => "one seed draws 2-4 threads of calls with their documents, streams, stalls, failures and nested calls, and the schedule over their yield points; non-trivial: at least two threads were really interleaved; distinct: by the sequence of (thread, yield kind)",
        "C13" => "one seed draws a value and a history of building, inspecting, editing in place, taking apart, merging and copying it, some sources panicking; non-trivial: more than one scalar or more than three steps; distinct: by the history and the value it ends with",
        "C14" => "one seed draws a syntax tree and a history of editing, copying, taking apart and comparing it, some sources panicking; non-trivial: it has elements; distinct: by the history and the tree it ends with",
        "C15" => "one seed draws a document of either grammar and breaks it so that it cannot be one: cuts it where something is open, loses, adds or changes a token, puts in a value or element that is none; non-trivial: the stream cuts or interrupts it; distinct: by text and delivery",
        "C10" => "one seed draws a document, the wiring of the command and the transfer faults of each of its system calls; non-trivial: at least one fault fired or both ends are files; distinct: by document shape, wiring and fired faults",
        "C11" => "one seed draws a document, the wiring of the command and one or more failing system calls (or damage to the input); non-trivial: a failure fired; distinct: by wiring and fired faults",
        _ => "one seed draws a document, the wiring and the system call, and place in it, at which the command is killed; non-trivial: the kill fired; distinct: by wiring, fired faults and kill point",
    }
}

fn components(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C10" | "C11" | "C12" => (
            "the fecl binary built from /repo's working tree with everything it links, on real files, pipes and standard streams",
            "open/read/write outcomes decided by the simulator's libc interposer (short transfers, EINTR, errors, kills), getrandom seeded",
        ),
        "C09" => (
            "the whole ferrous-chloride library on real threads, real std hash maps, real serde",
            "which thread runs (baton), the streams, the log receiver, getrandom, the receiving types",
        ),
        _ => (
            "the whole ferrous-chloride library with nom, serde and std's hash maps",
            "the byte streams, getrandom (hash seeds), the log receiver, iterators and receiving types handed to it",
        ),
    }
}

pub fn known_lines(prop: &str) -> Vec<String> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    let k = format!("finding: property={} ", prop);
    t.lines().filter_map(|l| l.strip_prefix(&k)).map(|s| s.to_string()).collect()
}

/// The listed findings that show on this tree
pub fn known(prop: &str) -> Vec<String> {
    known_lines(prop).into_iter().filter(|l| !l.starts_with("deep-nesting") || deep_dies().is_some()).collect()
}

const DEEP: usize = 100_000;

fn deep_text(shape: u64) -> String {
    let n = DEEP;
    match shape {
        0 => format!("x = {}1{}", "[".repeat(n), "]".repeat(n)),
        1 => format!("x = {}1{}", "(".repeat(n), ")".repeat(n)),
        2 => format!("{}{}", "a {\n".repeat(n), "}\n".repeat(n)),
        _ => format!("x = {}1{}", "{ a = ".repeat(n), "}".repeat(n)),
    }
}

pub fn cmd_deep(a: &Args) -> ! {
    let t = deep_text(a.num("shape", 0));
    // an ordinary thread with an ordinary stack
    let ok = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let a = crate::api::tree_str(&t).is_ok();
            a && crate::api::values_str(&t, None).is_ok()
        })
        .unwrap()
        .join();
    std::process::exit(if let Ok(true) = ok { 0 } else { 1 })
}

/// Does very deep nesting kill the process?
pub fn deep_dies() -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    for shape in 0..4u64 {
        let st = child(&["deep".into(), "--shape".into(), shape.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .ok()?;
        if let Some(s) = st.signal() {
            return Some(format!("{} nested levels (shape {}) on a 2 MB stack end the process with signal {}", DEEP, shape, s));
        }
    }
    None
}

/// As `deep_dies`, when nobody has written it down
pub fn deep_unlisted() -> Option<String> {
    if known_lines("C05").iter().any(|l| l.starts_with("deep-nesting")) {
        None
    } else {
        deep_dies()
    }
}

// ---------------------------------------------------------------------------------------------

fn run_digest(prop: &'static str, seed: u64, i: u64, dir: &str, thorough: bool) -> u64 {
    let o = exec_any(prop, Src::from_seed(seed_of(seed, prop, i)), true, dir, thorough, RUN_CPU);
    let mut d = mix(o.st.digest ^ mix(o.st.sig) ^ mix(o.st.ticks));
    for c in &o.choices {
        d = mix(d ^ c);
    }
    if let End::Broken(v) = &o.end {
        d = hash_bytes(d, v.msg.as_bytes());
    }
    d
}

pub fn digests(prop: &'static str, seed: u64, from: u64, to: u64, workers: usize, dir: &str, thorough: bool) -> Vec<(u64, u64)> {
    let next = Arc::new(AtomicU64::new(from));
    let all = Arc::new(Mutex::new(Vec::new()));
    let mut hs = Vec::new();
    for w in 0..workers {
        let (next, all) = (next.clone(), all.clone());
        let dir = format!("{}/d{}", dir, w);
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= to {
                break;
            }
            let d = run_digest(prop, seed, i, &dir, thorough);
            all.lock().unwrap().push((i, d));
        }));
    }
    hs.into_iter().for_each(|h| h.join().unwrap());
    let mut v = all.lock().unwrap().clone();
    v.sort();
    v
}

/// The first runs again, traced, on different worker counts: (compared, different)
pub fn repeat(prop: &'static str, seed: u64, dir: &str, thorough: bool, ran: u64) -> (u64, u64) {
    let n = ran.min(if thorough { 400 } else { 100 });
    let a = digests(prop, seed, 0, n, 3, dir, thorough);
    let b = digests(prop, seed, 0, n, 8, dir, thorough);
    let diff = a.iter().zip(&b).filter(|(x, y)| x != y).count() as u64;
    (n, diff)
}

fn file(prop: &str) -> String {
    let d = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&d);
    format!("{}/{}.json", d, prop)
}

fn head(prop: &str, seed: u64, thorough: bool) -> String {
    format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n",
        json::str(prop),
        json::str(if thorough { "thorough" } else { "quick" }),
        seed
    )
}

#[allow(clippy::too_many_arguments)]
pub fn write(prop: &str, seed: u64, thorough: bool, workers: usize, t: &Total, again: (u64, u64), wall: f64, violations: u32) {
    let group = |p: &str| -> String {
        let v: Vec<String> = t
            .counters
            .iter()
            .filter_map(|(k, v)| k.strip_prefix(p).map(|k| format!("{}: {}", json::str(k), v)))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let other: Vec<String> = t
        .counters
        .iter()
        .filter(|(k, _)| !k.starts_with("fault: ") && !k.starts_with("max: "))
        .map(|(k, v)| format!("{}: {}", json::str(k), v))
        .collect();
    let step = (t.samples.len() / 5).max(1);
    let samples: Vec<String> = t
        .samples
        .iter()
        .step_by(step)
        .take(5)
        .map(|(i, s)| format!("seed {} run {}: {}", seed, i, crate::api::cut(s, 600)))
        .collect();
    let (real, stub) = components(prop);
    let rate = if t.wall > 0.0 { t.runs as f64 / t.wall * 3600.0 } else { 0.0 };
    let text = format!(
        "{}\"coverage\": {{\n \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"nontrivial_runs\": {},\n \"rule\": {},\n \"samples\": {},\n \"runs_per_hour\": {:.0},\n \"seeds_per_hour\": {:.0},\n \"workers\": {},\n \"simulated_time_steps\": {},\n \"simulated_time_unit\": \"one step per seam event: a read or write call, a yield point, an operation of the history\",\n \"faults_fired\": {},\n \"maxima\": {},\n \"reached\": {{{}}},\n \"determinism\": {{\"runs_repeated_on_3_and_8_workers\": {}, \"event_logs_that_differ\": {}}},\n \"real_components\": {},\n \"stubbed_components\": {}\n }},\n\"assumptions\": {},\n\"wall_s\": {:.1}, \"violations\": {}}}\n",
        head(prop, seed, thorough),
        t.runs,
        t.sigs.len(),
        t.nontrivial,
        json::str(rule(prop)),
        json::strs(&samples),
        rate,
        rate,
        workers,
        t.ticks,
        group("fault: "),
        group("max: "),
        other.join(", "),
        again.0,
        again.1,
        json::str(real),
        json::str(stub),
        json::strs(&[
            "the generator's own account of what a document means is right".to_string(),
            "seeded search: what no explored seed reaches is not decided".to_string(),
        ]),
        wall,
        violations
    );
    if let Err(e) = std::fs::write(file(prop), text) {
        eprintln!("sim: {}", e);
    }
}

pub fn write_bare(prop: &str, seed: u64, thorough: bool, runs: u64, sample: &str, wall: f64, violations: u32) {
    let text = format!(
        "{}\"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": {}}}, \"wall_s\": {:.1}, \"violations\": {}}}\n",
        head(prop, seed, thorough),
        runs,
        runs,
        json::str(rule(prop)),
        json::strs(&[sample.to_string()]),
        wall,
        violations
    );
    if let Err(e) = std::fs::write(file(prop), text) {
        eprintln!("sim: {}", e);
    }
}
