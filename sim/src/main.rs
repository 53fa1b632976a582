//! Deterministic simulation of ferrous-chloride. See /verif/DESIGN.md.
mod api;
mod cli;
mod conc;
mod ctx;
mod damage;
mod docp;
mod docv;
mod env;
mod evidence;
mod grammar;
mod index;
mod json;
mod load;
mod pairs;
mod props;
mod reader;
mod refuse;
mod run;
mod src;
mod text;
mod trees;
mod typed;
mod values;

use run::{minimise, Batch, End, Outcome};
use src::Src;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: env::Alloc = env::Alloc;

pub struct Args {
    pub pos: Vec<String>,
    opts: BTreeMap<String, String>,
}

impl Args {
    fn parse() -> Args {
        let mut a = Args { pos: Vec::new(), opts: BTreeMap::new() };
        let mut it = std::env::args().skip(1).peekable();
        while let Some(x) = it.next() {
            match x.strip_prefix("--") {
                Some(k) => {
                    let v = match it.peek() {
                        Some(n) if !n.starts_with("--") => it.next().unwrap(),
                        _ => "1".into(),
                    };
                    a.opts.insert(k.into(), v);
                }
                None => a.pos.push(x),
            }
        }
        a
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.opts.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    fn prop(&self) -> &'static str {
        match self.get("property").and_then(props::find) {
            Some(p) => p,
            None => die("--property C01..C15"),
        }
    }
}

fn die(m: &str) -> ! {
    eprintln!("sim: {}", m);
    std::process::exit(2)
}

/// Everything is kept under /verif, wherever that is
pub fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Memory shared with children, of `n` words
fn shared(path: &str, n: usize, create: bool) -> *mut u64 {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(create)
        .open(path)
        .unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    if create {
        f.set_len(n as u64 * 8).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
    }
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    if p == libc::MAP_FAILED {
        die("mmap");
    }
    p as *mut u64
}

fn child(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args);
    unsafe {
        c.pre_exec(|| {
            // a run that eats all memory must not take the sandbox with it
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

pub struct Scratch(pub String);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("sim-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| die(&format!("{}: {}", d.display(), e)));
        Scratch(d.to_string_lossy().into())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------------------------------------

/// How a run in a process of its own ended
enum ChildEnd {
    Held,
    Broken(String, String),
    Hang,
    Abort(i32),
    Harness(String),
}

struct One {
    end: ChildEnd,
    choices: Vec<u64>,
}

/// Execute one run in a child: by index, or by choices
fn one(prop: &str, args: &[(&str, String)], dir: &str, cpu: f64, thorough: bool) -> One {
    let log = format!("{}/choices", dir);
    let _ = std::fs::remove_file(&log);
    let p = shared(&log, src::MAX_DRAWS + 1, true);
    let res = format!("{}/result", dir);
    let _ = std::fs::remove_file(&res);
    let mut a = vec!["one".to_string(), "--property".into(), prop.into()];
    for (k, v) in args {
        a.push(format!("--{}", k));
        a.push(v.clone());
    }
    a.extend(["--log".into(), log, "--result".into(), res.clone(), "--cpu".into(), cpu.to_string()]);
    a.extend(["--dir".into(), format!("{}/one", dir)]);
    if thorough {
        a.push("--thorough".into());
    }
    let mut c = child(&a).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("{}", e)));
    let start = Instant::now();
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {
                if start.elapsed().as_secs_f64() > cpu * 4.0 + 30.0 {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            Err(e) => die(&format!("{}", e)),
        }
    };
    let choices = unsafe {
        let n = (p.read_volatile() as usize).min(src::MAX_DRAWS);
        (0..n).map(|i| p.add(i + 1).read_volatile()).collect()
    };
    unsafe { libc::munmap(p as *mut _, (src::MAX_DRAWS + 1) * 8) };
    let text = std::fs::read_to_string(&res).unwrap_or_default();
    let end = match status {
        None => ChildEnd::Hang,
        Some(s) => match (s.code(), s.signal()) {
            (Some(0), _) => ChildEnd::Held,
            (Some(1), _) => {
                let (a, b) = text.split_once('\n').unwrap_or(("?", ""));
                ChildEnd::Broken(a.into(), b.into())
            }
            (Some(3), _) => ChildEnd::Hang,
            (_, Some(n)) => ChildEnd::Abort(n),
            (c, _) => ChildEnd::Harness(format!("exit {:?}: {}", c, text)),
        },
    };
    One { end, choices }
}

fn choices_of(a: &Args, prop: &str) -> Src {
    if let Some(f) = a.get("choices") {
        let t = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
        Src::from_choices(t.split_whitespace().filter_map(|x| x.parse().ok()).collect())
    } else {
        Src::from_seed(run::seed_of(a.num("seed", 1), prop, a.num("run", 0)))
    }
}

fn cmd_one(a: &Args) -> ! {
    let prop = a.prop();
    let log = a.get("log").map(|l| shared(l, src::MAX_DRAWS + 1, false));
    if let Some(l) = log {
        src::log_choices(l);
    }
    let cpu = a.get("cpu").and_then(|x| x.parse().ok()).unwrap_or(run::RUN_CPU);
    let dir = a.get("dir").unwrap_or("/tmp/sim-one").to_string();
    let tracing = a.get("trace").is_some() || a.get("events").is_some();
    let o = run::exec_any(prop, choices_of(a, prop), tracing, &dir, a.get("thorough").is_some(), cpu);
    let (code, text) = match &o.end {
        End::Held => (0, String::new()),
        End::Broken(v) => (1, format!("{}\n{}", v.class, v.msg)),
        End::Hang => (3, String::new()),
        End::Harness(m) => (4, m.clone()),
    };
    if let (Some(l), "C09") = (log, prop) {
        // the run had a process, and a log, of its own
        for (i, c) in o.choices.iter().take(src::MAX_DRAWS).enumerate() {
            unsafe { l.add(i + 1).write_volatile(*c) };
        }
        unsafe { l.write_volatile(o.choices.len().min(src::MAX_DRAWS) as u64) };
    }
    if let Some(r) = a.get("result") {
        let _ = std::fs::write(r, &text);
    }
    if let Some(e) = a.get("events") {
        write_events(e, &o.st.trace);
    }
    if a.get("trace").is_some() {
        for l in &o.st.trace {
            println!("  {}", l);
        }
        println!("digest {:016x}", o.st.digest);
    }
    if a.get("result").is_none() {
        println!("{} {}", code, text);
    }
    std::process::exit(code)
}

// ---------------------------------------------------------------------------------------------

/// A violation, minimised, with its trace
struct Found {
    class: String,
    msg: String,
    choices: Vec<u64>,
    trace: Vec<String>,
    run: u64,
    original: usize,
    /// The run fails only after these runs before it, in one process
    after: Option<u64>,
}

fn write_replay(prop: &str, seed: u64, thorough: bool, f: &Found) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, prop, seed, f.run);
    let text = format!(
        "{{\"property\": {},\n \"class\": {},\n \"tier\": {},\n \"seed\": {},\n \"run\": {},\n \"after_runs_from\": [{}],\n \"original_choices\": {},\n \"choices\": [{}],\n \"message\": {},\n \"trace\": {}}}\n",
        json::str(prop),
        json::str(&f.class),
        json::str(if thorough { "thorough" } else { "quick" }),
        seed,
        f.run,
        f.after.map_or(String::new(), |x| x.to_string()),
        f.original,
        f.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        json::str(&f.msg),
        json::strs(&f.trace)
    );
    if let Err(e) = std::fs::write(&path, text) {
        eprintln!("sim: {}: {}", path, e);
    }
    path
}

fn same_class(prop: &'static str, class: &str, choices: &[u64], dir: &str, thorough: bool) -> bool {
    let o = run::exec_any(prop, Src::from_choices(choices.to_vec()), false, dir, thorough, 20.0);
    matches!(&o.end, End::Broken(v) if v.class == class)
}

/// Execute one run in a fresh process, with its event log
fn traced(prop: &'static str, choices: &[u64], dir: &str, thorough: bool) -> (Vec<String>, Option<(String, String)>) {
    let file = format!("{}/try", dir);
    let t: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
    let _ = std::fs::write(&file, t.join(" "));
    let events = format!("{}/events", dir);
    let _ = std::fs::remove_file(&events);
    let o = one(prop, &[("choices", file), ("events", events.clone())], dir, run::RUN_CPU, thorough);
    (read_events(&events), describe(&o.end))
}

/// Event logs may hold line breaks, so they are kept apart by a byte that no text has
fn read_events(path: &str) -> Vec<String> {
    let b = std::fs::read(path).unwrap_or_default();
    let mut v: Vec<String> = b.split(|x| *x == 0xff).map(|l| String::from_utf8_lossy(l).into_owned()).collect();
    v.pop();
    v
}

fn write_events(path: &str, trace: &[String]) {
    let mut b = Vec::new();
    for l in trace {
        b.extend_from_slice(l.as_bytes());
        b.push(0xff);
    }
    let _ = std::fs::write(path, b);
}

/// The runs `from..=to` one after another in one fresh process: the first that fails in class
fn series(prop: &str, seed: u64, from: u64, to: u64, dir: &str, cpu: f64, thorough: bool) -> Option<(u64, String, String, Vec<String>)> {
    let res = format!("{}/series", dir);
    let events = format!("{}/events", dir);
    let _ = std::fs::remove_file(&res);
    let _ = std::fs::remove_file(&events);
    let mut a = vec!["series".to_string(), "--property".into(), prop.into()];
    for (k, v) in &[("seed", seed), ("from", from), ("to", to)] {
        a.extend([format!("--{}", k), v.to_string()]);
    }
    a.extend(["--result".into(), res.clone(), "--events".into(), events.clone(), "--cpu".into(), cpu.to_string()]);
    a.extend(["--dir".into(), format!("{}/one", dir)]);
    if thorough {
        a.push("--thorough".into());
    }
    let mut c = child(&a).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| die(&format!("{}", e)));
    let start = Instant::now();
    let mut killed = false;
    let status = loop {
        match c.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => {
                if !killed && start.elapsed().as_secs_f64() > 60.0 + cpu * 4.0 {
                    let _ = c.kill();
                    killed = true;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(e) => die(&format!("{}", e)),
        }
    };
    let text = std::fs::read_to_string(&res).unwrap_or_default();
    let mut it = text.splitn(3, '\n');
    let at: u64 = it.next().and_then(|x| x.parse().ok())?;
    let class = it.next().unwrap_or("").to_string();
    let msg = it.next().unwrap_or("").to_string();
    match (status.code(), status.signal()) {
        (Some(1), _) => Some((at, class, msg, read_events(&events))),
        (Some(3), _) => Some((at, "hang".into(), "the call never returns".into(), Vec::new())),
        (_, Some(n)) if !killed => Some((at, "abort".into(), format!("the process dies with signal {}", n), Vec::new())),
        _ => None,
    }
}

/// A run that fails only after others in the same process: the shortest stretch of runs that shows it
fn serial(prop: &str, seed: u64, run: u64, class: &str, dir: &str, thorough: bool) -> Option<Found> {
    let cpu = if class == "hang" { 10.0 } else { run::RUN_CPU };
    let start = Instant::now();
    let mut back = 1;
    let (mut from, (at, class, msg, mut trace)) = loop {
        let from = run.saturating_sub(back);
        // other workers were some runs ahead
        let to = if from == 0 { run + run / 4 + 64 } else { run };
        if let Some(x) = series(prop, seed, from, to, dir, cpu, thorough) {
            break (from, x);
        }
        if from == 0 || start.elapsed().as_secs() > 200 {
            return None;
        }
        back *= 4;
    };
    // as short a stretch as a bisection finds
    let (mut lo, mut hi) = (from, at);
    while lo + 1 < hi && start.elapsed().as_secs() < 240 {
        let mid = (lo + hi) / 2;
        match series(prop, seed, mid, at, dir, cpu, thorough) {
            Some((a, c, _, t)) if a == at && c == class => {
                lo = mid;
                from = mid;
                trace = t;
            }
            _ => hi = mid,
        }
    }
    let msg = format!("{} (after runs {} to {} in the same process)", msg, from, at.saturating_sub(1));
    Some(Found { class, msg, choices: vec![], trace, run: at, original: 0, after: Some(from) })
}

/// The `series` child
fn cmd_series(a: &Args) -> ! {
    let prop = a.prop();
    let dir = a.get("dir").unwrap_or("/tmp/sim-one").to_string();
    let cpu = a.get("cpu").and_then(|x| x.parse().ok()).unwrap_or(run::RUN_CPU);
    let (seed, from, to) = (a.num("seed", 1), a.num("from", 0), a.num("to", 0));
    let res = a.get("result").unwrap_or("/dev/null").to_string();
    for i in from..=to {
        let _ = std::fs::write(&res, format!("{}\n", i));
        let src = Src::from_seed(run::seed_of(seed, prop, i));
        let o = run::exec_any(prop, src, true, &dir, a.get("thorough").is_some(), cpu);
        let (code, class, msg) = match o.end {
            End::Held => continue,
            End::Broken(v) => (1, v.class.to_string(), v.msg),
            End::Hang => (3, "hang".to_string(), String::new()),
            End::Harness(m) => (4, String::new(), m),
        };
        let _ = std::fs::write(&res, format!("{}\n{}\n{}", i, class, msg));
        if let Some(e) = a.get("events") {
            write_events(e, &o.st.trace);
        }
        std::process::exit(code)
    }
    std::process::exit(0)
}

/// The `batch` child: many runs; prints the verdict and writes the evidence
fn cmd_batch(a: &Args) -> ! {
    let prop = a.prop();
    let seed = a.num("seed", 1);
    let thorough = a.get("tier") == Some("thorough");
    let (runs, secs) = evidence::budget(prop, thorough);
    let runs = a.num("runs", runs);
    let secs = a.num("secs", secs) as f64;
    let dir = a.get("dir").unwrap_or("/tmp/sim-batch").to_string();
    let workers = a.num("workers", 8) as usize;
    let start = Instant::now();
    let slots = a.get("slots").map(|p| shared(p, 64, false) as usize);
    let t = run::batch(Batch { prop, seed, runs, secs, workers, trace: false, dir: dir.clone(), thorough, slots });
    if let Some((i, m)) = &t.harness {
        eprintln!("sim: the simulator failed in run {}: {}", i, m);
        std::process::exit(4);
    }
    if t.hang.is_some() && t.broken.is_none() {
        // the parent isolates it
        std::process::exit(3);
    }
    let found = t.broken.clone().map(|(run, v, choices)| {
        let d = format!("{}/min", dir);
        let budget = if v.class == "blocked" { 30.0 } else { 20.0 };
        let original = choices.len();
        let file = format!("{}/try", dir);
        // in a process of its own: does it fail there as well?
        let alone = |c: &[u64]| {
            let t: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            let _ = std::fs::write(&file, t.join(" "));
            let o = one(prop, &[("choices", file.clone())], &dir, 20.0, thorough);
            matches!(describe(&o.end), Some((c, _)) if c == v.class)
        };
        let mut small = minimise(choices.clone(), budget, |c| same_class(prop, v.class, c, &d, thorough));
        if !alone(&small) {
            if alone(&choices) {
                small = minimise(choices.clone(), budget, alone);
            } else if let Some(f) = serial(prop, seed, run, v.class, &dir, thorough) {
                return f;
            } else {
                small = choices.clone();
            }
        }
        let (trace, shown) = traced(prop, &small, &dir, thorough);
        let (class, msg) = match shown {
            Some(x) => x,
            None => (v.class.to_string(), format!("{} (did not show again when replayed)", v.msg)),
        };
        Found { class, msg, choices: small, trace, run, original, after: None }
    });
    // the same runs again, traced, in another order: any difference is the simulator's fault
    let again = if found.is_none() { evidence::repeat(prop, seed, &dir, thorough, t.runs) } else { (0, 0) };
    let mut bad = 0;
    if let Some(f) = &found {
        bad = 1;
        report(prop, seed, thorough, f);
    }
    let known = evidence::known(prop);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    evidence::write(prop, seed, thorough, workers, &t, again, start.elapsed().as_secs_f64(), bad);
    println!(
        "{} {} runs, {} distinct non-trivial, {:.1} s, {}",
        prop,
        t.runs,
        t.sigs.len(),
        t.wall,
        if bad > 0 { "violated" } else { "held" }
    );
    std::process::exit(if bad > 0 { 1 } else { 0 })
}

fn report(prop: &str, seed: u64, thorough: bool, f: &Found) {
    let path = write_replay(prop, seed, thorough, f);
    println!("{}: {}: {}", prop, f.class, f.msg);
    println!("seed {} run {}, {} choices minimised to {}", seed, f.run, f.original, f.choices.len());
    for l in f.trace.iter().take(40) {
        println!("  {}", api::cut(l, 400));
    }
    println!("VIOLATION property={} replay={}", prop, path);
}

fn cmd_check(a: &Args) -> ! {
    let scratch = Scratch::new();
    let code = check(a, &scratch.0);
    drop(scratch);
    std::process::exit(code)
}

fn check(a: &Args, dir: &str) -> i32 {
    let prop = a.prop();
    let seed = a.num("seed", 1);
    let thorough = a.get("tier") == Some("thorough");
    let start = Instant::now();
    if prop == "C05" {
        if let Some(m) = evidence::deep_unlisted() {
            let f = Found { class: "abort".into(), msg: m, choices: vec![], trace: vec![], run: 0, original: 0, after: None };
            report(prop, seed, thorough, &f);
            evidence::write_bare(prop, seed, thorough, 1, &f.msg, start.elapsed().as_secs_f64(), 1);
            return 1;
        }
    }
    let slots = format!("{}/slots", dir);
    let p = shared(&slots, 64, true);
    let mut args: Vec<String> = vec!["batch".into()];
    for (k, v) in &a.opts {
        args.push(format!("--{}", k));
        args.push(v.clone());
    }
    args.extend(["--slots".into(), slots, "--dir".into(), dir.to_string()]);
    let mut tries = 0;
    loop {
        tries += 1;
        let st = child(&args).status().unwrap_or_else(|e| die(&format!("{}", e)));
        match (st.code(), st.signal()) {
            (Some(c @ (0 | 1)), _) => return c,
            (Some(3), _) | (_, Some(_)) => {}
            (c, _) => return c.unwrap_or(2),
        }
        // the batch died or hangs: find the run that does it
        let mut who: Vec<u64> =
            (0..64).map(|i| unsafe { p.add(i).read_volatile() }).filter(|x| *x > 0).map(|x| x - 1).collect();
        who.sort();
        for i in 0..64 {
            unsafe { p.add(i).write_volatile(0) };
        }
        println!("{}: the simulation ended with {:?}; isolating runs {:?}", prop, st, who);
        for i in who.iter().copied() {
            let o = one(prop, &[("seed", seed.to_string()), ("run", i.to_string())], dir, run::RUN_CPU, thorough);
            let (class, msg) = match describe(&o.end) {
                Some(x) => x,
                None => continue,
            };
            let file = format!("{}/try", dir);
            let hang = class == "hang";
            // the fuse for hangs is short while minimising; the final one is confirmed at length
            let mut left = if hang { 8 } else { 2000 };
            let small = minimise(o.choices.clone(), 60.0, |c| {
                if left == 0 {
                    return false;
                }
                left -= 1;
                let t: Vec<String> = c.iter().map(|x| x.to_string()).collect();
                let _ = std::fs::write(&file, t.join(" "));
                let o = one(prop, &[("choices", file.clone())], dir, 10.0, thorough);
                matches!(describe(&o.end), Some((c, _)) if c == class)
            });
            let t: Vec<String> = small.iter().map(|x| x.to_string()).collect();
            let _ = std::fs::write(&file, t.join(" "));
            let last = one(prop, &[("choices", file.clone())], dir, run::RUN_CPU, thorough);
            let (choices, msg) = match describe(&last.end) {
                Some((c, m)) if c == class => (small, m),
                _ => (o.choices.clone(), msg),
            };
            let f = Found { class, msg, choices, trace: vec![], run: i, original: o.choices.len(), after: None };
            report(prop, seed, thorough, &f);
            evidence::write_bare(prop, seed, thorough, i + 1, &f.msg, start.elapsed().as_secs_f64(), 1);
            return 1;
        }
        // none does it alone: then only after others, in the same process
        for i in &who {
            if let Some(f) = serial(prop, seed, *i, "hang", dir, thorough) {
                report(prop, seed, thorough, &f);
                evidence::write_bare(prop, seed, thorough, i + 1, &f.msg, start.elapsed().as_secs_f64(), 1);
                return 1;
            }
        }
        if tries >= 2 {
            eprintln!("sim: {} ends with {:?} but no single run does", prop, st);
            return 2;
        }
    }
}

fn describe(e: &ChildEnd) -> Option<(String, String)> {
    match e {
        ChildEnd::Held | ChildEnd::Harness(_) => None,
        ChildEnd::Broken(c, m) => Some((c.clone(), m.clone())),
        ChildEnd::Hang => Some(("hang".into(), "the call never returns".into())),
        ChildEnd::Abort(n) => Some(("abort".into(), format!("the process dies with signal {}", n))),
    }
}

fn cmd_replay(a: &Args) -> ! {
    let f = a.pos.get(1).unwrap_or_else(|| die("replay FILE"));
    let t = std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{}: {}", f, e)));
    let prop = json::get_str(&t, "property").and_then(|p| props::find(&p)).unwrap_or_else(|| die("no property in it"));
    let class = json::get_str(&t, "class").unwrap_or_default();
    let choices = json::get_nums(&t, "choices").unwrap_or_else(|| die("no choices in it"));
    let thorough = json::get_str(&t, "tier").as_deref() == Some("thorough");
    let scratch = Scratch::new();
    let code = if prop == "C05" && choices.is_empty() && class == "abort" {
        match evidence::deep_dies() {
            Some(m) => {
                println!("{}: {}", prop, m);
                1
            }
            None => 0,
        }
    } else if let Some(from) = json::get_nums(&t, "after_runs_from").and_then(|v| v.first().copied()) {
        let run = json::get_num(&t, "run").unwrap_or(0);
        let seed = json::get_num(&t, "seed").unwrap_or(1);
        match series(prop, seed, from, run, &scratch.0, run::RUN_CPU, thorough) {
            Some((at, c, m, trace)) => {
                for l in &trace {
                    println!("  {}", l);
                }
                println!("{}: {}: {} (run {} after runs from {})", prop, c, m, at, from);
                let recorded = format!("\"trace\": {}}}", json::strs(&trace));
                println!("trace {} the recorded one", if t.contains(&recorded) { "is exactly" } else { "differs from" });
                (c == class && at == run) as i32
            }
            None => 0,
        }
    } else if class == "abort" || class == "hang" {
        let file = format!("{}/try", scratch.0);
        let s: Vec<String> = choices.iter().map(|x| x.to_string()).collect();
        let _ = std::fs::write(&file, s.join(" "));
        let o = one(prop, &[("choices", file)], &scratch.0, run::RUN_CPU, thorough);
        match describe(&o.end) {
            Some((c, m)) => {
                println!("{}: {}: {}", prop, c, m);
                (c == class) as i32
            }
            None => 0,
        }
    } else {
        let Outcome { end, st, .. } = run::exec_any(prop, Src::from_choices(choices), true, &scratch.0, thorough, run::RUN_CPU);
        for l in &st.trace {
            println!("  {}", l);
        }
        let recorded = format!("\"trace\": {}}}", json::strs(&st.trace));
        match end {
            End::Broken(v) => {
                println!("{}: {}: {}", prop, v.class, v.msg);
                println!("trace {} the recorded one", if t.contains(&recorded) { "is exactly" } else { "differs from" });
                (v.class == class) as i32
            }
            _ => 0,
        }
    };
    if code == 1 {
        println!("VIOLATION property={} replay={}", prop, f);
    } else {
        println!("not reproduced on this tree");
    }
    drop(scratch);
    std::process::exit(code)
}

/// One line per run: what it did, in one number. Equal across processes and worker counts.
fn cmd_digest(a: &Args) -> ! {
    let prop = a.prop();
    let scratch = Scratch::new();
    let workers = a.num("workers", 8) as usize;
    let (from, to) = (a.num("from", 0), a.num("to", 100));
    let lines = evidence::digests(prop, a.num("seed", 1), from, to, workers, &scratch.0, a.get("tier") == Some("thorough"));
    for (i, d) in lines {
        println!("{} {} {:016x}", prop, i, d);
    }
    drop(scratch);
    std::process::exit(0)
}

fn main() {
    env::init();
    let a = Args::parse();
    match a.pos.first().map(|s| s.as_str()) {
        Some("check") => cmd_check(&a),
        Some("batch") => cmd_batch(&a),
        Some("one") => cmd_one(&a),
        Some("series") => cmd_series(&a),
        Some("replay") => cmd_replay(&a),
        Some("digest") => cmd_digest(&a),
        Some("deep") => evidence::cmd_deep(&a),
        _ => die("check | replay | digest"),
    }
}
