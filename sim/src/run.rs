//! Executing runs: one fresh thread per run, many runs in parallel, lowest failing run reported
use crate::ctx::{Ctx, St, V};
use crate::env;
use crate::props;
use crate::src::{hash_bytes, mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const STACK: usize = 256 << 20;

/// CPU seconds a run may take before it counts as hanging (a run normally takes milliseconds)
pub const RUN_CPU: f64 = 60.0;
pub const RUN_WALL: u64 = 300;

pub enum End {
    Held,
    Broken(V),
    /// The run thread never came back
    Hang,
    /// The simulator itself failed
    Harness(String),
}

pub struct Outcome {
    pub end: End,
    pub st: St,
    pub choices: Vec<u64>,
}

extern "C" {
    fn pthread_getcpuclockid(thread: libc::pthread_t, clock: *mut libc::clockid_t) -> i32;
}

fn cpu_of(clock: libc::clockid_t) -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 {
        return 0.0;
    }
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

pub fn seed_of(seed: u64, prop: &str, i: u64) -> u64 {
    mix(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(i))
}

/// Run `prop` once with the given choices
pub fn exec(prop: &'static str, src: Src, trace: bool, dir: &str, thorough: bool, cpu: f64) -> Outcome {
    let ctx = Ctx::new(src, trace, dir.to_string(), thorough);
    let (tx, rx) = channel();
    let c = ctx.clone();
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut clock: libc::clockid_t = 0;
            unsafe { pthread_getcpuclockid(libc::pthread_self(), &mut clock) };
            let _ = tx.send(Err(clock));
            env::set_hash_seed(c.s.below(1 << 16));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(prop, &c)));
            let end = match r {
                Ok(Ok(())) => End::Held,
                Ok(Err(v)) => End::Broken(v),
                Err(_) => {
                    let m = env::take_last_panic().unwrap_or_default();
                    let at = m.rsplit(" at ").next().unwrap_or("").to_string();
                    if at.starts_with("src/") {
                        End::Harness(m)
                    } else {
                        End::Broken(V { class: "panic", msg: format!("panic: {}", m) })
                    }
                }
            };
            let _ = tx.send(Ok(end));
        })
        .expect("run thread");
    let start = Instant::now();
    let mut clock = None;
    let end = loop {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Err(c)) => clock = Some(c),
            Ok(Ok(end)) => {
                let _ = h.join();
                break end;
            }
            Err(RecvTimeoutError::Timeout) => {
                let used = clock.map_or(0.0, cpu_of);
                if used > cpu || start.elapsed().as_secs() > RUN_WALL {
                    break End::Hang;
                }
            }
            Err(RecvTimeoutError::Disconnected) => break End::Harness("run thread vanished".into()),
        }
    };
    let choices = ctx.s.choices();
    let st = ctx.with(std::mem::take);
    Outcome { end, st, choices }
}

/// Run `prop` in whatever way keeps runs from influencing each other: threads of one run share
/// the process's statics, so those runs get a process each
pub fn exec_any(prop: &'static str, src: Src, trace: bool, dir: &str, thorough: bool, cpu: f64) -> Outcome {
    if prop == "C09" {
        exec_forked(prop, src, trace, dir, thorough, cpu)
    } else {
        exec(prop, src, trace, dir, thorough, cpu)
    }
}

struct Region(*mut u8, usize);
impl Region {
    fn new(n: usize) -> Region {
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                n,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Region(p as *mut u8, n)
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut _, self.1) };
    }
}

/// A growing message in a region; what does not fit is left out
struct Msg<'r>(&'r Region, usize);
impl<'r> Msg<'r> {
    fn num(&mut self, v: u64) {
        if self.1 + 8 <= self.0 .1 {
            unsafe { std::ptr::copy_nonoverlapping(v.to_le_bytes().as_ptr(), self.0 .0.add(self.1), 8) };
            self.1 += 8;
        }
    }
    fn text(&mut self, t: &str) {
        let room = self.0 .1.saturating_sub(self.1 + 16);
        let mut n = t.len().min(room).min(100_000);
        while !t.is_char_boundary(n) {
            n -= 1;
        }
        self.num(n as u64);
        unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), self.0 .0.add(self.1), n) };
        self.1 += n;
    }
    fn get_num(&mut self) -> u64 {
        let mut b = [0u8; 8];
        if self.1 + 8 <= self.0 .1 {
            unsafe { std::ptr::copy_nonoverlapping(self.0 .0.add(self.1), b.as_mut_ptr(), 8) };
            self.1 += 8;
        }
        u64::from_le_bytes(b)
    }
    fn get_text(&mut self) -> String {
        let n = self.get_num() as usize;
        if self.1 + n > self.0 .1 {
            return String::new();
        }
        let b = unsafe { std::slice::from_raw_parts(self.0 .0.add(self.1), n) };
        self.1 += n;
        String::from_utf8_lossy(b).into_owned()
    }
}

fn intern(s: &str) -> &'static str {
    static SEEN: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());
    let mut a = SEEN.lock().unwrap_or_else(|p| p.into_inner());
    if let Some(x) = a.iter().find(|x| **x == s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    a.push(l);
    l
}

const DONE: u64 = 0x444f_4e45;

/// Run `prop` once in a process of its own
fn exec_forked(prop: &'static str, src: Src, trace: bool, dir: &str, thorough: bool, cpu: f64) -> Outcome {
    let log = Region::new((crate::src::MAX_DRAWS + 1) * 8);
    let res = Region::new(16 << 20);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: cpu as u64 + 1, rlim_max: cpu as u64 + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        crate::src::log_choices(log.0 as *mut u64);
        let o = exec(prop, src, trace, dir, thorough, cpu);
        let mut m = Msg(&res, 8);
        let (k, class, msg) = match &o.end {
            End::Held => (0, "", String::new()),
            End::Broken(v) => (1, v.class, v.msg.clone()),
            End::Hang => (2, "", String::new()),
            End::Harness(h) => (3, "", h.clone()),
        };
        m.num(k);
        m.text(class);
        m.text(&msg);
        m.num(o.st.ticks);
        m.num(o.st.sig);
        m.num(o.st.digest);
        m.num(o.st.nontrivial as u64);
        m.text(o.st.sample.as_deref().unwrap_or(""));
        m.num(o.st.counters.len() as u64);
        for (k, v) in &o.st.counters {
            m.text(k);
            m.num(*v);
        }
        m.num(o.st.trace.len() as u64);
        for l in &o.st.trace {
            m.text(l);
        }
        Msg(&res, 0).num(DONE);
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {
        if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            break;
        }
    }
    let choices = unsafe {
        let p = log.0 as *const u64;
        let n = (p.read_volatile() as usize).min(crate::src::MAX_DRAWS);
        (0..n).map(|i| p.add(i + 1).read_volatile()).collect()
    };
    let mut m = Msg(&res, 0);
    let mut st = St::default();
    if m.get_num() != DONE {
        let (sig, signaled) = unsafe { (libc::WTERMSIG(status), libc::WIFSIGNALED(status)) };
        let end = if signaled && (sig == libc::SIGXCPU || sig == libc::SIGKILL) {
            End::Hang
        } else if signaled {
            End::Broken(V { class: "abort", msg: format!("the process dies with signal {}", sig) })
        } else {
            End::Harness(format!("the run's process ended with status {}", status))
        };
        return Outcome { end, st, choices };
    }
    let k = m.get_num();
    let class = m.get_text();
    let msg = m.get_text();
    st.ticks = m.get_num();
    st.sig = m.get_num();
    st.digest = m.get_num();
    st.nontrivial = m.get_num() > 0;
    st.sample = Some(m.get_text());
    for _ in 0..m.get_num() {
        let k = intern(&m.get_text());
        st.counters.insert(k, m.get_num());
    }
    for _ in 0..m.get_num() {
        st.trace.push(m.get_text());
    }
    let end = match k {
        0 => End::Held,
        1 => End::Broken(V { class: intern(&class), msg }),
        2 => End::Hang,
        _ => End::Harness(msg),
    };
    Outcome { end, st, choices }
}

#[derive(Default)]
pub struct Total {
    pub runs: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub ticks: u64,
    pub nontrivial: u64,
    pub sigs: HashSet<u64>,
    pub digest: u64,
    pub samples: Vec<(u64, String)>,
    pub broken: Option<(u64, V, Vec<u64>)>,
    pub hang: Option<(u64, Vec<u64>)>,
    pub harness: Option<(u64, String)>,
    pub wall: f64,
}

pub struct Batch {
    pub prop: &'static str,
    pub seed: u64,
    pub runs: u64,
    pub secs: f64,
    pub workers: usize,
    pub trace: bool,
    pub dir: String,
    pub thorough: bool,
    /// Where the index of the run each worker is at is kept, for whoever has to explain our death
    pub slots: Option<usize>,
}

pub fn batch(b: Batch) -> Total {
    let b = Arc::new(b);
    let next = Arc::new(AtomicU64::new(0));
    let stop_at = Arc::new(AtomicU64::new(u64::MAX));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total::default()));
    let start = Instant::now();
    let mut hs = Vec::new();
    for w in 0..b.workers {
        let (b, next, stop_at, stop, total) = (b.clone(), next.clone(), stop_at.clone(), stop.clone(), total.clone());
        hs.push(std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= b.runs
                || i > stop_at.load(Ordering::SeqCst)
                || stop.load(Ordering::SeqCst)
                || start.elapsed().as_secs_f64() > b.secs
            {
                break;
            }
            if let Some(p) = b.slots {
                unsafe { std::ptr::write_volatile((p as *mut u64).add(w), i + 1) };
            }
            let dir = format!("{}/w{}", b.dir, w);
            let o = exec_any(b.prop, Src::from_seed(seed_of(b.seed, b.prop, i)), b.trace, &dir, b.thorough, RUN_CPU);
            // a run that hangs is left noted down
            if let (Some(p), false) = (b.slots, matches!(o.end, End::Hang)) {
                unsafe { std::ptr::write_volatile((p as *mut u64).add(w), 0) };
            }
            let mut t = total.lock().unwrap();
            t.runs += 1;
            t.ticks += o.st.ticks;
            for (k, v) in &o.st.counters {
                let e = t.counters.entry(k).or_insert(0);
                *e = if k.starts_with("max: ") { (*e).max(*v) } else { *e + v };
            }
            if o.st.nontrivial {
                t.nontrivial += 1;
                t.sigs.insert(o.st.sig);
            }
            // order-free combination of the logs of all runs
            t.digest = t.digest.wrapping_add(mix(o.st.digest ^ mix(i)));
            if let Some(s) = o.st.sample {
                if t.samples.len() < 400 {
                    t.samples.push((i, s));
                }
            }
            match o.end {
                End::Held => {}
                End::Broken(v) => {
                    stop_at.fetch_min(i, Ordering::SeqCst);
                    if t.broken.as_ref().map_or(true, |x| i < x.0) {
                        t.broken = Some((i, v, o.choices));
                    }
                }
                End::Hang => {
                    stop.store(true, Ordering::SeqCst);
                    if t.hang.as_ref().map_or(true, |x| i < x.0) {
                        t.hang = Some((i, o.choices));
                    }
                }
                End::Harness(m) => {
                    stop.store(true, Ordering::SeqCst);
                    t.harness = Some((i, m));
                }
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let mut t = std::mem::take(&mut *total.lock().unwrap());
    t.samples.sort();
    t.wall = start.elapsed().as_secs_f64();
    t
}

/// Make the choices of a failing run fewer and smaller while `fails` still says yes
pub fn minimise(first: Vec<u64>, secs: f64, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let start = Instant::now();
    let mut best = first;
    while best.last() == Some(&0) {
        best.pop();
    }
    let late = || start.elapsed().as_secs_f64() > secs;
    // the tail first: the shortest prefix that still fails
    let (mut lo, mut hi) = (0, best.len());
    while lo < hi && !late() {
        let mid = (lo + hi) / 2;
        if fails(&best[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() && fails(&best[..hi]) {
        best.truncate(hi);
    }
    let mut again = true;
    while again && !late() {
        again = false;
        // delete ranges
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !late() {
                let j = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..j);
                if fails(&c) {
                    best = c;
                    again = true;
                } else {
                    i += size;
                }
            }
            if size == 1 || late() {
                break;
            }
            size /= 2;
        }
        // zero ranges
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !late() {
                let j = (i + size).min(best.len());
                if best[i..j].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..j].iter_mut().for_each(|x| *x = 0);
                    if fails(&c) {
                        best = c;
                        again = true;
                    }
                }
                i = j;
            }
            if size == 1 || late() {
                break;
            }
            size /= 2;
        }
        // shrink single choices
        for i in 0..best.len() {
            let (mut lo, hi0) = (0u64, best[i]);
            let mut hi = hi0;
            while lo < hi && !late() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if fails(&c) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            if hi < hi0 {
                let mut c = best.clone();
                c[i] = hi;
                if fails(&c) {
                    best = c;
                    again = true;
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
    }
    best
}
