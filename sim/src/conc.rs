//! C09: several threads of calls under a scheduler that lets one run at a time and decides, at
//! every read, log event and (at drawn distances) allocation, who goes on; plus calls nested in
//! streams, log receivers and receiving types, and calls after failures. Every call must return
//! what it returns alone.
//!
//! The threads are real; the baton makes them one execution. A thread that blocks on something the
//! library holds keeps the baton without moving: it is recognised by its kernel state, the baton
//! goes on, and that is only a violation if nobody can move but calls stalled in their streams.
use crate::api::*;
use crate::ctx::{fail, Ctx, R, V};
use crate::docp;
use crate::docv;
use crate::env::{lib, set_hash_seed, set_hook, Hook, Panicked, HOOK_ALLOC, HOOK_LOG};
use crate::load::Doc;
use crate::reader::{OnRead, Plan, SimReader};
use crate::text::Cfg;
use crate::typed;
use ferrous_chloride::parser::block::Blocks;
use ferrous_chloride::parser::Body;
use ferrous_chloride::value::MapValues;
use ferrous_chloride::{AsOwned, ScalarLength};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

const STACK: usize = 64 << 20;
/// Allocation yields stop after this many steps, so that runs end
const MAX_STEPS: u64 = 3000;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Status {
    Ready,
    /// In a stream that does not answer
    Stalled,
    /// Waiting for something that is not ours
    Blocked,
    Done,
}

struct State {
    status: Vec<Status>,
    current: Option<usize>,
    steps: u64,
    switches: u64,
    dead: bool,
    broken: Option<V>,
    /// What each thread is at, for reports
    at: Vec<String>,
}

struct Sched {
    c: Ctx,
    st: Mutex<State>,
    cv: Condvar,
    tids: Vec<AtomicI32>,
    alloc_gap: u64,
}

thread_local! {
    /// Allocations until the next yield
    static GAP: Cell<u64> = const { Cell::new(0) };
    static LOG_GAP: Cell<u64> = const { Cell::new(0) };
    static NESTING: Cell<usize> = const { Cell::new(0) };
    /// A caller's buffer: filled anew for every call from memory, at the same address
    static KEEP: std::cell::RefCell<Option<Vec<u8>>> = const { std::cell::RefCell::new(None) };
}
const KEEP_SIZE: usize = 1 << 16;

/// The document in this thread's buffer, or in one of its own if that is in use
fn kept<T>(d: &[u8], on: bool, f: impl FnOnce(&[u8]) -> T) -> T {
    if !on || d.len() > KEEP_SIZE {
        return f(d);
    }
    let mut b = KEEP.with(|k| k.borrow_mut().take()).unwrap_or_else(|| Vec::with_capacity(KEEP_SIZE));
    b.clear();
    b.extend_from_slice(d);
    let r = f(&b);
    KEEP.with(|k| *k.borrow_mut() = Some(b));
    r
}

impl Sched {
    fn lock(&self) -> MutexGuard<State> {
        self.st.lock().unwrap_or_else(|p| p.into_inner())
    }
    /// Choose who goes on. Only the holder of the baton, or nobody, may ask.
    fn pass(&self, st: &mut State) {
        let ready: Vec<usize> = (0..st.status.len()).filter(|i| st.status[*i] == Status::Ready).collect();
        st.current = if !ready.is_empty() {
            Some(ready[self.c.s.usize(ready.len())])
        } else if st.status.iter().any(|s| *s == Status::Blocked) {
            // the monitor decides whether anything still moves
            None
        } else {
            // everything else is over: streams answer again
            let stalled: Vec<usize> = (0..st.status.len()).filter(|i| st.status[*i] == Status::Stalled).collect();
            if stalled.is_empty() {
                None
            } else {
                let i = stalled[self.c.s.usize(stalled.len())];
                st.status[i] = Status::Ready;
                Some(i)
            }
        };
        if let Some(n) = st.current {
            self.c.ev(|| format!("-> thread {}", n));
        }
        self.cv.notify_all();
    }
    fn wait(&self, mut st: MutexGuard<State>, me: usize) {
        while st.current != Some(me) || st.dead {
            st = self.cv.wait(st).unwrap_or_else(|p| p.into_inner());
        }
        st.status[me] = Status::Ready;
    }
    fn step(&self, me: usize, what: &'static str, next: Status) {
        let mut st = self.lock();
        st.steps += 1;
        self.c.tick();
        self.c.sig_n(me as u64 * 64 + what.len() as u64);
        self.c.ev(|| format!("thread {} {}", me, what));
        st.status[me] = next;
        if st.current == Some(me) {
            self.pass(&mut st);
            if st.current != Some(me) {
                st.switches += 1;
            }
        } else {
            self.cv.notify_all();
        }
        if next != Status::Done {
            self.wait(st, me);
        }
    }
    /// Somebody else may run now
    fn yield_now(&self, me: usize, what: &'static str) {
        self.step(me, what, Status::Ready)
    }
    fn stall(&self, me: usize) {
        self.c.count("fault: stream stalled");
        self.step(me, "stalls", Status::Stalled)
    }
    fn begin(&self, me: usize) {
        let st = self.lock();
        self.wait(st, me)
    }
    fn gap(&self) -> u64 {
        match self.alloc_gap {
            0 => 0,
            g => 1 + self.c.s.below(g),
        }
    }
    fn report(&self, v: V) {
        let mut st = self.lock();
        if st.broken.is_none() {
            st.broken = Some(v);
        }
    }
    fn set_at(&self, me: usize, what: &str) {
        self.lock().at[me] = what.to_string();
    }
}

// ---------------------------------------------------------------------------------------------
// Calls

#[derive(Clone, Debug)]
enum Route {
    Str,
    Slice,
    Stream(Plan),
}

#[derive(Clone, Debug)]
enum Kind {
    Tree(usize, Route),
    Values(usize, Route, bool),
    Typed(usize),
    SharedTree(u8),
    SharedValues(u8, bool),
    SharedIndex(u8),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Read,
    Log,
    Visit,
}

#[derive(Clone, Debug)]
struct Op {
    kind: Kind,
    /// Another call made from inside this one
    nested: Option<(Place, usize, Box<Op>)>,
    /// The stream does not answer at this read until everything else is over or waits
    stall: Option<usize>,
    /// What it returns alone
    want: String,
}

struct Share<T>(T);
// SAFETY: one thread runs at a time; whether the library's types may really be shared is checked by
// what sharing them does
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

struct World {
    c: Ctx,
    docs: Vec<Arc<Vec<u8>>>,
    tree: Share<Body<'static>>,
    values: Share<MapValues<'static>>,
    merged: Share<Option<MapValues<'static>>>,
    index: Share<Blocks<'static>>,
    paths: Vec<(String, Vec<String>)>,
}

/// Results are compared without regard to hash order; how errors of order-dependent calls are
/// worded is not compared
fn loose(s: String) -> String {
    if s.starts_with("err") && !s.starts_with("err IOError") {
        "err".into()
    } else {
        s
    }
}

fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap_or("?")
}

fn debug<T: std::fmt::Debug>(r: Result<T, Panicked>) -> String {
    match r {
        Ok(v) => format!("{:?}", v),
        Err(p) => format!("panic {:?}", p),
    }
}

impl World {
    fn draw_kind(&self, depth: usize) -> Kind {
        let s = &self.c.s;
        let d = s.usize(self.docs.len());
        let n = self.docs[d].len();
        let route = || match s.below(4) {
            0 => Route::Str,
            1 => Route::Slice,
            _ => {
                let mut p = Plan::draw(s, n);
                // long documents byte by byte would be all there is
                if n > 200 && p.pieces == [1] {
                    p.pieces = vec![n / 20 + 1];
                }
                if s.chance(1, 4) {
                    p = p.with_fail(s, n, &[]);
                }
                Route::Stream(p)
            }
        };
        match s.below(if depth > 0 { 6 } else { 9 }) {
            0 | 1 => Kind::Tree(d, route()),
            2 | 3 => Kind::Values(d, route(), s.chance(1, 2)),
            4 | 5 => Kind::Typed(d),
            6 => Kind::SharedTree(s.below(4) as u8),
            7 => Kind::SharedValues(s.below(6) as u8, s.chance(1, 2)),
            _ => Kind::SharedIndex(s.below(8) as u8),
        }
    }
    fn draw_op(&self, depth: usize) -> Op {
        let s = &self.c.s;
        let kind = self.draw_kind(depth);
        let stream = matches!(&kind, Kind::Tree(_, Route::Stream(_)) | Kind::Values(_, Route::Stream(_), _));
        let nested = if depth < 2 && s.chance(1, if depth == 0 { 2 } else { 5 }) {
            let place = match &kind {
                Kind::Typed(_) => Some(Place::Visit),
                _ if stream => Some(*s.pick(&[Place::Read, Place::Read, Place::Log])),
                Kind::Tree(..) | Kind::Values(..) => Some(Place::Log),
                _ => None,
            };
            place.map(|p| (p, s.usize(6), Box::new(self.draw_op(depth + 1))))
        } else {
            None
        };
        let stall = if stream && depth == 0 && s.chance(1, 3) { Some(s.usize(5)) } else { None };
        Op { kind, nested, stall, want: String::new() }
    }
    fn prepare(&self, op: &mut Op, seed: u64) {
        if let Some((_, _, n)) = &mut op.nested {
            self.prepare(n, seed);
        }
        let kind = &op.kind;
        let (c, sc) = (&self.c, None);
        c.ev(|| format!("alone: {:?}", kind));
        op.want = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    set_hash_seed(seed);
                    self.perform(kind, sc, None)
                })
                .expect("thread")
                .join()
                .unwrap_or_else(|e| std::panic::resume_unwind(e))
        });
    }
    fn stream(&self, d: usize, p: &Plan, inside: Option<&Rc<Inside>>, sched: Option<(&Arc<Sched>, usize)>) -> SimReader {
        let r = SimReader::new(&self.c, &self.docs[d], p);
        let (sc, me) = match sched {
            None => return r,
            Some((sc, me)) => (sc.clone(), me),
        };
        // only ever called on this thread
        let i = Share(inside.cloned());
        let f: OnRead = Arc::new(move |k| {
            let i = &i;
            sc.yield_now(me, "read");
            if let Some(i) = &i.0 {
                if i.stall == Some(k) {
                    sc.stall(me);
                }
                i.reach(Place::Read, k);
            }
        });
        r.on_read(f)
    }
    /// Make the call and say what came out
    fn perform(&self, kind: &Kind, sched: Option<(&Arc<Sched>, usize)>, inside: Option<&Rc<Inside>>) -> String {
        match kind {
            Kind::Tree(d, Route::Str) => kept(&self.docs[*d], sched.is_some(), |b| match std::str::from_utf8(b) {
                Ok(t) => canon_tree(&tree_str(t)),
                Err(_) => String::new(),
            }),
            Kind::Tree(d, Route::Slice) => kept(&self.docs[*d], sched.is_some(), |b| canon_tree(&tree_slice(b))),
            Kind::Tree(d, Route::Stream(p)) => canon_tree(&tree_stream(self.stream(*d, p, inside, sched))),
            Kind::Values(d, r, m) => {
                let mb = if *m { MERGE } else { None };
                let s = match r {
                    Route::Str => kept(&self.docs[*d], sched.is_some(), |b| match std::str::from_utf8(b) {
                        Ok(t) => canon_values(&values_str(t, mb)),
                        Err(_) => String::new(),
                    }),
                    Route::Slice => kept(&self.docs[*d], sched.is_some(), |b| canon_values(&values_slice(b, mb))),
                    Route::Stream(p) => canon_values(&values_stream(self.stream(*d, p, inside, sched), mb)),
                };
                if *m {
                    loose(s)
                } else {
                    s
                }
            }
            Kind::Typed(d) => {
                let i = inside.cloned();
                let n = Cell::new(0);
                let old = typed::on_visit(i.map(|i| -> typed::OnVisit {
                    let n = n.clone();
                    Rc::new(move || {
                        let k = n.get();
                        n.set(k + 1);
                        i.reach(Place::Visit, k)
                    })
                }));
                let r = kept(&self.docs[*d], sched.is_some(), |b| typed::load(text(b)));
                typed::on_visit(old);
                match r {
                    Ok(Ok(v)) => format!("ok {:?}", v),
                    Ok(Err(_)) => "err".into(),
                    Err(p) => format!("panic {:?}", p),
                }
            }
            Kind::SharedTree(q) => match q {
                0 => debug(lib(|| self.tree.0.as_owned())),
                1 => debug(lib(|| self.tree.0.clone())),
                2 => debug(lib(|| format!("{:?}", self.tree.0))),
                _ => debug(lib(|| self.tree.0.iter().filter(|e| e.is_block()).count())),
            },
            Kind::SharedValues(q, merged) => {
                let v = match (&self.merged.0, merged) {
                    (Some(m), true) => m,
                    _ => &self.values.0,
                };
                match q {
                    0 => loose(canon_values(&lib(|| v.as_merged()))),
                    1 => debug(lib(|| v.len_scalar())),
                    2 => canon_values(&lib(|| Ok(v.as_owned()))),
                    3 => canon_values(&lib(|| Ok(v.as_unmerged()))),
                    4 => {
                        let k = v.keys().next().map(|k| k.to_string()).unwrap_or_default();
                        debug(lib(|| v.get(k.as_str()).map(|x| x.len()))) + &debug(lib(|| v.get_single(k.as_str()).is_some()))
                    }
                    _ => debug(lib(|| v.values().map(|x| x.len_scalar()).sum::<usize>())),
                }
            }
            Kind::SharedIndex(q) => {
                if self.paths.is_empty() || *q == 0 {
                    return debug(lib(|| self.index.0.len_blocks()));
                }
                let (t, l) = &self.paths[*q as usize % self.paths.len()];
                debug(lib(|| self.index.0.get(t, l.as_slice()).map(|b| format!("{} {:?}", b.len_blocks(), b.get_empty()))))
            }
        }
    }
    /// As part of the schedule
    fn run(self: &Arc<Self>, op: &Op, sched: &Arc<Sched>, me: usize, seed: u64) {
        let inside = Rc::new(Inside {
            w: self.clone(),
            sched: sched.clone(),
            me,
            seed,
            stall: op.stall,
            nested: op.nested.clone(),
            done: Cell::new(false),
        });
        let logs = Rc::new(Cell::new(0usize));
        let got = if matches!(op.nested, Some((Place::Log, ..))) {
            let old = LOG_NEST.with(|x| x.replace(Some((inside.clone(), logs))));
            let g = self.perform(&op.kind, Some((sched, me)), Some(&inside));
            LOG_NEST.with(|x| x.replace(old));
            g
        } else {
            self.perform(&op.kind, Some((sched, me)), Some(&inside))
        };
        if got != op.want {
            let depth = NESTING.with(|n| n.get());
            sched.report(V {
                class: "influenced",
                msg: format!(
                    "thread {} (nesting {}): {} returns {} alone, but {} here",
                    me,
                    depth,
                    cut(&format!("{:?}", op.kind), 200),
                    cut(&op.want, 300),
                    cut(&got, 300)
                ),
            });
        }
    }
}

/// What happens inside a call
struct Inside {
    w: Arc<World>,
    sched: Arc<Sched>,
    me: usize,
    seed: u64,
    stall: Option<usize>,
    nested: Option<(Place, usize, Box<Op>)>,
    done: Cell<bool>,
}

impl Inside {
    fn reach(&self, p: Place, k: usize) {
        if let Some((place, at, op)) = &self.nested {
            if *place == p && k >= *at && !self.done.get() {
                self.done.set(true);
                self.w.c.count(match p {
                    Place::Read => "calls nested in a stream",
                    Place::Log => "calls nested in the log receiver",
                    Place::Visit => "calls nested in a receiving type",
                });
                self.w.c.ev(|| format!("thread {} calls {:?} from inside", self.me, op.kind));
                NESTING.with(|n| n.set(n.get() + 1));
                self.w.run(op, &self.sched, self.me, self.seed);
                NESTING.with(|n| n.set(n.get() - 1));
            }
        }
    }
}

thread_local! {
    static LOG_NEST: std::cell::RefCell<Option<(Rc<Inside>, Rc<Cell<usize>>)>> = const { std::cell::RefCell::new(None) };
}

struct ThreadHook {
    sched: Arc<Sched>,
    me: usize,
}
impl Hook for ThreadHook {
    fn event(&self, what: &'static str) {
        if what == "alloc" {
            let g = GAP.with(|g| {
                let v = g.get();
                g.set(v.saturating_sub(1));
                v
            });
            if g == 1 {
                if self.sched.lock().steps < MAX_STEPS {
                    self.sched.yield_now(self.me, "allocates");
                    GAP.with(|x| x.set(self.sched.gap()));
                }
            }
        } else {
            let nest = LOG_NEST.with(|x| x.borrow().clone());
            if let Some((i, n)) = nest {
                let k = n.get();
                n.set(k + 1);
                i.reach(Place::Log, k);
            }
            let g = LOG_GAP.with(|g| {
                let v = g.get();
                g.set(if v == 0 { 7 } else { v - 1 });
                v
            });
            if g == 0 && self.sched.lock().steps < MAX_STEPS {
                self.sched.yield_now(self.me, "logs");
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// The kernel's word on a thread: is it asleep?
fn asleep(tid: i32) -> bool {
    let t = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    t.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S'))
}

fn monitor(sc: &Arc<Sched>) -> R {
    let mut last = (u64::MAX, None);
    let mut since = Instant::now();
    let mut quiet = 0;
    loop {
        let st = sc.lock();
        if st.status.iter().all(|s| *s == Status::Done) {
            return match &st.broken {
                Some(v) => Err(v.clone()),
                None => Ok(()),
            };
        }
        let now = (st.steps, st.current);
        if now != last {
            last = now;
            since = Instant::now();
            quiet = 0;
        }
        let (mut st, _) = sc.cv.wait_timeout(st, Duration::from_millis(10)).unwrap_or_else(|p| p.into_inner());
        if (st.steps, st.current) != now {
            continue;
        }
        match st.current {
            Some(t) => {
                let tid = sc.tids[t].load(Ordering::SeqCst);
                if tid != 0 && asleep(tid) {
                    quiet += 1;
                } else {
                    quiet = 0;
                }
                if quiet >= 60 && since.elapsed() > Duration::from_millis(800) {
                    quiet = 0;
                    st.status[t] = Status::Blocked;
                    sc.c.count("threads that had to wait for another");
                    sc.c.ev(|| format!("thread {} is blocked", t));
                    sc.pass(&mut st);
                }
            }
            None => {
                // nobody may run; the blocked ones have this long to show that something moves
                if since.elapsed() > Duration::from_secs(2) {
                    let who: Vec<String> = (0..st.status.len())
                        .filter(|i| st.status[*i] != Status::Done)
                        .map(|i| format!("thread {} is {:?} in {}", i, st.status[i], cut(&st.at[i], 160)))
                        .collect();
                    st.dead = true;
                    if let Some(v) = &st.broken {
                        return Err(v.clone());
                    }
                    let ready = st.status.iter().any(|s| *s == Status::Ready);
                    if ready {
                        // came back just now
                        st.dead = false;
                        sc.pass(&mut st);
                        continue;
                    }
                    return fail("blocked", format!("no call can go on although only streams are stalled: {}", who.join("; ")));
                }
                if st.status.iter().any(|s| *s == Status::Ready) {
                    sc.pass(&mut st);
                }
            }
        }
    }
}

/// Many small calls before the ones that are looked at: whatever the library counts or keeps has
/// been counted and kept by then. The same text is accepted, or refused, every time.
fn history(c: &Ctx, kind: u64, n: u64) -> R {
    const TEXTS: &[&str] = &["a = 1\n", "a = \"x\"\n", "b = [1, 2]\n", "", "t {\n}\n", "a = \"\n", "a = \"\\q\"\n", "= 1\n", "a = 1\na = 2\n", "a = {x = 1, x = 2}\n"];
    let mut first: Vec<bool> = Vec::new();
    for i in 0..n {
        let t = TEXTS[(i % TEXTS.len() as u64) as usize];
        let r = lib(|| match kind {
            0 => ferrous_chloride::parse_reader(t.as_bytes()).is_ok(),
            1 => ferrous_chloride::value::from_reader(t.as_bytes(), MERGE).is_ok(),
            2 => ferrous_chloride::value::from_reader(t.as_bytes(), None).is_ok(),
            3 => ferrous_chloride::parse_str(t).is_ok(),
            4 => ferrous_chloride::parse_slice(t.as_bytes()).is_ok(),
            5 => ferrous_chloride::value::from_str(t, MERGE).is_ok(),
            _ => ferrous_chloride::from_str::<std::collections::HashMap<String, serde::de::IgnoredAny>>(t).is_ok(),
        });
        let ok = match r {
            Ok(ok) => ok,
            Err(p) => {
                // panics are judged where they are looked at
                c.ev(|| format!("  call {} panics: {:?}", i, p));
                false
            }
        };
        match first.get(i as usize % TEXTS.len()) {
            None => first.push(ok),
            Some(f) if *f != ok => {
                let how = |b: bool| if b { "accepted" } else { "refused" };
                return fail("history", format!("{:?} is {} at first, and {} by call {} (kind {})", t, how(*f), how(ok), i, kind));
            }
            _ => {}
        }
    }
    Ok(())
}

pub fn c09(c: &Ctx) -> R {
    let s = &c.s;
    // documents the threads share
    let mut docs: Vec<Arc<Vec<u8>>> = Vec::new();
    for _ in 0..1 + s.usize(3) {
        let mut cfg = Cfg::draw(s);
        cfg.big &= s.chance(1, 8);
        cfg.depth = cfg.depth.min(3);
        docs.push(Arc::new(match s.below(5) {
            0 | 1 => Doc::Tree(docp::draw_with(s, cfg)).bytes(),
            2 | 3 => Doc::Values(docv::draw_with(s, cfg), false).bytes(),
            _ => {
                let mut b = docp::draw_with(s, cfg).text.into_bytes();
                crate::damage::damage(c, &mut b);
                b
            }
        }));
    }
    // other documents of the same length, which a caller's buffer may hold next
    for i in 0..docs.len() {
        if s.chance(1, 2) {
            let mut b = docs[i].to_vec();
            let n = b.len();
            for _ in 0..if n == 0 { 0 } else { 1 + s.usize(3) } {
                let (at, to) = (s.usize(n), s.usize(n));
                match s.below(4) {
                    0 => b[at] ^= 1 << s.below(8),
                    1 => b[at] = *s.pick(&[b'0', b'a', b'\n', b' ', b'"', b'}', 0xff, 0xc3]),
                    2 => b[at] = b[to],
                    _ => b.swap(at, to),
                }
            }
            docs.push(Arc::new(b));
        }
    }
    for (i, d) in docs.iter().enumerate() {
        c.ev(|| format!("document {}: {}", i, crate::text::show_bytes(d)));
        c.sig(d);
    }
    // values the threads share
    let mut cfg = Cfg::draw(s);
    cfg.big &= s.chance(1, 8);
    cfg.depth = cfg.depth.min(3);
    let tree = docp::draw_with(s, cfg.clone());
    cfg.coherent = true;
    let values = docv::draw_with(s, cfg);
    c.ev(|| format!("shared tree {}", crate::text::show(&tree.text)));
    c.ev(|| format!("shared values {}", crate::text::show(&values.text)));
    let body = must("parse_str", tree_str(&tree.text))?.as_owned();
    let vals = must("from_str", values_str(&values.text, None))?.as_owned();
    let merged = match lib(|| vals.as_merged()) {
        Ok(r) => r.ok().map(|m| m.as_owned()),
        Err(p) => return fail("panic", format!("as_merged panics: {:?}", p)),
    };
    let index: Blocks<'static> = guard(
        "Blocks",
        lib(|| body.iter().filter(|e| e.is_block()).cloned().map(|e| e.unwrap_block()).collect()),
    )?;
    let paths = tree
        .body
        .iter()
        .filter_map(|e| match e {
            docp::El::Block { ty, labels, .. } => Some((ty.clone(), labels.iter().map(|l| l.0.clone()).collect())),
            _ => None,
        })
        .collect();
    let w = Arc::new(World {
        c: c.clone(),
        docs,
        tree: Share(body),
        values: Share(vals),
        merged: Share(merged),
        index: Share(index),
        paths,
    });

    // the calls, and what each returns alone
    let threads = if s.chance(1, 40) { 6 + s.usize(7) } else { 1 + s.weighted(&[1, 4, 3, 2]) };
    let mut plans: Vec<(u64, Vec<Op>)> = Vec::new();
    for t in 0..threads {
        let seed = s.below(1 << 16);
        let mut ops: Vec<Op> = (0..1 + s.usize(3)).map(|_| w.draw_op(0)).collect();
        if threads == 1 {
            ops.extend((0..2).map(|_| w.draw_op(0)));
        }
        for o in &mut ops {
            w.prepare(o, seed);
            c.ev(|| format!("thread {}: {:?}", t, o));
        }
        plans.push((seed, ops));
    }
    // what the process, or the thread of the first calls, has done before
    let before = if s.chance(1, 2000) {
        Some((s.below(7), 70_000))
    } else if s.chance(1, 40) {
        Some((s.below(7), *s.pick(&[3, 20, 70, 300, 1500])))
    } else {
        None
    };
    let same_thread = before.map_or(false, |b| b.1 <= 1500) && s.chance(1, 2);
    if let Some((kind, n)) = before {
        c.ev(|| format!("{} calls of kind {} before{}", n, kind, if same_thread { ", on thread 0" } else { "" }));
        c.add("calls made before", n);
        if !same_thread {
            std::thread::scope(|s| s.spawn(|| history(c, kind, n)).join()).unwrap_or_else(|_| fail("panic", "the calls made before panic"))?;
        }
    }
    let alloc_gap = *s.pick(&[0u64, 12, 60, 400, 3000]);
    let sc = Arc::new(Sched {
        c: c.clone(),
        st: Mutex::new(State {
            status: vec![Status::Ready; threads],
            current: None,
            steps: 0,
            switches: 0,
            dead: false,
            broken: None,
            at: vec![String::new(); threads],
        }),
        cv: Condvar::new(),
        tids: (0..threads).map(|_| AtomicI32::new(0)).collect(),
        alloc_gap,
    });
    let done = Arc::new(AtomicU64::new(0));
    let early: Arc<std::sync::Mutex<R>> = Arc::new(std::sync::Mutex::new(Ok(())));
    let mut hs = Vec::new();
    for (me, (seed, ops)) in plans.into_iter().enumerate() {
        let (w, sc, done, early) = (w.clone(), sc.clone(), done.clone(), early.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    sc.tids[me].store(unsafe { libc::syscall(libc::SYS_gettid) } as i32, Ordering::SeqCst);
                    set_hash_seed(seed);
                    sc.begin(me);
                    if let (0, true, Some((kind, n))) = (me, same_thread, before) {
                        if let Err(v) = history(&w.c, kind, n) {
                            *early.lock().unwrap() = Err(v);
                        }
                    }
                    GAP.with(|x| x.set(sc.gap()));
                    set_hook(Some((Arc::new(ThreadHook { sched: sc.clone(), me }), HOOK_LOG | HOOK_ALLOC)));
                    for op in &ops {
                        sc.set_at(me, &format!("{:?}", op.kind));
                        w.run(op, &sc, me, seed);
                        done.fetch_add(1, Ordering::SeqCst);
                        sc.yield_now(me, "returns");
                    }
                    set_hook(None);
                    sc.step(me, "is done", Status::Done);
                })
                .expect("thread"),
        );
    }
    {
        let mut st = sc.lock();
        sc.pass(&mut st);
    }
    let r = monitor(&sc);
    if r.as_ref().err().map_or(true, |v| v.class != "blocked") {
        for h in hs {
            let _ = h.join();
        }
    }
    let (steps, switches) = {
        let st = sc.lock();
        (st.steps, st.switches)
    };
    c.add("calls made", done.load(Ordering::SeqCst));
    c.add("schedule steps", steps);
    c.add("thread switches", switches);
    if threads > 1 && switches >= 2 {
        c.nontrivial();
    }
    std::mem::replace(&mut *early.lock().unwrap(), Ok(()))?;
    c.sample(|| format!("{} threads, {} steps, {} switches, allocation yields every 1..{}", threads, steps, switches, alloc_gap));
    r
}
