//! What a run reports: counters, simulated time, the event log, the signature of what it reached
use crate::env::out;
use crate::src::{hash_bytes, mix, Src};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// A broken property
#[derive(Debug, Clone)]
pub struct V {
    pub class: &'static str,
    pub msg: String,
}

pub type R<T = ()> = Result<T, V>;

pub fn fail<T>(class: &'static str, msg: impl Into<String>) -> R<T> {
    Err(V { class, msg: msg.into() })
}

#[derive(Default)]
pub struct St {
    pub counters: BTreeMap<&'static str, u64>,
    pub ticks: u64,
    pub trace: Vec<String>,
    pub sig: u64,
    pub nontrivial: bool,
    pub digest: u64,
    pub sample: Option<String>,
}

pub struct Inner {
    pub s: Src,
    pub trace_on: bool,
    pub st: Mutex<St>,
    /// Scratch space for runs that use files
    pub dir: String,
    pub thorough: bool,
}

#[derive(Clone)]
pub struct Ctx(pub Arc<Inner>);

impl std::ops::Deref for Ctx {
    type Target = Inner;
    fn deref(&self) -> &Inner {
        &self.0
    }
}

impl Ctx {
    pub fn new(s: Src, trace_on: bool, dir: String, thorough: bool) -> Ctx {
        Ctx(Arc::new(Inner { s, trace_on, st: Mutex::new(St::default()), dir, thorough }))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut St) -> T) -> T {
        out(|| f(&mut self.st.lock().unwrap_or_else(|p| p.into_inner())))
    }
    pub fn count(&self, what: &'static str) {
        self.add(what, 1)
    }
    pub fn add(&self, what: &'static str, n: u64) {
        self.with(|s| *s.counters.entry(what).or_insert(0) += n)
    }
    /// One step of simulated time
    pub fn tick(&self) {
        self.with(|s| s.ticks += 1)
    }
    /// An event of the log; only written out when the run is traced
    pub fn ev(&self, f: impl FnOnce() -> String) {
        if self.trace_on {
            out(|| {
                let l = f();
                self.with(|s| {
                    s.digest = hash_bytes(s.digest, l.as_bytes());
                    if s.trace.len() < 4000 {
                        s.trace.push(l)
                    }
                })
            })
        }
    }
    pub fn sig(&self, b: &[u8]) {
        self.with(|s| s.sig = hash_bytes(s.sig, b))
    }
    pub fn sig_n(&self, n: u64) {
        self.with(|s| s.sig = mix(s.sig ^ n))
    }
    pub fn nontrivial(&self) {
        self.with(|s| s.nontrivial = true)
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        out(|| {
            let v = f();
            self.with(|s| s.sample = Some(v))
        })
    }
}
