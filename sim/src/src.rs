//! The one source of choices. Everything a run does is decided by the numbers drawn here, so a
//! run is exactly its list of choices: recorded when drawn from the PRNG, read back on replay.
//! Zero is always the simplest choice; a replay that runs out of choices continues with zeros.
use crate::env::out;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
    }
    mix(h ^ bytes.len() as u64)
}

struct Inner {
    rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    state: u64,
}

/// More draws than any sane run makes; past it every choice is zero so that runs always end.
pub const MAX_DRAWS: usize = 400_000;

/// Shared memory that outlives us, where the choices are kept as they are made: the count, then
/// the choices
static CHOICE_LOG: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

pub fn log_choices(p: *mut u64) {
    CHOICE_LOG.store(p, Ordering::SeqCst);
}

#[derive(Clone)]
pub struct Src(Arc<Mutex<Inner>>);

impl Src {
    pub fn from_seed(seed: u64) -> Src {
        Src(Arc::new(Mutex::new(Inner { rec: Vec::new(), replay: None, state: mix(seed) })))
    }
    pub fn from_choices(c: Vec<u64>) -> Src {
        Src(Arc::new(Mutex::new(Inner { rec: Vec::new(), replay: Some(c), state: 0 })))
    }
    /// The choices made so far
    pub fn choices(&self) -> Vec<u64> {
        match self.0.lock() {
            Ok(i) => i.rec.clone(),
            Err(p) => p.into_inner().rec.clone(),
        }
    }
    /// A number in `0..n`
    pub fn below(&self, n: u64) -> u64 {
        out(|| {
            let mut i = self.0.lock().unwrap_or_else(|p| p.into_inner());
            let pos = i.rec.len();
            let v = if n <= 1 || pos >= MAX_DRAWS {
                0
            } else if let Some(r) = &i.replay {
                r.get(pos).map_or(0, |v| v % n)
            } else {
                i.state = i.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let x = mix(i.state);
                ((x as u128 * n as u128) >> 64) as u64
            };
            if pos < MAX_DRAWS {
                i.rec.push(v);
                let p = CHOICE_LOG.load(Ordering::Relaxed);
                if !p.is_null() {
                    // SAFETY: room for MAX_DRAWS choices and the count; only one run logs
                    unsafe {
                        p.add(pos + 1).write_volatile(v);
                        p.write_volatile(pos as u64 + 1);
                    }
                }
            }
            v
        })
    }
    pub fn usize(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// True with probability `num` in `den`; the simplest choice is false
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'t, T>(&self, items: &'t [T]) -> &'t T {
        &items[self.usize(items.len())]
    }
    pub fn range(&self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// An index, with the given weights
    pub fn weighted(&self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        0
    }
    /// A small number, at most `max`, but now and then any number up to `rare`
    pub fn count(&self, max: usize, rare: usize) -> usize {
        if self.chance(1, 32) {
            self.usize(rare + 1)
        } else {
            self.small(max)
        }
    }
    /// A small number, geometric-ish, at most `max`
    pub fn small(&self, max: usize) -> usize {
        let m = match self.below(8) {
            0..=3 => 2,
            4 | 5 => 4,
            6 => 8,
            _ => max,
        };
        self.usize(m.min(max) + 1)
    }
}
