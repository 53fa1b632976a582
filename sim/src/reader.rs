//! The simulated byte stream. Everything a legal `Read` may do: any cut into pieces, interruptions
//! of all spellings, scribbling over the unused part of the buffer, failing at any byte or read,
//! panicking, calling back into the library.
use crate::ctx::Ctx;
use crate::env::{inject_panic, out};
use crate::src::Src;
use std::fmt;
use std::io::{self, Read};
use std::sync::Arc;

#[derive(Debug)]
pub struct Marker(pub u64);
impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "injected failure {}", self.0)
    }
}
impl std::error::Error for Marker {}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::WriteZero,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];
pub const ERRNOS: &[i32] = &[
    libc::EIO,
    libc::EAGAIN,
    libc::EISDIR,
    libc::ENOMEM,
    libc::ESTALE,
    libc::ETIMEDOUT,
    libc::EBADF,
    libc::EPIPE,
    libc::ECONNRESET,
    libc::ENXIO,
    libc::EOVERFLOW,
];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    /// With a payload that tells which failure it was
    Kind(io::ErrorKind, u64),
    /// As the operating system reports it
    Os(i32),
    /// Kind without payload
    Bare(io::ErrorKind),
    Panic(u64),
}

impl Fail {
    pub fn draw(s: &Src) -> Fail {
        match s.weighted(&[3, 2, 1, 2]) {
            0 => Fail::Kind(*s.pick(KINDS), 1 + s.below(1_000_000)),
            1 => Fail::Os(*s.pick(ERRNOS)),
            2 => Fail::Bare(*s.pick(KINDS)),
            _ => Fail::Panic(1 + s.below(1_000_000)),
        }
    }
    pub fn error(self) -> io::Error {
        match self {
            Fail::Kind(k, id) => io::Error::new(k, Marker(id)),
            Fail::Os(n) => io::Error::from_raw_os_error(n),
            Fail::Bare(k) => k.into(),
            Fail::Panic(_) => unreachable!(),
        }
    }
    /// Is this error exactly the failure?
    pub fn is(self, e: &io::Error) -> bool {
        match self {
            Fail::Kind(k, id) => {
                e.kind() == k && e.get_ref().and_then(|x| x.downcast_ref::<Marker>()).map(|m| m.0) == Some(id)
            }
            Fail::Os(n) => e.raw_os_error() == Some(n),
            Fail::Bare(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
            Fail::Panic(_) => false,
        }
    }
    pub fn class(self) -> &'static str {
        match self {
            Fail::Kind(..) => "fault: stream error (custom)",
            Fail::Os(_) => "fault: stream error (errno)",
            Fail::Bare(_) => "fault: stream error (bare kind)",
            Fail::Panic(_) => "fault: stream panic",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Wrap {
    Direct,
    Mut,
    Boxed,
    Buf(usize),
    Chain(usize),
}

/// How one stream behaves; fixed before it is read
#[derive(Clone, Debug)]
pub struct Plan {
    /// Piece sizes, used in turn; 0 means as much as is asked for
    pub pieces: Vec<usize>,
    /// Interruptions: (before which piece, how many)
    pub intr: Vec<(usize, usize)>,
    pub intr_kind: u8,
    /// One interruption before every so many bytes' worth of pieces; 0 for none
    pub intr_every: usize,
    pub intr_at_end: usize,
    pub scribble: u8,
    pub fail: Option<(usize, Fail)>,
    pub sticky: bool,
    /// What a read behind the end would give: the end is final for those who read a document, even
    /// where the stream goes on later, as a terminal does
    pub beyond: Option<&'static [u8]>,
    pub wrap: Wrap,
}

impl Plan {
    pub fn plain() -> Plan {
        Plan {
            pieces: vec![0],
            intr: vec![],
            intr_kind: 0,
            intr_every: 0,
            intr_at_end: 0,
            scribble: 0,
            fail: None,
            sticky: false,
            beyond: None,
            wrap: Wrap::Direct,
        }
    }
    pub fn draw(s: &Src, len: usize) -> Plan {
        let mut p = Plan::plain();
        p.pieces = match s.below(7) {
            0 => vec![0],
            1 => vec![1],
            2 => vec![1 + s.usize(8)],
            3 => (0..2 + s.usize(6)).map(|_| 1 + s.usize(6)).collect(),
            4 => (0..2 + s.usize(6)).map(|_| 1 + s.usize(64)).collect(),
            5 => vec![len / 2 + 1, 1],
            _ => vec![*s.pick(&[7usize, 13, 31, 32, 33, 64, 255, 512, 4096, 8191])],
        };
        if len > 20_000 {
            // no more than some thousand reads
            let least = len / 2000;
            p.pieces.iter_mut().filter(|p| **p > 0).for_each(|p| *p += least);
        }
        if s.chance(1, 2) {
            for _ in 0..1 + s.usize(5) {
                let at = if s.chance(1, 3) { s.usize(3) } else { s.usize(len + 2) };
                let n = if s.chance(1, 24) { *s.pick(&[20usize, 70, 300, 1100]) } else { 1 + s.small(5) };
                p.intr.push((at, n));
            }
            p.intr_kind = s.below(4) as u8;
        }
        if s.chance(1, 6) {
            p.intr_every = 1 + s.usize(4);
            p.intr_kind = s.below(4) as u8;
        }
        if s.chance(1, 4) {
            p.intr_at_end = 1 + s.usize(3);
        }
        p.scribble = s.below(4) as u8;
        if s.chance(1, 8) {
            p.beyond = Some(s.pick(&["\nbeyond = 1\n", "}", "\u{e9}", ""]).as_bytes());
        }
        p.wrap = match s.below(8) {
            0..=2 => Wrap::Direct,
            3 => Wrap::Mut,
            4 => Wrap::Boxed,
            5 => Wrap::Chain(s.usize(len + 1)),
            _ => Wrap::Buf(*s.pick(&[1usize, 2, 3, 8, 16, 64, 8192])),
        };
        p
    }
    /// Where streams like to fail: at the very end, at the start, around interesting bytes
    pub fn with_fail(mut self, s: &Src, len: usize, ends: &[usize]) -> Plan {
        let at = match s.below(6) {
            0 => len,
            1 => 0,
            2 if !ends.is_empty() => (*s.pick(ends) + s.usize(3)).min(len),
            3 => len.saturating_sub(s.usize(4)),
            _ => s.usize(len + 1),
        };
        self.fail = Some((at, Fail::draw(s)));
        self.sticky = s.chance(1, 2);
        if let Wrap::Chain(_) = self.wrap {
            self.wrap = Wrap::Direct;
        }
        self
    }
    pub fn cut(&self, len: usize) -> bool {
        self.pieces.iter().any(|p| *p != 0 && *p < len) || !self.intr.is_empty() || self.intr_every > 0
    }
    pub fn hash(&self, c: &Ctx) {
        for p in &self.pieces {
            c.sig_n(*p as u64);
        }
        for (a, b) in &self.intr {
            c.sig_n((*a * 31 + *b) as u64);
        }
        c.sig_n(self.intr_every as u64);
        c.sig(format!("{:?}{:?}", self.fail, self.wrap).as_bytes());
    }
}

/// Called before each read, with the read's index
pub type OnRead = Arc<dyn Fn(usize) + Send + Sync>;

pub struct SimReader {
    c: Ctx,
    data: Arc<Vec<u8>>,
    pos: usize,
    end: usize,
    plan: Plan,
    piece: usize,
    reads: usize,
    pending: usize,
    asked: bool,
    failed: bool,
    /// The end has been signalled
    ended: bool,
    /// Reads behind the end
    beyond: usize,
    on_read: Option<OnRead>,
    name: &'static str,
}

impl SimReader {
    pub fn new(c: &Ctx, data: &Arc<Vec<u8>>, plan: &Plan) -> SimReader {
        SimReader {
            c: c.clone(),
            data: data.clone(),
            pos: 0,
            end: data.len(),
            plan: plan.clone(),
            piece: 0,
            reads: 0,
            pending: 0,
            asked: false,
            failed: false,
            ended: false,
            beyond: 0,
            on_read: None,
            name: "read",
        }
    }
    pub fn on_read(mut self, f: OnRead) -> SimReader {
        self.on_read = Some(f);
        self
    }
    fn interruption(&self) -> io::Error {
        match self.plan.intr_kind {
            0 => io::ErrorKind::Interrupted.into(),
            1 => io::Error::from_raw_os_error(libc::EINTR),
            2 => io::Error::new(io::ErrorKind::Interrupted, Marker(0)),
            _ => io::Error::new(io::ErrorKind::Interrupted, "interrupted"),
        }
    }
    fn scribble(&self, buf: &mut [u8]) {
        // the part of the buffer a read does not fill may hold anything afterwards
        match self.plan.scribble {
            0 => {}
            1 => buf.iter_mut().take(64).for_each(|b| *b = 0xff),
            2 => buf.iter_mut().take(64).zip(b"x = 1\n".iter().cycle()).for_each(|(b, v)| *b = *v),
            _ => buf.iter_mut().take(64).for_each(|b| *b = b'}'),
        }
    }
    fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        self.c.tick();
        if buf.is_empty() {
            return Ok(0);
        }
        if !self.asked {
            self.asked = true;
            self.pending = self.plan.intr.iter().filter(|i| i.0 == self.piece).map(|i| i.1).sum();
            if self.plan.intr_every > 0 && self.piece % self.plan.intr_every == 0 {
                self.pending += 1;
            }
            if self.pos == self.end {
                self.pending += self.plan.intr_at_end;
            }
        }
        if self.pending > 0 {
            self.pending -= 1;
            self.c.count("fault: stream interruption");
            self.c.ev(|| format!("{} #{} -> interrupted", self.name, self.reads));
            self.scribble(buf);
            return Err(self.interruption());
        }
        if let Some((at, what)) = self.plan.fail {
            if self.pos >= at && (!self.failed || self.plan.sticky) {
                self.failed = true;
                self.scribble(buf);
                self.c.count(what.class());
                self.c.ev(|| format!("{} #{} at byte {} -> {:?}", self.name, self.reads, self.pos, what));
                if let Fail::Panic(id) = what {
                    inject_panic(id);
                }
                return Err(what.error());
            }
        }
        self.asked = false;
        if self.pos == self.end {
            if let (true, Some(more), true) = (self.ended, self.plan.beyond, self.beyond < 4) {
                self.beyond += 1;
                let n = more.len().min(buf.len());
                buf[..n].copy_from_slice(&more[..n]);
                self.c.count("reads behind the end");
                self.c.ev(|| format!("{} #{} behind the end -> {} bytes", self.name, self.reads, n));
                return Ok(n);
            }
            self.ended = true;
        }
        let p = self.plan.pieces[self.piece % self.plan.pieces.len()];
        self.piece += 1;
        let mut n = if p == 0 { buf.len() } else { p.min(buf.len()) };
        n = n.min(self.end - self.pos);
        if let Some((at, _)) = self.plan.fail {
            if self.pos < at {
                n = n.min(at - self.pos);
            }
        }
        if n < self.end - self.pos && n < buf.len() {
            self.c.count("fault: short read");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.scribble(&mut buf[n..]);
        self.c.ev(|| format!("{} #{} -> {} bytes", self.name, self.reads, n));
        Ok(n)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        out(|| {
            if let Some(f) = self.on_read.clone() {
                f(self.reads);
            }
            self.step(buf)
        })
    }
}

/// Hand the stream to the library the way the plan says
pub fn call<T>(r: SimReader, f: impl FnOnce(Box<dyn Read>) -> T, g: impl FnOnce(SimReader) -> T) -> T {
    let wrap = r.plan.wrap.clone();
    match wrap {
        Wrap::Direct => g(r),
        Wrap::Mut => {
            let mut r = r;
            // the borrow is what matters; the box only erases the type
            let b: Box<dyn Read + '_> = Box::new(&mut r);
            // SAFETY: `f` returns owned data and `r` outlives the call
            let b: Box<dyn Read + 'static> = unsafe { std::mem::transmute(b) };
            f(b)
        }
        Wrap::Boxed => f(Box::new(r)),
        Wrap::Buf(n) => f(Box::new(io::BufReader::with_capacity(n, r))),
        Wrap::Chain(at) => {
            let mut a = SimReader::new(&r.c, &r.data, &r.plan);
            a.end = at.min(r.end);
            a.on_read = r.on_read.clone();
            a.name = "read(first)";
            let mut b = r;
            b.pos = a.end;
            b.name = "read(second)";
            f(Box::new(a.chain(b)))
        }
    }
}
