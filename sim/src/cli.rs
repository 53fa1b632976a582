//! C10..C12: the command. The real binary runs in a process of its own, on real files, pipes and
//! standard streams in a scratch directory; every open, read, write and close on its input and
//! output goes through the interposer, which does what was decided here beforehand.
use crate::api::{cut, values_slice, MERGE};
use crate::ctx::{fail, Ctx, R};
use crate::docv::{self, cmp_map, Form};
use crate::env::lib;
use crate::src::Src;
use crate::text::{show_bytes, Cfg};
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::sync::Once;

fn fecl() -> String {
    format!("{}/target/cli/debug/fecl", crate::root())
}
fn shim() -> String {
    format!("{}/target/shim.so", crate::root())
}

/// Without the interposer nothing would be simulated: make sure it is there
fn ready() {
    static O: Once = Once::new();
    O.call_once(|| {
        for p in [fecl(), shim()] {
            if !std::path::Path::new(&p).exists() {
                panic!("{} is not built", p);
            }
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum In {
    File,
    StdinFile,
    StdinPipe,
    /// A path that leads to a pipe
    PathPipe,
    /// Real failures
    Missing,
    Directory,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum To {
    File,
    /// The input file itself
    Same,
    StdoutFile,
    StdoutPipe,
    /// A path that leads to a pipe
    PathPipe,
    /// Real failures
    NoDirectory,
    Directory,
}

#[derive(Clone, Debug)]
struct Wiring {
    from: In,
    to: To,
    merge: bool,
    absolute: bool,
    /// Leave out what has a default
    defaults: bool,
    in_name: &'static str,
    out_name: &'static str,
    /// What the output file holds beforehand
    old: Option<Vec<u8>>,
    /// The input is named by a link to it
    linked: bool,
    /// The output is named by a link (possibly to nothing yet); where it is the input, 2 a hard link
    /// and 3 another spelling
    alias: usize,
    /// How the command line spells what it says
    spelling: usize,
    dir: String,
}

impl Wiring {
    fn draw(c: &Ctx, kills: bool) -> Wiring {
        let s = &c.s;
        let mut from = *s.pick(&[In::File, In::File, In::StdinFile, In::StdinPipe]);
        let mut to = *s.pick(&[To::File, To::File, To::File, To::StdoutFile, To::StdoutPipe, To::Same]);
        if from == In::StdinPipe && s.chance(1, 3) {
            from = In::PathPipe;
        }
        if to == To::StdoutPipe && s.chance(1, 3) {
            to = To::PathPipe;
        }
        if to == To::Same && (kills || from != In::File) {
            to = To::File;
        }
        let old = match s.below(4) {
            0 | 1 => None,
            2 => Some(s.pick(&["", "x", "old content\n", "Merged(\n    {},\n)\n"]).as_bytes().to_vec()),
            _ => Some("older and longer\n".repeat(1 + s.usize(600)).into_bytes()),
        };
        Wiring {
            from,
            to,
            merge: !s.chance(1, 3),
            absolute: s.chance(1, 2),
            defaults: s.chance(1, 2),
            in_name: *s.pick(&["in.hcl", "i n.hcl", "é.hcl"]),
            out_name: *s.pick(&["out.txt", "o u t", "in.hcl.out"]),
            old,
            linked: s.chance(1, 10),
            alias: if s.chance(1, 4) { 1 + s.usize(3) } else { 0 },
            spelling: if s.chance(1, 4) { s.usize(4) } else { 0 },
            dir: format!("{}/cli", c.dir),
        }
    }
    fn input(&self) -> String {
        format!("{}/{}", self.dir, self.in_name)
    }
    /// The input as the command is told of it
    fn named(&self) -> String {
        if self.linked && self.from == In::File || self.from == In::PathPipe {
            format!("{}/link.hcl", self.dir)
        } else {
            self.input()
        }
    }
    /// Where the output is a link to
    fn target(&self) -> Option<String> {
        match (self.to, self.alias) {
            (To::File, 1) => Some("behind.txt".to_string()),
            (To::File, 2) => Some(format!("{}/behind.txt", self.dir)),
            (To::Same, 1) => Some(self.in_name.to_string()),
            (To::PathPipe, _) => Some(format!("/proc/self/fd/{}", PIPE_FD)),
            _ => None,
        }
    }
    fn output(&self) -> String {
        match self.to {
            To::Same if self.alias == 3 => format!("{}/./{}", self.dir, self.in_name),
            To::Same if self.alias == 0 => self.input(),
            To::NoDirectory => format!("{}/nowhere/{}", self.dir, self.out_name),
            _ => format!("{}/{}", self.dir, self.out_name),
        }
    }
    fn args(&self) -> Vec<String> {
        let arg = |p: String| {
            if self.absolute {
                p
            } else {
                p[self.dir.len() + 1..].to_string()
            }
        };
        let i = match self.from {
            In::StdinFile | In::StdinPipe => "-".to_string(),
            _ => arg(self.named()),
        };
        let o = match self.to {
            To::StdoutFile | To::StdoutPipe => "-".to_string(),
            _ => arg(self.output()),
        };
        let mut a = vec!["parse".to_string()];
        if !self.merge && self.spelling != 1 {
            a.push("--no-merge".into());
        }
        if self.spelling == 2 {
            a.push("--".into());
        }
        match (self.defaults, i.as_str(), o.as_str()) {
            (true, "-", "-") => {}
            (true, _, "-") => a.push(i),
            _ => a.extend([i, o]),
        }
        if !self.merge && self.spelling == 1 {
            a.push("--no-merge".into());
        }
        a
    }
    /// A fresh directory with the input, the old output and a bystander
    fn lay_out(&self, bytes: &[u8]) {
        let _ = fs::remove_dir_all(&self.dir);
        fs::create_dir_all(&self.dir).expect("scratch");
        match self.from {
            In::Missing => {}
            In::Directory => fs::create_dir(self.input()).expect("scratch"),
            _ => fs::write(self.input(), bytes).expect("scratch"),
        }
        fs::write(format!("{}/bystander", self.dir), b"do not touch").expect("scratch");
        if self.named() != self.input() {
            let to = if self.from == In::PathPipe { "/proc/self/fd/0" } else { self.in_name };
            std::os::unix::fs::symlink(to, self.named()).expect("scratch");
        }
        if let Some(t) = self.target() {
            std::os::unix::fs::symlink(t, self.output()).expect("scratch");
        } else if self.to == To::Same && self.alias == 2 {
            fs::hard_link(self.input(), self.output()).expect("scratch");
        }
        match (self.to, &self.old) {
            (To::File, Some(old)) => fs::write(self.output(), old).expect("scratch"),
            (To::Directory, _) => fs::create_dir(self.output()).expect("scratch"),
            _ => {}
        }
    }
    /// What must be in the directory whatever the command did
    fn bystanders(&self, bytes: &[u8]) -> Result<(), String> {
        if fs::read(format!("{}/bystander", self.dir)).ok().as_deref() != Some(b"do not touch") {
            return Err("a file it was never told about changed".into());
        }
        if self.to != To::Same && !matches!(self.from, In::Missing | In::Directory) {
            let now = fs::read(self.input()).ok();
            if now.as_deref() != Some(bytes) {
                return Err(format!("the input file changed to {:?}", now.map(|n| show_bytes(&n))));
            }
        }
        let mut names: Vec<String> = fs::read_dir(&self.dir)
            .expect("scratch")
            .map(|e| e.expect("scratch").file_name().to_string_lossy().into_owned())
            .collect();
        names.sort();
        for n in &names {
            let stdout = n == "stdout" && self.to == To::StdoutFile;
            let out = matches!(self.to, To::File | To::Directory | To::Same | To::PathPipe) && n == self.out_name;
            let link = (self.linked || self.from == In::PathPipe) && n == "link.hcl" || self.target().map_or(false, |t| t.ends_with(n.as_str()));
            let stdout = stdout || link;
            if n != "bystander" && n != self.in_name && !stdout && !out {
                return Err(format!("a file {:?} appeared", n));
            }
        }
        Ok(())
    }
}

/// What the simulator decided about the transfers of one run
#[derive(Clone, Debug, Default)]
struct Faults {
    seed: u64,
    read: Vec<i32>,
    read_cyc: Vec<i32>,
    write: Vec<i32>,
    write_cyc: Vec<i32>,
    open_in: usize,
    open_out: usize,
    read_fail: Option<(usize, i32, bool)>,
    write_fail: Option<(usize, i32, bool)>,
    open_in_fail: Option<i32>,
    open_out_fail: Option<i32>,
    kill: Option<(u64, char, usize)>,
}

const READ_ERRS: &[i32] =
    &[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT, libc::EOVERFLOW, libc::ECONNRESET];
const WRITE_ERRS: &[i32] =
    &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN, libc::ESTALE, libc::ENOMEM];
/// Not an error: the write takes nothing
const NOTHING: i32 = 0;
const OPEN_ERRS: &[i32] = &[
    libc::ENOENT,
    libc::EACCES,
    libc::EMFILE,
    libc::EISDIR,
    libc::ELOOP,
    libc::EIO,
    libc::ENXIO,
    libc::EPERM,
    libc::EROFS,
    libc::ENOSPC,
    libc::ETXTBSY,
    libc::ENFILE,
];

impl Faults {
    /// Short transfers and interruptions only
    fn draw(s: &Src, len: usize) -> Faults {
        let script = |s: &Src| -> Vec<i32> {
            if s.chance(1, 3) {
                return vec![];
            }
            if s.chance(1, 24) {
                // a burst of signals
                return vec![-1; *s.pick(&[12usize, 40, 150, 500])];
            }
            (0..1 + s.small(8))
                .map(|_| match s.below(3) {
                    0 => -1,
                    1 => 1 + s.below(16) as i32,
                    _ => 1 + s.below(400) as i32,
                })
                .collect()
        };
        let cyc = |s: &Src, len: usize| -> Vec<i32> {
            match s.below(5) {
                _ if len > 60_000 => vec![*s.pick(&[0, 512, 1023, 4096, 8191, 65_536])].into_iter().filter(|n| *n > 0).collect(),
                0 | 1 => vec![],
                2 if len < 3000 => vec![1],
                3 => (0..1 + s.usize(4)).map(|_| 1 + s.below(64) as i32).collect(),
                _ => vec![*s.pick(&[31, 32, 33, 512, 1023, 1024, 4096])],
            }
        };
        Faults {
            seed: s.below(1 << 32),
            read: script(s),
            read_cyc: cyc(s, len),
            write: script(s),
            // the output is some ten times as long
            write_cyc: cyc(s, len * 10),
            open_in: s.weighted(&[6, 1, 1]),
            open_out: s.weighted(&[6, 1, 1]),
            ..Faults::default()
        }
    }
    fn plan(&self, w: &Wiring) -> String {
        let list = |v: &[i32]| -> String {
            v.iter().map(|x| if *x < 0 { "i".to_string() } else { x.to_string() }).collect::<Vec<_>>().join(",")
        };
        let mut p = format!("seed={};", self.seed);
        let mut add = |k: &str, v: String| {
            if !v.is_empty() {
                p.push_str(&format!("{}={};", k, v));
            }
        };
        add("r", list(&self.read));
        add("rc", list(&self.read_cyc));
        add("w", list(&self.write));
        add("wc", list(&self.write_cyc));
        add("oi", list(&vec![-1; self.open_in]));
        add("oo", list(&vec![-1; self.open_out]));
        let f = |x: Option<(usize, i32, bool)>| x.map_or(String::new(), |(a, e, s)| format!("{}:{}:{}", a, e, s as u8));
        add("rf", f(self.read_fail));
        add("wf", f(self.write_fail));
        add("oif", self.open_in_fail.map_or(String::new(), |e| format!("0:{}:1", e)));
        add("oof", self.open_out_fail.map_or(String::new(), |e| format!("0:{}:1", e)));
        add("kill", self.kill.map_or(String::new(), |(k, h, n)| format!("{}:{}:{}", k, h, n)));
        if matches!(w.from, In::StdinFile | In::StdinPipe) {
            add("stdin", "1".into());
        }
        if matches!(w.to, To::StdoutFile | To::StdoutPipe) {
            add("stdout", "1".into());
        }
        p
    }
}

struct Seen {
    code: Option<i32>,
    signal: Option<i32>,
    /// What is at the output now
    out: Option<Vec<u8>>,
    /// Everything it said, apart from the output
    said: String,
    log: Vec<String>,
}

impl Seen {
    fn fired(&self, what: &str) -> bool {
        self.log.iter().any(|l| l.starts_with(what))
    }
    fn errno(&self, what: &str) -> Option<i32> {
        let k = format!("{} errno ", what);
        self.log.iter().find_map(|l| l.strip_prefix(&k).and_then(|r| r.split(' ').next()).and_then(|n| n.parse().ok()))
    }
}

/// A pipe that already holds everything, or none if it does not fit
fn full_pipe(bytes: &[u8]) -> Option<File> {
    let mut fds: [RawFd; 2] = [0; 2];
    if unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        return None;
    }
    let (r, mut w) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
    if bytes.len() > 60_000 {
        return None;
    }
    w.write_all(bytes).ok()?;
    Some(r)
}

/// Where the command finds the pipe that its output path leads to
const PIPE_FD: i32 = 200;

/// One execution of the command
fn execute(c: &Ctx, w: &Wiring, bytes: &[u8], f: &Faults) -> R<Seen> {
    let log = format!("{}/log", c.dir);
    let _ = fs::remove_file(&log);
    let stdout = format!("{}/stdout", w.dir);
    let mut cmd = Command::new(fecl());
    cmd.args(w.args()).current_dir(&w.dir).env_clear();
    cmd.env("LD_PRELOAD", shim()).env("SIM_PLAN", f.plan(w)).env("SIM_LOG", &log).env("RUST_BACKTRACE", "0");
    if w.from != In::Missing {
        cmd.env("SIM_IN", if w.from == In::PathPipe { w.named() } else { w.input() });
    }
    let file = || Stdio::from(File::open(w.input()).expect("scratch"));
    cmd.stdin(match w.from {
        In::StdinFile => file(),
        In::StdinPipe | In::PathPipe => full_pipe(bytes).map_or_else(file, Stdio::from),
        _ => Stdio::null(),
    });
    if w.to == To::StdoutFile {
        cmd.stdout(File::create(&stdout).expect("scratch"));
    } else {
        cmd.stdout(Stdio::piped());
    }
    cmd.stderr(Stdio::piped());
    let mut pipe = None;
    if w.to == To::PathPipe {
        let mut fds: [RawFd; 2] = [0; 2];
        assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
        let (r, end) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
        unsafe {
            cmd.pre_exec(move || match libc::dup2(end.as_raw_fd(), PIPE_FD) {
                PIPE_FD => Ok(()),
                _ => Err(std::io::Error::last_os_error()),
            });
        }
        pipe = Some(r);
    }
    let mut ch = cmd.spawn().expect("spawn");
    unsafe {
        let l = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
        libc::prlimit(ch.id() as i32, libc::RLIMIT_CPU, &l, std::ptr::null_mut());
    }
    drop(cmd);
    let collect = |mut r: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = r.read_to_end(&mut b);
            b
        })
    };
    let t = collect(Box::new(ch.stderr.take().unwrap()));
    let piped = pipe.map(|r| collect(Box::new(r)));
    let mut so = Vec::new();
    if let Some(mut p) = ch.stdout.take() {
        let _ = p.read_to_end(&mut so);
    }
    let se = t.join().unwrap();
    let st = ch.wait().expect("wait");
    // (the interposer makes its log when it is loaded; an empty one is a command that touched none
    // of the watched files)
    let log: Vec<String> = match fs::read_to_string(&log) {
        Ok(l) => l.lines().map(|l| l.to_string()).collect(),
        Err(e) => panic!("the interposer was not there for {:?} {:?}: {}", w, st, e),
    };
    for l in &log {
        c.ev(|| format!("  {}", l));
        c.tick();
        let k = if l.contains("EINTR") {
            if l.starts_with("read") {
                "fault: read interrupted"
            } else if l.starts_with("write") {
                "fault: write interrupted"
            } else {
                "fault: open interrupted"
            }
        } else if l.contains(" errno ") {
            if l.starts_with("read") {
                "fault: read failed"
            } else if l.starts_with("write") {
                "fault: write failed"
            } else if l.starts_with("open-in") {
                "fault: input open failed"
            } else {
                "fault: output open failed"
            }
        } else if l.ends_with("short") {
            if l.starts_with("read") {
                "fault: short read"
            } else {
                "fault: short write"
            }
        } else if l == "killed" {
            "fault: killed"
        } else {
            continue;
        };
        c.count(k);
        c.sig(k.as_bytes());
    }
    let (out, said) = match w.to {
        To::StdoutFile => (fs::read(&stdout).ok(), se),
        To::StdoutPipe => (Some(so), se),
        _ => {
            let mut s = so;
            s.extend(se);
            let out = match (w.to, piped) {
                (To::PathPipe, Some(t)) => Some(t.join().unwrap()),
                (To::Directory, _) => None,
                _ => fs::read(w.output()).ok(),
            };
            (out, s)
        }
    };
    let s = Seen { code: st.code(), signal: st.signal(), out, said: String::from_utf8_lossy(&said).into_owned(), log };
    c.ev(|| format!("  exit {:?}, signal {:?}, output {:?} bytes, says {:?}", s.code, s.signal, s.out.as_ref().map(|o| o.len()), cut(&s.said, 300)));
    Ok(s)
}

// ---------------------------------------------------------------------------------------------
// What is printed, independent of the order of maps

struct Printed<'p> {
    t: &'p [u8],
    at: usize,
}

impl<'p> Printed<'p> {
    fn ws(&mut self) {
        while self.at < self.t.len() && (self.t[self.at] == b' ' || self.t[self.at] == b'\n') {
            self.at += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.t.get(self.at).unwrap_or(&0)
    }
    fn value(&mut self, o: &mut String) -> Result<(), String> {
        match self.peek() {
            b'"' => {
                let from = self.at;
                self.at += 1;
                while self.at < self.t.len() && self.t[self.at] != b'"' {
                    self.at += if self.t[self.at] == b'\\' { 2 } else { 1 };
                }
                self.at += 1;
                let s = self.t.get(from..self.at).ok_or("open string")?;
                o.push_str(&String::from_utf8_lossy(s));
                Ok(())
            }
            b'(' | b'[' | b'{' => self.group(o),
            0 => Err("ends early".into()),
            _ => {
                let from = self.at;
                while self.at < self.t.len() && !b" ,:(){}[]\n\"".contains(&self.t[self.at]) {
                    self.at += 1;
                }
                if from == self.at {
                    return Err(format!("unexpected byte {} at {}", self.t[self.at], self.at));
                }
                o.push_str(&String::from_utf8_lossy(&self.t[from..self.at]));
                if matches!(self.peek(), b'(' | b'[' | b'{') {
                    self.group(o)?;
                }
                Ok(())
            }
        }
    }
    fn group(&mut self, o: &mut String) -> Result<(), String> {
        let open = self.peek();
        let close = match open {
            b'(' => b')',
            b'[' => b']',
            _ => b'}',
        };
        self.at += 1;
        let mut items = Vec::new();
        while self.peek() != close {
            let mut i = String::new();
            self.value(&mut i)?;
            if self.peek() == b':' {
                self.at += 1;
                i.push(':');
                self.value(&mut i)?;
            }
            items.push(i);
            match self.peek() {
                b',' => self.at += 1,
                x if x == close => {}
                x => return Err(format!("unexpected byte {} at {}", x, self.at)),
            }
        }
        self.at += 1;
        if open == b'{' {
            items.sort();
        }
        o.push(open as char);
        o.push_str(&items.join(","));
        o.push(close as char);
        Ok(())
    }
}

fn normal(t: &[u8]) -> Result<String, String> {
    let mut p = Printed { t, at: 0 };
    let mut o = String::new();
    p.value(&mut o)?;
    if p.peek() != 0 || p.at < t.len() {
        return Err(format!("something follows at {}", p.at));
    }
    Ok(o)
}

/// The output is the complete result and nothing else
fn complete(want: &str, got: Option<&[u8]>) -> Result<(), String> {
    let got = got.ok_or("there is no output")?;
    if got == want.as_bytes() {
        return Ok(());
    }
    let w = match normal(want.as_bytes()) {
        Ok(w) => w,
        // printed in some other way: whatever the order of its maps, it has these bytes
        Err(_) => {
            let sorted = |t: &[u8]| {
                let mut v = t.to_vec();
                v.sort();
                v
            };
            return match sorted(got) == sorted(want.as_bytes()) {
                true => Ok(()),
                false => Err(format!("expected {} bytes {}, got {} bytes {}", want.len(), cut(want, 300), got.len(), show_bytes(got))),
            };
        }
    };
    let g = normal(got).map_err(|e| format!("the output is not a whole structure ({}): {}", e, show_bytes(got)))?;
    if g != w || got.len() != want.len() {
        return Err(format!("expected {} bytes {}, got {} bytes {}", want.len(), cut(&w, 300), got.len(), cut(&g, 300)));
    }
    Ok(())
}

/// What the command must print, or none if it must fail
fn expected(c: &Ctx, bytes: &[u8], merge: bool, doc: Option<&docv::Doc>) -> R<Option<String>> {
    let r = match values_slice(bytes, if merge { MERGE } else { None }) {
        Ok(r) => r,
        Err(p) => return fail("panic", format!("loading the input panics: {:?}", p)),
    };
    if let Some(d) = doc {
        let m = docv::merge(&d.map);
        match (&r, merge, &m) {
            (Ok(v), false, _) => {
                if let Err(e) = cmp_map(&d.map, v, Form::Unmerged, "") {
                    return fail("mismatch", format!("what would be printed is not the document: {}", e));
                }
            }
            (Ok(v), true, Ok(m)) => {
                if let Err(e) = cmp_map(m, v, Form::Merged, "") {
                    return fail("mismatch", format!("what would be printed is not the document: {}", e));
                }
            }
            (Err(_), true, Err(_)) => {}
            _ => return fail("mismatch", format!("loading gives {:?}, the model {:?}", r.is_ok(), m.is_ok())),
        }
    }
    c.count(if r.is_ok() { "inputs that can be printed" } else { "inputs that cannot be printed" });
    match r {
        Ok(v) => match lib(|| format!("{:#?}\n", v)) {
            Ok(t) => Ok(Some(t)),
            Err(p) => fail("panic", format!("printing panics: {:?}", p)),
        },
        Err(_) => Ok(None),
    }
}

fn draw_doc(c: &Ctx) -> docv::Doc {
    let s = &c.s;
    let mut cfg = Cfg::draw(s);
    cfg.coherent = s.chance(3, 4);
    cfg.many = s.chance(1, 3);
    cfg.big &= s.chance(1, 2);
    cfg.depth = cfg.depth.min(4);
    let mut d = docv::draw_with(s, cfg);
    if s.chance(1, 100) {
        d.grow(s, if s.chance(1, 8) { 1_200_000 } else { 140_000 });
        c.count("documents of many kilobytes");
    }
    d
}

fn judge_success(w: &Wiring, want: &Option<String>, seen: &Seen) -> R {
    match want {
        None => fail("accepted", "the command succeeds on a document that cannot be printed"),
        Some(t) => match complete(t, seen.out.as_deref()) {
            Ok(()) => Ok(()),
            Err(e) => fail("output", format!("the command succeeds ({:?} to {:?}) but {}", w.from, w.to, e)),
        },
    }
}

pub fn c10(c: &Ctx) -> R {
    ready();
    let s = &c.s;
    let mut old: Option<Vec<u8>> = None;
    for i in 0..1 + s.usize(2) {
        let d = draw_doc(c);
        let bytes = d.text.clone().into_bytes();
        let mut w = Wiring::draw(c, false);
        if i > 0 && old.is_some() {
            w.old = old.clone();
        }
        let mut f = Faults::draw(s, bytes.len());
        if s.chance(1, 12) {
            f.write_fail = Some((s.usize(bytes.len() * 6 + 40), NOTHING, false));
        }
        c.ev(|| format!("document {}", show_bytes(&bytes)));
        c.ev(|| format!("command {:?}, {:?} to {:?}, old output {:?} bytes", w.args(), w.from, w.to, w.old.as_ref().map(|o| o.len())));
        c.ev(|| format!("plan {}", f.plan(&w)));
        let want = expected(c, &bytes, w.merge, Some(&d))?;
        w.lay_out(&bytes);
        let seen = execute(c, &w, &bytes, &f)?;
        c.sig(format!("{:?}{:?}{}{}", w.from, w.to, w.merge, w.old.is_some()).as_bytes());
        let mut sh = String::new();
        docv::shape(&d.map, &mut sh);
        c.sig(sh.as_bytes());
        match (seen.code, &want) {
            (Some(0), _) => judge_success(&w, &want, &seen)?,
            (Some(_), None) => {}
            // a write that takes nothing may be taken for a failure
            (Some(_), Some(_)) if seen.errno("write").is_some() => {}
            (code, Some(_)) => {
                return fail(
                    "refused",
                    format!("nothing failed, yet the command ends with {:?}, signal {:?}: {}", code, seen.signal, cut(&seen.said, 300)),
                )
            }
            (None, None) => return fail("died", format!("the command dies with signal {:?}", seen.signal)),
        }
        w.bystanders(&bytes).or_else(|e| fail("bystander", e))?;
        if seen.log.iter().any(|l| l.contains("EINTR") || l.ends_with("short")) || matches!((w.from, w.to), (In::File, To::File)) {
            c.nontrivial();
        }
        c.sample(|| format!("{:?} on {} with {}", w.args(), show_bytes(&bytes), f.plan(&w)));
        old = seen.out;
    }
    Ok(())
}

fn strerror(e: i32) -> String {
    let t = std::io::Error::from_raw_os_error(e).to_string();
    t.split(" (os error").next().unwrap_or("").to_string()
}

pub fn c11(c: &Ctx) -> R {
    ready();
    let s = &c.s;
    let d = draw_doc(c);
    let mut bytes = d.text.clone().into_bytes();
    let mut w = Wiring::draw(c, false);
    let mut f = Faults::draw(s, bytes.len());
    let (mut damaged, mut none) = (false, false);
    for _ in 0..1 + s.weighted(&[6, 1]) {
        match s.below(8) {
            0 | 1 => {
                let at = match s.below(4) {
                    0 => 0,
                    1 => bytes.len(),
                    _ => s.usize(bytes.len() + 1),
                };
                f.read_fail = Some((at, *s.pick(READ_ERRS), s.chance(1, 2)));
            }
            2 | 3 => {
                let at = if s.chance(1, 3) { 0 } else { s.usize(bytes.len() * 6 + 40) };
                f.write_fail = Some((at, *s.pick(WRITE_ERRS), s.chance(1, 2)));
                if s.chance(1, 8) {
                    f.write_fail = Some((at, NOTHING, false));
                }
            }
            4 => f.open_in_fail = Some(*s.pick(OPEN_ERRS)),
            5 => f.open_out_fail = Some(*s.pick(OPEN_ERRS)),
            6 if !damaged && s.chance(1, 2) => {
                bytes = crate::refuse::broken_values(c, &d).into_bytes();
                damaged = true;
                none = true;
            }
            6 => {
                crate::damage::damage(c, &mut bytes);
                damaged = true;
                none = false;
            }
            _ => match s.below(4) {
                0 => w.from = In::Missing,
                1 => w.from = In::Directory,
                2 => w.to = To::NoDirectory,
                _ => w.to = To::Directory,
            },
        }
    }
    if w.to == To::Same && w.from != In::File {
        w.to = To::File;
    }
    c.ev(|| format!("document {}", show_bytes(&bytes)));
    c.ev(|| format!("command {:?}, {:?} to {:?}, old output {:?} bytes", w.args(), w.from, w.to, w.old.as_ref().map(|o| o.len())));
    c.ev(|| format!("plan {}", f.plan(&w)));
    let want = if none { None } else { expected(c, &bytes, w.merge, if damaged { None } else { Some(&d) })? };
    w.lay_out(&bytes);
    let seen = execute(c, &w, &bytes, &f)?;
    c.sig(format!("{:?}{:?}{}{}", w.from, w.to, w.merge, w.old.is_some()).as_bytes());
    c.sig(format!("{:?}", seen.log.iter().filter(|l| l.contains("errno")).collect::<Vec<_>>()).as_bytes());

    // what went wrong, in the order in which it is met
    let real_in = matches!(w.from, In::Missing | In::Directory);
    let open_in = seen.errno("open-in");
    let read = seen.errno("read");
    let read_forever = read.is_some() && f.read_fail.map_or(false, |x| x.2);
    let open_out = seen.errno("open-out");
    let real_out = matches!(w.to, To::NoDirectory | To::Directory);
    let write = seen.errno("write");
    let write_forever = write.is_some() && f.write_fail.map_or(false, |x| x.2);
    let before = real_in || open_in.is_some() || read_forever || want.is_none();
    let must_fail = before || real_out || open_out.is_some() || write_forever;
    let may_fail = must_fail || read.is_some() || write.is_some();
    if may_fail {
        c.nontrivial();
        if real_in {
            c.count("fault: input missing or a directory");
        }
        if real_out {
            c.count("fault: output cannot be created");
        }
        if want.is_none() && damaged {
            c.count("fault: damaged input");
        }
    }
    match seen.code {
        None => return fail("died", format!("the command dies with signal {:?}", seen.signal)),
        Some(0) => {
            if must_fail {
                return fail(
                    "success",
                    format!("the command reports success although something failed: {:?}", seen.log.iter().filter(|l| l.contains("errno")).collect::<Vec<_>>()),
                );
            }
            judge_success(&w, &want, &seen)?;
        }
        Some(code) => {
            if !may_fail {
                return fail("refused", format!("nothing failed, yet the command exits with {}: {}", code, cut(&seen.said, 300)));
            }
            // the message; it may have gone to the standard output that is also the output
            let mut said = seen.said.clone();
            if matches!(w.to, To::StdoutFile | To::StdoutPipe) {
                said.push_str(&String::from_utf8_lossy(seen.out.as_deref().unwrap_or(&[])));
            }
            let why: Vec<i32> = [open_in, read, open_out, write].iter().flatten().copied().filter(|e| *e != NOTHING).collect();
            let silent_ok = write.is_some() && matches!(w.to, To::StdoutFile | To::StdoutPipe);
            if said.trim().is_empty() {
                return fail("silent", format!("the command exits with {} and says nothing", code));
            }
            let os: Vec<i32> = match (w.from, w.to) {
                _ if !why.is_empty() => why,
                (In::Missing, _) => vec![libc::ENOENT],
                (In::Directory, _) => vec![libc::EISDIR],
                // what is wrong with the text has no fixed words
                _ if want.is_none() => vec![],
                (_, To::NoDirectory) => vec![libc::ENOENT],
                (_, To::Directory) => vec![libc::EISDIR],
                _ => vec![],
            };
            let named = os.iter().any(|e| said.contains(&format!("os error {}", e)) || said.contains(&strerror(*e)));
            if !os.is_empty() && !named && !silent_ok && !(want.is_none() && read.is_none() && open_in.is_none() && !real_in) {
                return fail("message", format!("the command does not say that {:?} happened: {}", os.iter().map(|e| strerror(*e)).collect::<Vec<_>>(), cut(&said, 300)));
            }
        }
    }
    // until everything is read and parsed the output is not touched
    let failed = seen.code != Some(0);
    if failed && (before || read.is_some()) {
        let old = match w.to {
            To::File => w.old.clone(),
            To::Same => Some(bytes.clone()),
            To::PathPipe => Some(Vec::new()),
            To::StdoutFile | To::StdoutPipe => None,
            _ => None,
        };
        if matches!(w.to, To::File | To::Same | To::PathPipe | To::NoDirectory) && seen.out != old {
            return fail(
                "early",
                format!(
                    "the input was never read and parsed, yet the output changed from {:?} to {:?}",
                    old.map(|o| show_bytes(&o)),
                    seen.out.map(|o| show_bytes(&o))
                ),
            );
        }
    }
    if failed && open_out.is_some() && !seen.fired("open-out ok") && w.to == To::File && seen.out != w.old {
        return fail("early", "the output was never opened, yet it changed");
    }
    w.bystanders(&bytes).or_else(|e| fail("bystander", e))?;
    c.sample(|| format!("{:?} on {} with {}: exit {:?}", w.args(), show_bytes(&bytes), f.plan(&w), seen.code));
    Ok(())
}

pub fn c12(c: &Ctx) -> R {
    ready();
    let s = &c.s;
    let d = draw_doc(c);
    let bytes = d.text.clone().into_bytes();
    let w = Wiring::draw(c, true);
    let mut f = Faults::draw(s, bytes.len());
    c.ev(|| format!("document {}", show_bytes(&bytes)));
    c.ev(|| format!("command {:?}, {:?} to {:?}, old output {:?} bytes", w.args(), w.from, w.to, w.old.as_ref().map(|o| o.len())));
    c.ev(|| format!("plan {}", f.plan(&w)));
    let want = expected(c, &bytes, w.merge, Some(&d))?;
    // undisturbed, to know the result and the events
    w.lay_out(&bytes);
    let whole = execute(c, &w, &bytes, &f)?;
    match (whole.code, &want) {
        (Some(0), _) => judge_success(&w, &want, &whole)?,
        (Some(_), None) => {}
        _ => return fail("refused", format!("nothing failed, yet the command ends with {:?} {:?}", whole.code, whole.signal)),
    }
    let old = match w.to {
        To::File => w.old.clone(),
        _ => Some(Vec::new()),
    };
    // what a failing command says on the standard output is no result, but may be there in part
    let printed = want.is_some() || w.to != To::File;
    let text: Vec<u8> = if printed { whole.out.clone().unwrap_or_default() } else { Vec::new() };
    // reads, writes and opens are logged; closing and ending may follow
    let events = whole.log.len() as u64 + 2;
    let writes: Vec<u64> = (0..whole.log.len()).filter(|i| whole.log[*i].starts_with("write") || whole.log[*i].starts_with("open-out")).map(|i| i as u64 + 1).collect();
    let mut left: Option<Vec<u8>> = None;
    let kills = 1 + s.usize(3);
    let mut state = w.old.clone();
    for i in 0..kills {
        let at = if !writes.is_empty() && s.chance(2, 3) { *s.pick(&writes) } else { 1 + s.below(events) };
        let how = *s.pick(&['b', 'a', 'm', 'm']);
        f.kill = Some((at, how, s.usize(400)));
        c.ev(|| format!("kill {:?}", f.kill));
        // the next victim may find what the last one left
        let mut w2 = w.clone();
        if i > 0 && w.to == To::File && s.chance(1, 2) {
            w2.old = left.clone();
        }
        state = w2.old.clone();
        w2.lay_out(&bytes);
        let seen = execute(c, &w2, &bytes, &f)?;
        c.sig(format!("{:?}{:?}{:?}{}", w.from, w.to, f.kill, w2.old.is_some()).as_bytes());
        if seen.signal == Some(libc::SIGKILL) {
            c.nontrivial();
        }
        let before = if w.to == To::File { w2.old.clone() } else { old.clone() };
        let same = seen.out == before;
        let prefix = printed && seen.out.as_ref().map_or(false, |o| text.starts_with(o));
        if !same && !prefix {
            return fail(
                "debris",
                format!(
                    "killed at event {} ({}), the output is {:?}, neither what it was nor the front of the result",
                    at,
                    how,
                    seen.out.as_ref().map(|o| show_bytes(o))
                ),
            );
        }
        w2.bystanders(&bytes).or_else(|e| fail("bystander", format!("killed at event {} ({}): {}", at, how, e)))?;
        left = seen.out;
    }
    // again, to the end, on what the killed run left; the hash seed is another one
    let mut w3 = w.clone();
    if w.to == To::File {
        w3.old = left.clone().or(state);
        if left.is_none() {
            w3.old = None;
        }
    }
    let g = Faults::draw(s, bytes.len());
    c.ev(|| format!("again, plan {}", g.plan(&w3)));
    w3.lay_out(&bytes);
    let again = execute(c, &w3, &bytes, &g)?;
    match (again.code, &want) {
        (Some(0), _) => judge_success(&w3, &want, &again)?,
        (Some(_), None) => {}
        _ => return fail("refused", format!("run again after a kill, the command ends with {:?}: {}", again.code, cut(&again.said, 300))),
    }
    w3.bystanders(&bytes).or_else(|e| fail("bystander", e))?;
    c.sample(|| format!("{:?} on {} killed {} times, last at {:?}", w.args(), show_bytes(&bytes), kills, f.kill));
    Ok(())
}
