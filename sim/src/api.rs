//! Calls into the library, and printable canonical forms of what they return
use crate::ctx::{fail, Ctx, R};
use crate::env::{lib, out, set_hash_seed, Panicked};
use crate::reader::{call, Plan, SimReader};
use ferrous_chloride::parser::Body;
use ferrous_chloride::value::{from_reader, from_slice, from_str, MapValues, Value};
use ferrous_chloride::{parse_reader, parse_slice, parse_str, Error, KeyValuePairs, MergeBehaviour};

pub type Res<T> = Result<Result<T, Error>, Panicked>;

pub const MERGE: Option<MergeBehaviour> = Some(MergeBehaviour::Error);

pub fn tree_stream(r: SimReader) -> Res<Body<'static>> {
    lib(|| call(r, |b| parse_reader(b), |r| parse_reader(r)))
}
pub fn values_stream(r: SimReader, m: Option<MergeBehaviour>) -> Res<MapValues<'static>> {
    lib(|| call(r, |b| from_reader(b, m), |r| from_reader(r, m)))
}
pub fn tree_slice(b: &[u8]) -> Res<Body> {
    lib(|| parse_slice(b))
}
pub fn tree_str(s: &str) -> Res<Body> {
    lib(|| parse_str(s))
}
pub fn values_slice(b: &[u8], m: Option<MergeBehaviour>) -> Res<MapValues> {
    lib(|| from_slice(b, m))
}
pub fn values_str(s: &str, m: Option<MergeBehaviour>) -> Res<MapValues> {
    lib(|| from_str(s, m))
}

/// The value, when the input is valid and nothing failed
pub fn must<T>(what: &str, r: Res<T>) -> R<T> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => fail("rejected", format!("{} refuses a valid document: {}", what, cut(&format!("{:?}", e), 300))),
        Err(p) => fail("panic", format!("{} panics: {:?}", what, p)),
    }
}

pub fn guard<T>(what: &str, r: Result<T, Panicked>) -> R<T> {
    r.or_else(|p| fail("panic", format!("{} panics: {:?}", what, p)))
}

pub fn cut(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

/// Independent of hash order
pub fn canon_map(m: &MapValues, o: &mut String) {
    match m {
        KeyValuePairs::Unmerged(v) => {
            o.push('<');
            for (k, v) in v {
                o.push_str(&format!("{:?}=", k));
                canon_value(v, o);
                o.push(';');
            }
            o.push('>');
        }
        KeyValuePairs::Merged(h) => {
            let mut all: Vec<String> = h
                .iter()
                .map(|(k, v)| {
                    let mut s = format!("{:?}=", k);
                    canon_value(v, &mut s);
                    s
                })
                .collect();
            all.sort();
            o.push('{');
            o.push_str(&all.join(";"));
            o.push('}');
        }
    }
}

pub fn canon_value(v: &Value, o: &mut String) {
    match v {
        Value::List(l) => {
            o.push('[');
            l.iter().for_each(|v| {
                canon_value(v, o);
                o.push(',');
            });
            o.push(']');
        }
        Value::Object(l) => {
            o.push('(');
            l.iter().for_each(|m| {
                canon_map(m, o);
                o.push(',');
            });
            o.push(')');
        }
        Value::Block(b) => match b {
            KeyValuePairs::Unmerged(v) => {
                o.push_str("B<");
                for (k, m) in v {
                    o.push_str(&format!("{:?}:", k));
                    canon_map(m, o);
                }
                o.push('>');
            }
            KeyValuePairs::Merged(h) => {
                let mut all: Vec<String> = h
                    .iter()
                    .map(|(k, m)| {
                        let mut s = format!("{:?}:", k);
                        canon_map(m, &mut s);
                        s
                    })
                    .collect();
                all.sort();
                o.push_str("B{");
                o.push_str(&all.join(";"));
                o.push('}');
            }
        },
        other => o.push_str(&format!("{:?}", other)),
    }
}

pub fn canon_err(e: &Error) -> String {
    cut(&format!("{:?}", e), 2000)
}

/// Canonical form of any outcome
pub fn canon_tree(r: &Res<Body>) -> String {
    out(|| match r {
        Ok(Ok(b)) => format!("ok {:?}", b),
        Ok(Err(e)) => format!("err {}", canon_err(e)),
        Err(p) => format!("panic {:?}", p),
    })
}
pub fn canon_values(r: &Res<MapValues>) -> String {
    out(|| match r {
        Ok(Ok(m)) => {
            let mut o = String::from("ok ");
            canon_map(m, &mut o);
            o
        }
        Ok(Err(e)) => format!("err {}", canon_err(e)),
        Err(p) => format!("panic {:?}", p),
    })
}

/// Run on a thread of its own, whose hash maps are seeded with `seed`
pub fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(crate::run::STACK)
            .spawn_scoped(s, move || {
                set_hash_seed(seed);
                f()
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub fn log_plan(c: &Ctx, text: &[u8], p: &Plan) {
    c.ev(|| format!("document {}", crate::text::show_bytes(text)));
    c.ev(|| format!("stream {:?}", p));
}
