//! Documents of the value grammar, generated together with what they mean, and the merge model
use crate::src::Src;
use crate::docp::some;
use crate::text::{Cfg, Mark, Out, K};
use ferrous_chloride::value::{MapValues, Value};
use ferrous_chloride::KeyValuePairs;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Va {
    Null,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    List(Vec<Va>),
    /// Maps written under one key
    Maps(Vec<Map>),
    /// Labelled blocks written under one key
    Blocks(Vec<(Vec<String>, Map)>),
}

/// Entries in source order; the flag tells a quoted key
pub type Map = Vec<(String, bool, Va)>;

pub struct Doc {
    pub text: String,
    pub map: Map,
    pub marks: Vec<Mark>,
}

pub fn draw(s: &Src) -> Doc {
    let cfg = Cfg::draw(s);
    draw_with(s, cfg)
}

impl Doc {
    /// Some documents are longer than any buffer
    pub fn grow(&mut self, s: &Src, most: usize) {
        let f = crate::text::filler(s, most);
        self.text.push_str(&f.text);
        self.map.extend(f.entries.into_iter().map(|(k, v)| (k, false, Va::Str(v))));
    }
}

pub fn draw_with(s: &Src, cfg: Cfg) -> Doc {
    let mut o = Out::new(cfg);
    o.ws(s);
    let map = entries(s, &mut o, 0, true);
    Doc { text: o.t, map, marks: o.marks }
}

fn entries(s: &Src, o: &mut Out, depth: usize, top: bool) -> Map {
    let width = o.cfg.width * if top { 2 } else { 1 };
    let n = if o.cfg.many && depth < 2 { s.usize(width + 1) } else { some(s, o, width, depth) };
    let mut v: Map = Vec::new();
    for i in 0..n {
        o.iw(s);
        let e = attribute(s, o, depth, &v);
        v.push(e);
        o.iw(s);
        if top && i + 1 == n && !o.must_eol && s.chance(1, 4) {
            break;
        }
        let (at, heredoc) = (o.t.len(), o.must_eol);
        if s.chance(1, 4) {
            o.ws(s);
            o.push(",");
            o.ws(s);
        } else {
            o.nl(s);
        }
        if !heredoc && i + 1 < n {
            o.mark(K::Gap, at);
        }
    }
    v
}

fn attribute(s: &Src, o: &mut Out, depth: usize, before: &Map) -> (String, bool, Va) {
    let nest = depth < o.cfg.depth;
    if o.cfg.coherent && !s.chance(1, 32) {
        // what may follow depends on what the key holds already
        let mut name = o.pick_name(s);
        let have = before.iter().find(|e| e.0 == name).map(|e| &e.2);
        match have {
            Some(Va::Maps(_)) => {
                if s.chance(1, 2) {
                    o.push(&name);
                    o.iw(s);
                    let m = braces(s, o, depth);
                    return (name, false, Va::Maps(vec![m]));
                }
                let q = s.chance(1, 3);
                let at = o.t.len();
                o.push(&if q { format!("\"{}\"", name) } else { name.clone() });
                o.mark(K::Name, at);
                o.iw(s);
                o.tok(K::Eq, "=");
                o.iw(s);
                let at = o.t.len();
                let m = braces(s, o, depth);
                o.mark(K::Value, at);
                return (name, q, Va::Maps(vec![m]));
            }
            Some(Va::Blocks(_)) => {
                o.push(&name);
                return block(s, o, depth, name, before);
            }
            Some(_) => name = format!("{}_{}", name, before.len()),
            None => {}
        }
        if o.cfg.blocks && nest && s.chance(1, 2) {
            o.push(&name);
            return block(s, o, depth, name, before);
        }
        let q = o.cfg.quotedkeys && s.chance(1, 2);
        let at = o.t.len();
        o.push(&if q { format!("\"{}\"", name) } else { name.clone() });
        o.mark(K::Name, at);
        o.iw(s);
        o.tok(K::Eq, "=");
        o.iw(s);
        let at = o.t.len();
        let v = value(s, o, depth);
        o.mark(K::Value, at);
        return (name, q, v);
    }
    if o.cfg.blocks && nest && s.chance(2, 5) {
        let name = o.name(s);
        return block(s, o, depth, name, &Vec::new());
    }
    let at = o.t.len();
    let (name, quoted) = if o.cfg.quotedkeys && s.chance(1, 2) {
        if s.chance(1, 2) {
            let n = o.pick_name(s);
            o.push(&format!("\"{}\"", n));
            (n, true)
        } else {
            (o.quoted(s, false), true)
        }
    } else {
        (o.name(s), false)
    };
    o.mark(K::Name, at);
    o.iw(s);
    o.tok(K::Eq, "=");
    o.iw(s);
    let at = o.t.len();
    let v = value(s, o, depth);
    o.mark(K::Value, at);
    (name, quoted, v)
}

/// The rest of a block, whose labels fit what the key holds already
fn block(s: &Src, o: &mut Out, depth: usize, name: String, before: &Map) -> (String, bool, Va) {
    let mut have: Vec<&Vec<String>> = Vec::new();
    let (mut maps, mut blocks) = (false, false);
    for (k, _, v) in before {
        match v {
            Va::Blocks(b) if *k == name => {
                blocks = true;
                have.extend(b.iter().map(|x| &x.0));
            }
            Va::Maps(_) if *k == name => maps = true,
            _ => {}
        }
    }
    let mut labels = Vec::new();
    if !maps && (blocks || (o.cfg.labels && s.chance(2, 3))) {
        let mut n = if o.cfg.wide && s.chance(1, 8) { s.usize(20) } else { s.small(2) } + 1;
        let plain = |l: &&&Vec<String>| l.iter().all(|x| x.chars().all(|c| c.is_alphanumeric() || c == ' '));
        if let (Some(l), true) = (have.iter().rev().find(plain), s.chance(1, 6)) {
            // the labels of an earlier block, perhaps with more behind
            for x in l.iter() {
                o.iw(s);
                o.push(&format!("\"{}\"", x));
                labels.push(x.clone());
            }
            n = s.usize(2);
        } else if let (Some(l), true) = (have.iter().rev().find(plain), s.chance(1, 8)) {
            // other labels that read the same when written one after the other
            let mut l: Vec<String> = l.to_vec();
            let i = s.usize(l.len());
            match s.below(4) {
                0 if l.len() > 1 => {
                    let j = i.min(l.len() - 2);
                    let x = l.remove(j + 1);
                    let sep = *s.pick(&["", " "]);
                    l[j] = format!("{}{}{}", l[j], sep, x);
                }
                1 => l.insert(s.usize(l.len() + 1), String::new()),
                _ => {
                    let cs: Vec<char> = l[i].chars().collect();
                    let at = s.usize(cs.len() + 1);
                    l[i] = cs[..at].iter().collect();
                    l.insert(i + 1, cs[at..].iter().collect());
                }
            }
            for x in l {
                o.iw(s);
                o.push(&format!("\"{}\"", x));
                labels.push(x);
            }
            n = 0;
        }
        for _ in 0..n {
            o.iw(s);
            labels.push(if s.chance(1, 2) {
                // from a small pool, so that labels repeat
                let l = s.pick(&["a", "b", "l", "a b", "", "A", "L"]).to_string();
                o.push(&format!("\"{}\"", l));
                l
            } else {
                o.quoted(s, false)
            });
        }
        // two blocks of the same labels are what merging refuses
        if have.contains(&&labels) && !s.chance(1, 6) {
            let l = format!("n{}", have.len());
            o.iw(s);
            o.push(&format!("\"{}\"", l));
            labels.push(l);
        }
    }
    o.iw(s);
    let m = braces(s, o, depth);
    let v = if labels.is_empty() { Va::Maps(vec![m]) } else { Va::Blocks(vec![(labels, m)]) };
    (name, false, v)
}

fn braces(s: &Src, o: &mut Out, depth: usize) -> Map {
    o.tok(K::Bracket, "{");
    o.ws(s);
    let m = entries(s, o, depth + 1, false);
    o.tok(K::Bracket, "}");
    m
}

fn value(s: &Src, o: &mut Out, depth: usize) -> Va {
    let agg = if o.cfg.aggregates && depth < o.cfg.depth { 3 } else { 0 };
    match s.weighted(&[4, 2, 1, 5, if o.cfg.heredocs { 4 } else { 0 }, agg, agg]) {
        0 => {
            let t = o.number(s);
            number(&t)
        }
        1 => {
            let b = s.chance(1, 2);
            o.push(if b { "true" } else { "false" });
            Va::Bool(b)
        }
        2 => {
            o.push("null");
            Va::Null
        }
        3 => Va::Str(o.quoted(s, true)),
        4 => Va::Str(o.heredoc(s)),
        5 => {
            o.tok(K::Bracket, "[");
            o.ws(s);
            let n = some(s, o, o.cfg.width, depth + 1);
            let depth = if n > 20 { 1000 } else { depth };
            let mut v = Vec::new();
            for i in 0..n {
                v.push(value(s, o, depth + 1));
                o.ws(s);
                if i + 1 < n {
                    o.tok(K::Comma, ",");
                    o.ws(s);
                } else if s.chance(1, 3) {
                    o.push(",");
                    o.ws(s);
                }
            }
            o.tok(K::Bracket, "]");
            Va::List(v)
        }
        _ => Va::Maps(vec![braces(s, o, depth)]),
    }
}

/// A whole number that fits is an integer, everything else is floating point
fn number(t: &str) -> Va {
    let float = t.contains(|c| c == '.' || c == 'e' || c == 'E');
    if !float {
        let digits = t.trim_start_matches(|c| c == '+' || c == '-');
        if let Ok(v) = digits.parse::<i128>() {
            let v = if t.starts_with('-') { -v } else { v };
            if v >= i64::MIN as i128 && v <= i64::MAX as i128 {
                return Va::Int(v as i64);
            }
        }
    }
    Va::Float(t.parse().expect("float"))
}

pub fn scalars(m: &Map) -> usize {
    m.iter().map(|x| scalars_v(&x.2)).sum()
}

fn scalars_v(v: &Va) -> usize {
    match v {
        Va::List(l) => l.iter().map(scalars_v).sum(),
        Va::Maps(m) => m.iter().map(scalars).sum(),
        Va::Blocks(b) => b.iter().map(|x| scalars(&x.1)).sum(),
        _ => 1,
    }
}

// ---------------------------------------------------------------------------------------------
// The model of merging

/// Why merging must fail, or the merged configuration (keys in order of first appearance; the
/// flag of the first spelling)
pub fn merge(m: &Map) -> Result<Map, String> {
    let mut r: Map = Vec::new();
    for (k, q, v) in m {
        let v = merge_v(v)?;
        match r.iter_mut().find(|x| x.0 == *k) {
            None => r.push((k.clone(), *q, v)),
            Some((_, _, have)) => match (have, v) {
                (Va::Maps(a), Va::Maps(b)) => a.extend(b),
                (Va::Blocks(a), Va::Blocks(b)) => {
                    for (l, body) in b {
                        if a.iter().any(|x| x.0 == l) {
                            return Err(format!("block {} {:?} repeats", k, l));
                        }
                        a.push((l, body));
                    }
                }
                _ => return Err(format!("key {:?} repeats", k)),
            },
        }
    }
    Ok(r)
}

fn merge_v(v: &Va) -> Result<Va, String> {
    Ok(match v {
        Va::List(l) => Va::List(l.iter().map(merge_v).collect::<Result<_, _>>()?),
        Va::Maps(m) => Va::Maps(m.iter().map(merge).collect::<Result<_, _>>()?),
        Va::Blocks(b) => {
            let mut out: Vec<(Vec<String>, Map)> = Vec::new();
            for (l, m) in b {
                if out.iter().any(|x| x.0 == *l) {
                    return Err(format!("labels {:?} repeat", l));
                }
                out.push((l.clone(), merge(m)?));
            }
            Va::Blocks(out)
        }
        other => other.clone(),
    })
}

// ---------------------------------------------------------------------------------------------

fn cut(s: String) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s
    }
}

/// How the collections at one level must be stored
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    Unmerged,
    Merged,
    /// This level unmerged in any order, the levels below merged
    Split,
    /// This level unmerged in order, the levels below merged or not
    Mixed,
    /// Merged or not
    Either,
}

/// The real collection holds exactly the expected entries. Merged collections have no order.
pub fn cmp_map(e: &Map, a: &MapValues, form: Form, path: &str) -> Result<(), String> {
    if a.len() != e.len() {
        return Err(format!(
            "at {}: expected {} entries, got {}: expected {}, got {}",
            path,
            e.len(),
            a.len(),
            cut(format!("{:?}", e)),
            cut(format!("{:?}", a))
        ));
    }
    match (a, form) {
        (KeyValuePairs::Merged(_), Form::Either) => cmp_map(e, a, Form::Merged, path),
        (KeyValuePairs::Unmerged(_), Form::Either) => cmp_map(e, a, Form::Unmerged, path),
        (KeyValuePairs::Unmerged(v), Form::Unmerged) | (KeyValuePairs::Unmerged(v), Form::Mixed) => {
            let form = if form == Form::Mixed { Form::Either } else { form };
            for (i, ((k, q, x), (ak, av))) in e.iter().zip(v.iter()).enumerate() {
                let p = format!("{}/{}", path, i);
                let is_quoted = format!("{:?}", ak).starts_with("String(");
                if **ak != **k || is_quoted != *q {
                    return Err(format!("at {}: expected key {:?} (quoted: {}), got {:?}", p, k, q, ak));
                }
                cmp_v(x, av, form, &format!("{}.{}", p, k))?;
            }
            Ok(())
        }
        (KeyValuePairs::Merged(_), Form::Merged) | (KeyValuePairs::Unmerged(_), Form::Split) => {
            let mut by: BTreeMap<&str, &Va> = BTreeMap::new();
            for (k, _, x) in e {
                by.insert(k, x);
            }
            let mut n = 0;
            for (ak, av) in a.iter() {
                let k: &str = ak;
                let x = by.remove(k).ok_or_else(|| {
                    format!("at {}: key {:?} is there twice or was never written", path, k)
                })?;
                cmp_v(x, av, Form::Merged, &format!("{}.{}", path, k))?;
                n += 1;
            }
            if n != e.len() || !by.is_empty() {
                return Err(format!("at {}: keys {:?} are lost", path, by.keys().collect::<Vec<_>>()));
            }
            if form == Form::Merged {
                // what iteration shows must also be found
                for (k, _, x) in e {
                    match a.get_single::<str>(k) {
                        Some(av) => cmp_v(x, av, Form::Merged, &format!("{}.get({:?})", path, k))?,
                        None => return Err(format!("at {}: key {:?} is stored but not found", path, k)),
                    }
                }
            }
            Ok(())
        }
        _ => Err(format!("at {}: stored as {}, expected {:?}", path, cut(format!("{:?}", a)), form)),
    }
}

pub fn cmp_v(e: &Va, a: &Value, form: Form, path: &str) -> Result<(), String> {
    let bad = || Err(format!("at {}: expected {}, got {}", path, cut(format!("{:?}", e)), cut(format!("{:?}", a))));
    match (e, a) {
        (Va::Null, Value::Null) => Ok(()),
        (Va::Int(x), Value::Integer(y)) if x == y => Ok(()),
        (Va::Float(x), Value::Float(y)) if x.to_bits() == y.to_bits() => Ok(()),
        (Va::Bool(x), Value::Boolean(y)) if x == y => Ok(()),
        (Va::Str(x), Value::String(y)) if x == y => Ok(()),
        (Va::List(x), Value::List(y)) if x.len() == y.len() => {
            for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() {
                cmp_v(x, y, form, &format!("{}[{}]", path, i))?;
            }
            Ok(())
        }
        (Va::Maps(x), Value::Object(y)) if x.len() == y.len() => {
            for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() {
                cmp_map(x, y, form, &format!("{}#{}", path, i))?;
            }
            Ok(())
        }
        (Va::Blocks(x), Value::Block(b)) if x.len() == b.len() => match (b, form) {
            (KeyValuePairs::Unmerged(v), Form::Unmerged) | (KeyValuePairs::Unmerged(v), Form::Either) => {
                for ((l, m), (al, am)) in x.iter().zip(v.iter()) {
                    if l != al {
                        return bad();
                    }
                    cmp_map(m, am, form, &format!("{}{:?}", path, l))?;
                }
                Ok(())
            }
            (KeyValuePairs::Merged(h), Form::Merged) | (KeyValuePairs::Merged(h), Form::Either) => {
                for (l, m) in x {
                    match h.get(l) {
                        Some(am) => cmp_map(m, am, form, &format!("{}{:?}", path, l))?,
                        None => return bad(),
                    }
                }
                Ok(())
            }
            _ => bad(),
        },
        _ => bad(),
    }
}

/// The entries of a collection that keeps duplicates, in the order it has them. Keys do not repeat
/// when that order was not known before.
pub fn in_order(m: &Map, a: &MapValues) -> Map {
    let mut rest: Vec<Option<&(String, bool, Va)>> = m.iter().map(Some).collect();
    let mut out = Vec::new();
    for (k, _) in a.iter() {
        let k: &str = k;
        if let Some(x) = rest.iter_mut().find(|x| x.map_or(false, |x| x.0 == k)) {
            out.push(x.take().unwrap().clone());
        }
    }
    out
}

pub fn shape(m: &Map, o: &mut String) {
    for (_, q, v) in m {
        o.push(if *q { 'q' } else { 'k' });
        shape_v(v, o);
    }
}

fn shape_v(v: &Va, o: &mut String) {
    match v {
        Va::Null => o.push('n'),
        Va::Int(_) => o.push('i'),
        Va::Float(_) => o.push('f'),
        Va::Bool(_) => o.push('t'),
        Va::Str(s) => {
            o.push('s');
            o.push((b'0' + (s.len() as f64 + 1.).log2() as u8) as char);
        }
        Va::List(l) => {
            o.push('[');
            l.iter().for_each(|x| shape_v(x, o));
            o.push(']');
        }
        Va::Maps(m) => m.iter().for_each(|m| {
            o.push('{');
            shape(m, o);
            o.push('}');
        }),
        Va::Blocks(b) => b.iter().for_each(|(l, m)| {
            o.push((b'0' + l.len().min(9) as u8) as char);
            o.push('{');
            shape(m, o);
            o.push('}');
        }),
    }
}
