//! C13: histories on values: built, inspected, edited in place, taken apart, put back, converted.
//! The model is a plain tree of the same shape.
use crate::api::{cut, guard};
use crate::ctx::{fail, Ctx, R};
use crate::env::{inject_panic, lib, out, Panicked};
use crate::src::Src;
use ferrous_chloride::value::{Block, MapValues, Value};
use ferrous_chloride::{constants, AsOwned, Error, KeyValuePairs, Mergeable, ScalarLength};
use serde::de::Deserialize;
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

type V = Value<'static>;
type Pairs = MapValues<'static>;

// the type of keys has no public name
trait Keyed {
    type K;
}
impl<K: Hash + Eq, T> Keyed for KeyValuePairs<K, T> {
    type K = K;
}
type Key<'a> = <MapValues<'a> as Keyed>::K;

#[derive(Clone, Debug, PartialEq)]
enum M {
    Null,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    List(Vec<M>),
    Maps(Vec<P>),
    Blocks(B),
}

/// Entries of a map; merged ones have one per key and no order
#[derive(Clone, Debug, PartialEq)]
struct P {
    merged: bool,
    e: Vec<(String, M)>,
}

#[derive(Clone, Debug, PartialEq)]
struct B {
    merged: bool,
    e: Vec<(Vec<String>, P)>,
}

const NAMES: &[&str] = &["a", "b", "ab", "key", "é", "", "a b", " a", "a ", "A", "a\n", "\u{feff}a", "e\u{301}", "a.b", "\""];

fn put<K: PartialEq, T>(e: &mut Vec<(K, T)>, merged: bool, k: K, v: T) {
    if merged {
        if let Some(x) = e.iter_mut().find(|x| x.0 == k) {
            x.1 = v;
            return;
        }
    }
    e.push((k, v));
}

fn gen(s: &Src, depth: usize) -> M {
    let agg = if depth < 4 { 3 } else { 0 };
    match s.weighted(&[2, 3, 2, 2, 3, agg, agg, agg]) {
        0 => M::Null,
        1 => M::Int(*s.pick(&[0, 1, -1, 42, i64::MAX, i64::MIN])),
        2 => M::Float(*s.pick(&[0.0, -0.0, 1.5, -1.5, 1e300, f64::MIN_POSITIVE, f64::INFINITY])),
        3 => M::Bool(s.chance(1, 2)),
        4 => M::Str(gen_str(s)),
        5 => {
            let n = s.count(4, if s.chance(1, 8) { 600 } else { 100 });
            M::List((0..n).map(|_| gen(s, if n > 8 { 4 } else { depth + 1 })).collect())
        }
        6 => M::Maps((0..s.small(3)).map(|_| gen_p(s, depth)).collect()),
        _ => {
            let merged = s.chance(1, 2);
            let mut e: Vec<(Vec<String>, P)> = Vec::new();
            for _ in 0..s.small(3) {
                // the same again is a duplicate like any other
                let (l, p) = match e.last() {
                    Some(x) if s.chance(1, 8) => x.clone(),
                    _ => (gen_labels(s), gen_p(s, depth)),
                };
                put(&mut e, merged, l, p);
            }
            M::Blocks(B { merged, e })
        }
    }
}

fn gen_str(s: &Src) -> String {
    if s.chance(1, 16) {
        return (0..s.count(8, 300)).map(|_| crate::text::any_char(s)).collect();
    }
    (0..s.small(5)).map(|_| *s.pick(&["x", "\n", "é", "\"", "\u{1f600}", "${a}", " "])).collect()
}

fn gen_labels(s: &Src) -> Vec<String> {
    if s.chance(1, 4) {
        // what differs only in where one label ends and the next begins
        let l = *s.pick(&[&["ab"][..], &["a", "b"], &["a b"], &["", "ab"], &["ab", ""], &["a", "", "b"], &["a"], &["a", ""], &["", ""], &[""], &[]]);
        return l.iter().map(|x| x.to_string()).collect();
    }
    (0..s.count(2, 14)).map(|_| s.pick(NAMES).to_string()).collect()
}

fn gen_p(s: &Src, depth: usize) -> P {
    let merged = s.chance(1, 2);
    let mut e: Vec<(String, M)> = Vec::new();
    if depth == 0 && s.chance(1, 64) {
        // so many that nothing small holds them
        for i in 0..s.usize(600) {
            put(&mut e, merged, format!("k{}", i), gen(s, 4));
        }
        return P { merged, e };
    }
    for _ in 0..s.small(4) {
        let (k, v) = match e.last() {
            Some(x) if s.chance(1, 8) => x.clone(),
            _ => (s.pick(NAMES).to_string(), gen(s, depth + 1)),
        };
        put(&mut e, merged, k, v);
    }
    P { merged, e }
}

/// A source that panics before its `at`th element
struct Feed<I> {
    it: I,
    at: Option<usize>,
    n: usize,
}
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        out(|| {
            if self.at == Some(self.n) {
                inject_panic(5);
            }
            self.n += 1;
            self.it.next()
        })
    }
}

fn feed<I: IntoIterator>(i: I, at: Option<usize>) -> Feed<I::IntoIter> {
    Feed { it: i.into_iter(), at, n: 0 }
}

/// Build the real thing, through one of the ways there are
fn make(s: &Src, m: &M) -> V {
    match m {
        M::Null => Value::Null,
        M::Int(i) => match s.below(3) {
            0 => Value::Integer(*i),
            1 => Value::from(*i),
            _ => Value::from(i),
        },
        M::Float(f) => match s.below(2) {
            0 => Value::Float(*f),
            _ => Value::from(*f),
        },
        M::Bool(b) => match s.below(2) {
            0 => Value::Boolean(*b),
            _ => Value::from(*b),
        },
        M::Str(t) => match s.below(4) {
            0 => {
                let mut o = String::with_capacity(s.usize(2) * (t.len() + 9));
                o.push_str(t);
                Value::String(o)
            }
            1 => Value::from(t.as_str()),
            2 => Value::from(t),
            _ => Value::from(t.clone()),
        },
        M::List(l) => {
            let v: Vec<V> = l.iter().map(|x| make(s, x)).collect();
            match s.below(5) {
                0 => Value::List(v),
                1 => Value::new_list(v),
                2 => v.into_iter().collect(),
                3 if v.is_empty() => Value::from(None),
                _ => Value::from(Some(v)),
            }
        }
        M::Maps(l) => {
            let v: Vec<Pairs> = l.iter().map(|x| make_p(s, x)).collect();
            let plain = l.iter().all(|p| !p.merged);
            match s.below(5) {
                0 => Value::Object(v),
                1 if plain => Value::new_map(v.into_iter().map(|p| p.unwrap_unmerged())),
                2 if plain && v.len() == 1 => Value::new_single_map(v.into_iter().next().unwrap()),
                3 if v.len() == 1 => Value::from(v.into_iter().next().unwrap()),
                _ => Value::from(v),
            }
        }
        M::Blocks(b) => {
            if !b.merged && b.e.len() == 1 && !b.e[0].1.merged && s.chance(1, 3) {
                let (l, p) = &b.e[0];
                let v = Value::new_block(l, make_p(s, p)).as_owned();
                return v;
            }
            let x = make_b(s, b);
            if s.chance(1, 2) {
                Value::Block(x)
            } else {
                Value::from(x)
            }
        }
    }
}

/// A key is its text, whichever way it is made
fn key(s: &Src, k: &str) -> Key<'static> {
    let n = k.to_string();
    match s.below(7) {
        0 | 1 => Key::from(n),
        2 => Key::new_identifier_owned(n),
        3 => Key::new_string_owned(n),
        4 => AsOwned::as_owned(&Key::new_identifier(k)),
        5 => Key::new_string(k).as_owned(),
        _ => AsOwned::as_owned(&Key::from(k)),
    }
}

/// What a key tells about itself
fn keys(c: &Ctx) -> R {
    let s = &c.s;
    let (a, b) = (*s.pick(NAMES), *s.pick(NAMES));
    let (x, y) = guard("making keys", lib(|| (key(s, a), key(s, b))))?;
    let hash = |k: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k(&mut h);
        h.finish()
    };
    let (hx, hy, ha) = (hash(&|h| x.hash(h)), hash(&|h| y.hash(h)), hash(&|h| a.hash(h)));
    if (x == y) != (a == b) || (a == b && hx != hy) || hx != ha {
        return fail("mismatch", format!("keys {:?} and {:?} compare or hash otherwise than their texts", x, y));
    }
    let kind = std::mem::discriminant(&x);
    let own = guard("as_owned", lib(|| if s.chance(1, 2) { x.as_owned() } else { AsOwned::as_owned(&x) }))?;
    let text: &str = Borrow::<str>::borrow(&x);
    if std::mem::discriminant(&own) != kind || &*own != a || text != a || &*x != a {
        return fail("mismatch", format!("the key {:?} of {:?} owns {:?}", x, a, own));
    }
    let t = guard("deserialize", lib(|| String::deserialize(x.clone()).ok()))?;
    let u = guard("unwrap", lib(|| x.unwrap()))?;
    if t.as_deref() != Some(a) || u != a {
        return fail("mismatch", format!("the key {:?} gives {:?} and {:?}", a, t, u));
    }
    Ok(())
}

fn make_p(s: &Src, p: &P) -> Pairs {
    let v: Vec<_> = p.e.iter().map(|(k, x)| (key(s, k), make(s, x))).collect();
    if p.merged {
        KeyValuePairs::Merged(v.into_iter().map(|(k, x)| (k, x)).collect())
    } else {
        match s.below(3) {
            0 => KeyValuePairs::Unmerged(v.into_iter().map(|(k, x)| (k, x)).collect()),
            1 => MapValues::new_unmerged(v.into_iter().map(|(k, x)| (k, x))),
            _ => v.into_iter().map(|(k, x)| (k, x)).collect(),
        }
    }
}

fn make_b(s: &Src, b: &B) -> Block<'static> {
    let v: Vec<(Vec<String>, Pairs)> = b.e.iter().map(|(k, x)| (k.clone(), make_p(s, x))).collect();
    if b.merged {
        KeyValuePairs::Merged(v.into_iter().collect())
    } else {
        match s.below(3) {
            0 => KeyValuePairs::Unmerged(v),
            1 => Block::new_unmerged(v),
            _ => v.into_iter().collect(),
        }
    }
}

// ---------------------------------------------------------------------------------------------

fn same(m: &M, v: &Value) -> bool {
    match (m, v) {
        (M::Null, Value::Null) => true,
        (M::Int(a), Value::Integer(b)) => a == b,
        (M::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits(),
        (M::Bool(a), Value::Boolean(b)) => a == b,
        (M::Str(a), Value::String(b)) => a == b,
        (M::List(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (M::Maps(a), Value::Object(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_p(a, b)),
        (M::Blocks(a), Value::Block(b)) => same_b(a, b),
        _ => false,
    }
}

fn same_p(p: &P, v: &MapValues) -> bool {
    match v {
        KeyValuePairs::Merged(h) => {
            p.merged
                && h.len() == p.e.len()
                && p.e.iter().all(|(k, m)| h.get::<str>(k).map_or(false, |v| same(m, v)))
        }
        KeyValuePairs::Unmerged(v) => {
            !p.merged && v.len() == p.e.len() && p.e.iter().zip(v).all(|(a, b)| *a.0 == *b.0 && same(&a.1, &b.1))
        }
    }
}

fn same_b(p: &B, v: &Block) -> bool {
    match v {
        KeyValuePairs::Merged(h) => {
            p.merged && h.len() == p.e.len() && p.e.iter().all(|(k, m)| h.get(k).map_or(false, |v| same_p(m, v)))
        }
        KeyValuePairs::Unmerged(v) => {
            !p.merged && v.len() == p.e.len() && p.e.iter().zip(v).all(|(a, b)| a.0 == b.0 && same_p(&a.1, &b.1))
        }
    }
}

fn scalars(m: &M) -> usize {
    match m {
        M::List(l) => l.iter().map(scalars).sum(),
        M::Maps(l) => l.iter().map(scalars_p).sum(),
        M::Blocks(b) => b.e.iter().map(|x| scalars_p(&x.1)).sum(),
        _ => 1,
    }
}
fn scalars_p(p: &P) -> usize {
    p.e.iter().map(|x| scalars(&x.1)).sum()
}

/// Every level is merged (or unmerged, with `want` false)
fn all(m: &M, want: bool) -> bool {
    match m {
        M::List(l) => l.iter().all(|x| all(x, want)),
        M::Maps(l) => l.iter().all(|x| all_p(x, want)),
        M::Blocks(b) => b.merged == want && b.e.iter().all(|x| all_p(&x.1, want)),
        _ => true,
    }
}
fn all_p(p: &P, want: bool) -> bool {
    p.merged == want && p.e.iter().all(|x| all(&x.1, want))
}

/// The model of merging; None when it must fail
fn merge(m: &M) -> Option<M> {
    Some(match m {
        M::List(l) => M::List(l.iter().map(merge).collect::<Option<_>>()?),
        M::Maps(l) => M::Maps(l.iter().map(merge_p).collect::<Option<_>>()?),
        M::Blocks(b) => {
            let mut e: Vec<(Vec<String>, P)> = Vec::new();
            for (k, p) in &b.e {
                if e.iter().any(|x| x.0 == *k) {
                    return None;
                }
                e.push((k.clone(), merge_p(p)?));
            }
            M::Blocks(B { merged: true, e })
        }
        x => x.clone(),
    })
}
fn merge_p(p: &P) -> Option<P> {
    let mut e: Vec<(String, M)> = Vec::new();
    for (k, m) in &p.e {
        let m = merge(m)?;
        match e.iter_mut().find(|x| x.0 == *k) {
            None => e.push((k.clone(), m)),
            Some((_, have)) => match (have, m) {
                (M::Maps(a), M::Maps(b)) => a.extend(b),
                (M::Blocks(a), M::Blocks(b)) => {
                    for (k, p) in b.e {
                        if a.e.iter().any(|x| x.0 == k) {
                            return None;
                        }
                        a.e.push((k, p));
                    }
                }
                _ => return None,
            },
        }
    }
    Some(P { merged: true, e })
}

// ---------------------------------------------------------------------------------------------

fn bad<T>(what: &str, m: &M, v: &dyn std::fmt::Debug) -> R<T> {
    fail("mismatch", format!("{}: expected {}, got {}", what, cut(&format!("{:?}", m), 300), cut(&format!("{:?}", v), 300)))
}

fn name(m: &M) -> &'static str {
    match m {
        M::Null => constants::NULL,
        M::Int(_) => constants::INTEGER,
        M::Float(_) => constants::FLOAT,
        M::Bool(_) => constants::BOOLEAN,
        M::Str(_) => constants::STRING,
        M::List(_) => constants::LIST,
        M::Maps(_) => constants::OBJECT,
        M::Blocks(_) => constants::BLOCK,
    }
}

/// An accessor of kind `kind` answers with the content, or says what it wanted and what it found
fn answers<T: std::fmt::Debug>(what: &str, kind: &'static str, m: &M, r: Result<T, Error>, good: impl FnOnce(&T) -> bool) -> R {
    match r {
        Ok(x) if name(m) == kind => {
            if good(&x) {
                Ok(())
            } else {
                bad(what, m, &x)
            }
        }
        Err(Error::UnexpectedVariant { expected, actual, .. })
            if name(m) != kind && expected == kind && actual == name(m) =>
        {
            Ok(())
        }
        other => bad(what, m, &other),
    }
}

/// `unwrap_` panics exactly when the kind is another
fn unwraps<T: std::fmt::Debug>(what: &str, kind: &'static str, m: &M, r: Result<T, Panicked>, good: impl FnOnce(&T) -> bool) -> R {
    match r {
        Ok(x) if name(m) == kind && good(&x) => Ok(()),
        Err(Panicked::Other(_)) if name(m) != kind => Ok(()),
        other => bad(what, m, &other),
    }
}

fn inspect(m: &M, v: &mut V) -> R {
    use constants::*;
    let kinds = [
        v.is_null(),
        v.is_integer(),
        v.is_float(),
        v.is_boolean(),
        v.is_string(),
        v.is_list(),
        v.is_map(),
        v.is_block(),
    ];
    let want = [NULL, INTEGER, FLOAT, BOOLEAN, STRING, LIST, OBJECT, BLOCK].map(|k| name(m) == k);
    if kinds != want || v.variant_name() != name(m) || v.is_body() != v.is_map() {
        return bad("its kind", m, &(kinds, v.variant_name()));
    }
    let agg = match m {
        M::List(_) | M::Maps(_) | M::Blocks(_) => true,
        _ => false,
    };
    if v.is_aggregate() != agg || v.is_scalar() == agg {
        return bad("is_scalar, is_aggregate", m, &(v.is_scalar(), v.is_aggregate()));
    }
    let len = match m {
        M::List(l) => l.len(),
        M::Maps(l) => l.len(),
        M::Blocks(b) => b.e.len(),
        _ => 1,
    };
    let (l, e) = guard("len", lib(|| (v.len(), v.is_empty())))?;
    if l != len || e != (len == 0) {
        return bad("len, is_empty", m, &(l, e));
    }
    let n = scalars(m);
    let k = guard("len_scalar", lib(|| (v.len_scalar(), v.is_empty_scalar(), (&v).len_scalar())))?;
    if k != (n, n == 0, n) {
        return bad("len_scalar", m, &k);
    }
    macro_rules! arrays {
        ($($k:expr)*) => {{$(
            let all = [&*v; $k];
            if guard("len_scalar of an array", lib(|| all.len_scalar()))? != $k * n {
                return bad(&format!("len_scalar of {} of them", $k), m, &n);
            }
        )*}};
    }
    match (n + l) % 3 {
        0 => arrays!(0 1 2 3 4 5 6 7 8 9 10),
        1 => arrays!(11 12 13 14 15 16 17 18 19 20 21),
        _ => arrays!(22 23 24 25 26 27 28 29 30 31 32),
    }
    let three = guard("len_scalar of an array", lib(|| [&*v, &*v, &*v].len_scalar()))?;
    let h: HashMap<u8, &V> = (0..2).map(|i| (i, &*v)).collect();
    let two = guard("len_scalar of a hash map", lib(|| h.len_scalar()))?;
    if (two, three) != (2 * n, 3 * n) {
        return bad("len_scalar of 2 and 3 of them", m, &(two, three));
    }
    let g = guard("is_merged", lib(|| (v.is_merged(), v.is_unmerged(), (&v).is_merged(), (&v).is_unmerged())))?;
    if g != (all(m, true), all(m, false), all(m, true), all(m, false)) {
        return bad("is_merged, is_unmerged", m, &g);
    }
    let int = |x: &i64| *m == M::Int(*x);
    let float = |x: &f64| if let M::Float(f) = m { f.to_bits() == x.to_bits() } else { false };
    let boolean = |x: &bool| *m == M::Bool(*x);
    let string = |x: &str| if let M::Str(t) = m { t == x } else { false };
    let list = |x: &Vec<V>| if let M::List(l) = m { l.len() == x.len() && l.iter().zip(x).all(|(a, b)| same(a, b)) } else { false };
    let map = |x: &Vec<Pairs>| if let M::Maps(l) = m { l.len() == x.len() && l.iter().zip(x).all(|(a, b)| same_p(a, b)) } else { false };
    let block = |x: &Block| if let M::Blocks(b) = m { same_b(b, x) } else { false };
    answers("integer", INTEGER, m, guard("integer", lib(|| v.integer()))?, int)?;
    answers("float", FLOAT, m, guard("float", lib(|| v.float()))?, float)?;
    answers("boolean", BOOLEAN, m, guard("boolean", lib(|| v.boolean()))?, boolean)?;
    answers("borrow_str", STRING, m, guard("borrow_str", lib(|| v.borrow_str()))?, |x| string(x))?;
    answers("borrow_string_mut", STRING, m, guard("borrow_string_mut", lib(|| v.borrow_string_mut()))?, |x| string(x))?;
    answers("borrow_list", LIST, m, guard("borrow_list", lib(|| v.borrow_list()))?, |x| list(x))?;
    answers("borrow_list_mut", LIST, m, guard("borrow_list_mut", lib(|| v.borrow_list_mut()))?, |x| list(x))?;
    answers("borrow_map", OBJECT, m, guard("borrow_map", lib(|| v.borrow_map()))?, |x| map(x))?;
    answers("borrow_map_mut", OBJECT, m, guard("borrow_map_mut", lib(|| v.borrow_map_mut()))?, |x| map(x))?;
    answers("borrow_block", BLOCK, m, guard("borrow_block", lib(|| v.borrow_block()))?, |x| block(x))?;
    answers("borrow_block_mut", BLOCK, m, guard("borrow_block_mut", lib(|| v.borrow_block_mut()))?, |x| block(x))?;
    unwraps("unwrap_integer", INTEGER, m, lib(|| v.unwrap_integer()), int)?;
    unwraps("unwrap_float", FLOAT, m, lib(|| v.unwrap_float()), float)?;
    unwraps("unwrap_boolean", BOOLEAN, m, lib(|| v.unwrap_boolean()), boolean)?;
    unwraps("unwrap_borrow_str", STRING, m, lib(|| v.unwrap_borrow_str()), |x| string(x))?;
    unwraps("unwrap_borrow_string_mut", STRING, m, lib(|| v.unwrap_borrow_string_mut()), |x| string(x))?;
    unwraps("unwrap_borrow_list", LIST, m, lib(|| v.unwrap_borrow_list().len()), |x| *x == len)?;
    unwraps("unwrap_borrow_list_mut", LIST, m, lib(|| v.unwrap_borrow_list_mut()), |x| list(x))?;
    unwraps("unwrap_borrow_map", OBJECT, m, lib(|| v.unwrap_borrow_map().len()), |x| *x == len)?;
    unwraps("unwrap_borrow_map_mut", OBJECT, m, lib(|| v.unwrap_borrow_map_mut()), |x| map(x))?;
    unwraps("unwrap_borrow_block", BLOCK, m, lib(|| v.unwrap_borrow_block().len()), |x| *x == len)?;
    unwraps("unwrap_borrow_block_mut", BLOCK, m, lib(|| v.unwrap_borrow_block_mut()), |x| block(x))?;
    Ok(())
}

/// What a consuming accessor gives: the content, or the error and the value as it was
fn taken<T>(what: &str, kind: &'static str, m: &M, r: Result<Result<T, (Error, V)>, Panicked>, back: impl FnOnce(T) -> V) -> R<V> {
    match guard(what, r)? {
        Ok(x) if name(m) == kind => Ok(back(x)),
        Ok(_) => bad(what, m, &"its content"),
        Err((e, v)) => {
            answers::<()>(what, kind, m, Err(e), |_| false)?;
            Ok(v)
        }
    }
}

/// Take the value out, get at its content as some kind, and put it back
fn take(s: &Src, m: &M, v: V) -> R<V> {
    use constants::*;
    let right = match m {
        M::Str(_) => 0,
        M::List(_) => 1,
        M::Maps(_) => 2,
        M::Blocks(_) => 3,
        _ => 4,
    };
    let k = if right < 4 && s.chance(2, 3) { right } else { s.below(4) };
    if right == k && s.chance(1, 3) {
        return Ok(match k {
            0 => Value::from(guard("unwrap_string", lib(|| v.unwrap_string()))?),
            1 => Value::from(Some(guard("unwrap_list", lib(|| v.unwrap_list()))?)),
            2 => Value::from(guard("unwrap_map", lib(|| v.unwrap_map()))?),
            _ => Value::from(guard("unwrap_block", lib(|| v.unwrap_block()))?),
        });
    }
    match k {
        0 => taken("string", STRING, m, lib(|| v.string()), Value::from),
        1 => taken("list", LIST, m, lib(|| v.list()), |l| Value::from(Some(l))),
        2 => taken("map", OBJECT, m, lib(|| v.map()), Value::from),
        _ => taken("block", BLOCK, m, lib(|| v.block()), Value::from),
    }
}

/// An extension that may be cut short by a panic of its source: then whole elements from its
/// front are in. Tells how many.
fn extended(c: &Ctx, r: Result<(), Panicked>, at: Option<usize>, fits: impl Fn(usize) -> bool, n: usize) -> R<usize> {
    match (r, at) {
        (Ok(()), None) => Ok(n),
        (Err(Panicked::Injected(_)), Some(at)) => {
            c.count("fault: source of elements panicked");
            match (0..=at).rev().find(|k| fits(*k)) {
                Some(k) => Ok(k),
                None => fail("mismatch", format!("an extension whose source panicked after {} left something else", at)),
            }
        }
        (Ok(()), Some(_)) => fail("swallowed", "an extension goes on although its source panicked"),
        (Err(p), _) => fail("panic", format!("an extension panics: {:?}", p)),
    }
}

fn step_p(c: &Ctx, p: &mut P, v: &mut Pairs, depth: usize) -> R {
    let s = &c.s;
    match s.below(5) {
        // merge
        4 => {
            let want = match (all_p(p, false), all_p(p, true)) {
                (true, _) => merge_p(p),
                (_, true) => Some(p.clone()),
                _ => return Ok(()),
            };
            c.ev(|| format!("  merge the map: {}", if want.is_some() { "must do" } else { "must fail" }));
            let r = if s.chance(1, 2) {
                guard("as_merged", lib(|| v.as_merged()))?
            } else {
                let old = v.clone();
                guard("merge", lib(|| old.merge()))?
            };
            if !same_p(p, v) {
                return fail("mismatch", "as_merged changed its receiver");
            }
            match (r, want) {
                (Ok(r), Some(w)) => {
                    if !same_p(&w, &r) {
                        return bad("merge", &M::Maps(vec![w]), &r);
                    }
                    *p = w;
                    *v = r;
                }
                (Err(_), None) => c.count("merges refused"),
                (r, w) => return fail("mismatch", format!("merging {} gives {}, expected {:?}", cut(&format!("{:?}", v), 300), cut(&format!("{:?}", r), 300), w)),
            }
        }
        // extend
        0 | 1 => {
            let add: Vec<(String, M)> = (0..s.small(4)).map(|_| (s.pick(NAMES).to_string(), gen(s, depth + 1))).collect();
            let at = if s.chance(1, 5) { Some(s.usize(add.len() + 1)) } else { None };
            c.ev(|| format!("  extend the map with {:?}, panic at {:?}", add, at));
            let items: Vec<_> = add.iter().map(|(k, m)| (key(s, k), make(s, m))).collect();
            let r = lib(|| v.extend(feed(items, at)));
            let after = |k: usize| {
                let mut q = p.clone();
                for (k, m) in &add[..k] {
                    put(&mut q.e, q.merged, k.clone(), m.clone());
                }
                q
            };
            let k = extended(c, r, at, |k| same_p(&after(k), v), add.len())?;
            let q = after(k);
            *p = q;
        }
        // unmerge, which gives an order
        2 => {
            c.ev(|| "  unmerge the map".to_string());
            let copy = if s.chance(1, 2) {
                guard("as_unmerged", lib(|| v.as_unmerged()))?
            } else {
                let old = v.clone();
                guard("unmerge", lib(|| old.unmerge()))?
            };
            if let KeyValuePairs::Merged(_) = copy {
                return fail("mismatch", "an unmerged map is still merged");
            }
            if !same_p(p, v) {
                return fail("mismatch", "as_unmerged changed its receiver");
            }
            if p.merged {
                let mut e = Vec::new();
                for (k, _) in copy.iter() {
                    let k: &str = k;
                    match p.e.iter().position(|x| x.0 == *k) {
                        Some(i) => e.push(p.e.remove(i)),
                        None => return fail("mismatch", format!("unmerging made up or repeated the key {:?}", k)),
                    }
                }
                e.append(&mut p.e);
                p.e = e;
                p.merged = false;
            }
            *v = copy;
        }
        _ => {
            c.ev(|| "  rebuild the map".to_string());
            let old = std::mem::replace(v, KeyValuePairs::Unmerged(vec![]));
            *v = if p.merged {
                KeyValuePairs::Merged(guard("unwrap_merged", lib(|| old.unwrap_merged()))?)
            } else {
                guard("collect", lib(|| old.into_iter().collect::<Pairs>()))?
            };
        }
    }
    if !same_p(p, v) {
        return bad("the map", &M::Maps(vec![p.clone()]), v);
    }
    Ok(())
}

fn step_b(c: &Ctx, b: &mut B, v: &mut Block<'static>, depth: usize) -> R {
    let s = &c.s;
    match s.below(4) {
        // merge
        1 => {
            let m = M::Blocks(b.clone());
            let want = match (all(&m, false), all(&m, true)) {
                (true, _) => merge(&m),
                (_, true) => Some(m.clone()),
                _ => return Ok(()),
            };
            c.ev(|| format!("  merge the blocks: {}", if want.is_some() { "must do" } else { "must fail" }));
            let r = if s.chance(1, 2) {
                guard("as_merged", lib(|| v.as_merged()))?
            } else {
                let old = v.clone();
                guard("merge", lib(|| old.merge()))?
            };
            if !same_b(b, v) {
                return fail("mismatch", "as_merged changed its receiver");
            }
            return match (r, want) {
                (Ok(r), Some(M::Blocks(w))) => {
                    if !same_b(&w, &r) {
                        return bad("merge", &M::Blocks(w), &r);
                    }
                    c.count("blocks merged");
                    *b = w;
                    *v = r;
                    Ok(())
                }
                (Err(_), None) => {
                    c.count("merges refused");
                    Ok(())
                }
                (r, w) => fail("mismatch", format!("merging {} gives {}, expected {:?}", cut(&format!("{:?}", v), 300), cut(&format!("{:?}", r), 300), w)),
            };
        }
        // unmerge, which gives an order
        2 => {
            c.ev(|| "  unmerge the blocks".to_string());
            let copy = if s.chance(1, 2) {
                guard("as_unmerged", lib(|| v.as_unmerged()))?
            } else {
                let old = v.clone();
                guard("unmerge", lib(|| old.unmerge()))?
            };
            if !same_b(b, v) {
                return fail("mismatch", "as_unmerged changed its receiver");
            }
            if let KeyValuePairs::Merged(_) = copy {
                return fail("mismatch", "unmerged blocks are still merged");
            }
            if b.merged {
                let mut e = Vec::new();
                for (k, _) in copy.iter() {
                    match b.e.iter().position(|x| x.0 == *k) {
                        Some(i) => e.push(b.e.remove(i)),
                        None => return fail("mismatch", format!("unmerging made up or repeated the labels {:?}", k)),
                    }
                }
                e.append(&mut b.e);
                b.e = e;
                b.merged = false;
            }
            *v = copy;
            if !same_b(b, v) {
                return bad("the blocks", &M::Blocks(b.clone()), v);
            }
            return Ok(());
        }
        _ => {}
    }
    let add: Vec<(Vec<String>, P)> = (0..s.small(3)).map(|_| (gen_labels(s), gen_p(s, depth + 1))).collect();
    let at = if s.chance(1, 5) { Some(s.usize(add.len() + 1)) } else { None };
    c.ev(|| format!("  extend the blocks with {:?}, panic at {:?}", add, at));
    let items: Vec<_> = add.iter().map(|(k, p)| (k.clone(), make_p(s, p))).collect();
    let r = lib(|| v.extend(feed(items, at)));
    let after = |k: usize| {
        let mut q = b.clone();
        for (k, p) in &add[..k] {
            put(&mut q.e, q.merged, k.clone(), p.clone());
        }
        q
    };
    let k = extended(c, r, at, |k| same_b(&after(k), v), add.len())?;
    let q = after(k);
    *b = q;
    Ok(())
}

/// One step at this node
fn step(c: &Ctx, m: &mut M, v: &mut V, depth: usize) -> R {
    let s = &c.s;
    match s.below(8) {
        0 => {
            *m = gen(s, depth);
            c.ev(|| format!("  put {:?}", m));
            *v = guard("building", lib(|| make(s, m)))?;
        }
        1 | 2 => match (&mut *m, &mut *v) {
            (M::Str(t), v) if v.is_string() => {
                c.ev(|| "  edit the string".to_string());
                let add = gen_str(s);
                match v.borrow_string_mut() {
                    Ok(x) => x.push_str(&add),
                    Err(e) => return bad("borrow_string_mut", &M::Str(t.clone()), &e),
                }
                t.push_str(&add);
            }
            (M::List(l), Value::List(x)) => {
                let i = s.usize(l.len() + 1);
                if s.chance(1, 3) && i < l.len() {
                    c.ev(|| format!("  remove {}", i));
                    l.remove(i);
                    x.remove(i);
                } else {
                    let n = gen(s, depth + 1);
                    c.ev(|| format!("  insert {:?} at {}", n, i));
                    x.insert(i, make(s, &n));
                    l.insert(i, n);
                }
            }
            (M::Maps(l), Value::Object(x)) => {
                if l.is_empty() || s.chance(1, 4) {
                    let p = gen_p(s, depth);
                    c.ev(|| format!("  append the map {:?}", p));
                    x.push(make_p(s, &p));
                    l.push(p);
                } else {
                    let i = s.usize(l.len());
                    step_p(c, &mut l[i], &mut x[i], depth)?;
                }
            }
            (M::Blocks(b), Value::Block(x)) => step_b(c, b, x, depth)?,
            _ => {}
        },
        3 => {
            c.ev(|| "  take it out and put it back".to_string());
            let old = std::mem::replace(v, Value::Null);
            *v = take(s, m, old)?;
        }
        4 => {
            c.ev(|| "  own it".to_string());
            *v = guard("as_owned", lib(|| v.as_owned()))?;
        }
        5 => {
            // what is merged at every level stays as it is
            let want = match (all(m, false), all(m, true)) {
                (true, _) => merge(m),
                (_, true) => Some(m.clone()),
                _ => return Ok(()),
            };
            c.ev(|| format!("  merge it: {}", if want.is_some() { "must do" } else { "must fail" }));
            let copy = v.clone();
            match (guard("merge", lib(|| copy.merge()))?, want) {
                (Ok(r), Some(w)) => {
                    if !same(&w, &r) {
                        return bad("merge", &w, &r);
                    }
                    c.count("values merged");
                    *m = w;
                    *v = r;
                }
                (Err(_), None) => c.count("merges refused"),
                (Ok(r), None) => return bad("merge", m, &r),
                (Err(e), Some(w)) => return bad("merge", &w, &e),
            }
        }
        6 => {
            // a source that panics while a value is collected leaves nothing behind
            let l: Vec<M> = (0..1 + s.small(3)).map(|_| gen(s, 3)).collect();
            let at = s.usize(l.len() + 1);
            let items: Vec<V> = l.iter().map(|x| make(s, x)).collect();
            c.ev(|| format!("  collect a list whose source panics at {}", at));
            let r = match s.below(2) {
                0 => lib(|| Value::new_list(feed(items, Some(at)))),
                _ => lib(|| feed(items, Some(at)).collect::<V>()),
            };
            match r {
                Err(Panicked::Injected(_)) => c.count("fault: source of elements panicked"),
                r => return fail("swallowed", format!("collecting from a source that panics gives {:?}", r)),
            }
        }
        _ => {
            c.ev(|| "  inspect it".to_string());
        }
    }
    inspect(m, v)
}

/// Go down to some node, through the mutable accessors
fn walk(c: &Ctx, m: &mut M, v: &mut V, depth: usize) -> R {
    let s = &c.s;
    if depth < 6 && s.chance(2, 3) {
        match m {
            M::List(l) if !l.is_empty() => {
                let i = s.usize(l.len());
                c.ev(|| format!("  down to [{}]", i));
                return match v.borrow_list_mut() {
                    Ok(x) if x.len() == l.len() => walk(c, &mut l[i], &mut x[i], depth + 1),
                    r => fail("mismatch", format!("borrow_list_mut gives {:?}", r)),
                };
            }
            M::Maps(l) if l.iter().any(|p| !p.e.is_empty()) => {
                let i = s.usize(l.len());
                let x = match v.borrow_map_mut() {
                    Ok(x) if x.len() == l.len() => &mut x[i],
                    r => return fail("mismatch", format!("borrow_map_mut gives {:?}", r)),
                };
                if !l[i].e.is_empty() {
                    return walk_p(c, &mut l[i], x, depth);
                }
            }
            M::Blocks(b) if !b.e.is_empty() => {
                let i = s.usize(b.e.len());
                let (labels, p) = &mut b.e[i];
                c.ev(|| format!("  down to block {:?}", labels));
                let x = match v.borrow_block_mut() {
                    Ok(KeyValuePairs::Merged(h)) => h.get_mut(labels),
                    Ok(KeyValuePairs::Unmerged(v)) => v.get_mut(i).map(|x| &mut x.1),
                    Err(e) => return fail("mismatch", format!("borrow_block_mut gives {:?}", e)),
                };
                return match x {
                    Some(x) if !p.e.is_empty() => walk_p(c, p, x, depth),
                    Some(x) => step_p(c, p, x, depth),
                    None => fail("mismatch", format!("block {:?} is not there", labels)),
                };
            }
            _ => {}
        }
    }
    step(c, m, v, depth)
}

fn walk_p(c: &Ctx, p: &mut P, v: &mut Pairs, depth: usize) -> R {
    let i = c.s.usize(p.e.len());
    let k = p.e[i].0.clone();
    c.ev(|| format!("  down to {:?}", k));
    let x = match v {
        KeyValuePairs::Merged(h) => h.get_mut::<str>(&k),
        KeyValuePairs::Unmerged(v) => v.get_mut(i).map(|x| &mut x.1),
    };
    match x {
        Some(x) => walk(c, &mut p.e[i].1, x, depth + 1),
        None => fail("mismatch", format!("key {:?} is not there", k)),
    }
}

fn history(c: &Ctx) -> R {
    let s = &c.s;
    let mut m = gen(s, 0);
    c.ev(|| format!("start with {:?}", m));
    let mut v = guard("building", lib(|| make(s, &m)))?;
    let steps = 1 + s.small(16);
    // a copy taken at some point must not see what happens to the original afterwards
    let keep_at = s.usize(steps);
    let mut kept: Option<(M, V)> = None;
    for i in 0..steps {
        c.tick();
        c.ev(|| format!("step {}", i));
        keys(c)?;
        if i == keep_at {
            let copy = if s.chance(1, 2) { v.clone() } else { guard("as_owned", lib(|| v.as_owned()))? };
            kept = Some((m.clone(), copy));
        }
        walk(c, &mut m, &mut v, 0)?;
        if !same(&m, &v) {
            return bad("the value", &m, &v);
        }
        c.sig(format!("{:?}", std::mem::discriminant(&m)).as_bytes());
    }
    inspect(&m, &mut v)?;
    if let Some((m, v)) = &kept {
        if !same(m, v) {
            return bad("the copy", m, v);
        }
    }
    if scalars(&m) > 1 || steps > 3 {
        c.nontrivial();
    }
    c.sig(format!("{:?}", m).as_bytes());
    c.sample(|| format!("{} steps, ending with {}", steps, cut(&format!("{:?}", m), 300)));
    Ok(())
}

pub fn c13(c: &Ctx) -> R {
    history(c)
}
