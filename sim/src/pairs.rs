//! C07: histories on key-value collections, against a list of entries
use crate::api::{cut, guard};
use crate::ctx::{fail, Ctx, R};
use crate::env::{inject_panic, lib, out, Panicked};
use crate::src::Src;
use ferrous_chloride::value::{Block, MapValues, Value};
use ferrous_chloride::{AsOwned, KeyValuePairs, Mergeable, OneOrMany, ScalarLength};
use std::borrow::Borrow;
use std::collections::{HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// A value that knows which one it is and how many scalars it counts for
#[derive(Clone, Debug, PartialEq, Eq)]
struct Tok(u64);
impl ScalarLength for Tok {
    fn len_scalar(&self) -> usize {
        (self.0 % 5) as usize
    }
}
impl Mergeable for Tok {
    fn is_merged(&self) -> bool {
        self.0 % 7 != 0
    }
    fn is_unmerged(&self) -> bool {
        self.0 % 7 != 1
    }
}
impl AsOwned for Tok {
    type Output = Tok;
    fn as_owned(&self) -> Tok {
        self.clone()
    }
}

/// A key that hashes badly
#[derive(Clone, Debug, PartialEq, Eq)]
struct Bad(String);
impl Hash for Bad {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0.len() % 2).hash(h)
    }
}
impl AsOwned for Bad {
    type Output = Bad;
    fn as_owned(&self) -> Bad {
        self.clone()
    }
}

const NAMES: &[&str] = &["a", "b", "ab", "", "é", "key", "A", "a b", " a", "a ", "\u{feff}a"];

fn bad<T>(m: String) -> R<T> {
    fail("mismatch", m)
}

struct Feed<T> {
    items: VecDeque<T>,
    panic_at: Option<usize>,
    given: usize,
    lie: u8,
}
impl<T> Iterator for Feed<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        out(|| {
            if self.panic_at == Some(self.given) {
                inject_panic(9);
            }
            self.given += 1;
            self.items.pop_front()
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.lie {
            0 => (self.items.len(), Some(self.items.len())),
            1 => (0, None),
            _ => (self.items.len() / 2, Some(self.items.len() * 2 + 1)),
        }
    }
}

/// The entries the collection must hold
fn put<K: PartialEq + Clone>(m: &mut Vec<(K, u64)>, merged: bool, k: K, v: u64) {
    if merged {
        if let Some(x) = m.iter_mut().find(|x| x.0 == k) {
            x.1 = v;
            return;
        }
    }
    m.push((k, v));
}

/// Drain an iterator some way (step by step, skipping, or to the end in one call), checking what
/// it announces. Gives the positions reached and the elements there, and whether none was skipped.
fn drain<T>(s: &Src, what: &str, mut it: impl Iterator<Item = T>, total: usize, take: usize) -> R<(Vec<(usize, T)>, bool)> {
    let mut v = Vec::new();
    let mut at = 0;
    let mut all = true;
    let style = s.below(4);
    loop {
        let left = total - at;
        let h = guard(what, lib(|| it.size_hint()))?;
        if h != (left, Some(left)) {
            return bad(format!("{}: announces {:?} with {} of {} elements left", what, h, left, total));
        }
        if at >= take {
            return Ok((v, all && at == total));
        }
        let op = if style == 0 { 0 } else { s.below(10) };
        match op {
            0..=4 => match guard(what, lib(|| it.next()))? {
                Some(x) if left > 0 => {
                    v.push((at, x));
                    at += 1;
                }
                None if left == 0 => {
                    if guard(what, lib(|| it.next()))?.is_some() {
                        return bad(format!("{}: yields again after its end", what));
                    }
                    return Ok((v, all));
                }
                None => return bad(format!("{}: ends with {} elements left", what, left)),
                Some(_) => return bad(format!("{}: yields more than {} elements", what, total)),
            },
            5 | 6 => {
                let k = s.usize(left + 3);
                match guard(what, lib(|| it.nth(k)))? {
                    Some(x) if k < left => {
                        v.push((at + k, x));
                        at += k + 1;
                        all &= k == 0;
                    }
                    None if k >= left => {
                        all &= left == 0;
                        at = total;
                    }
                    r => {
                        return bad(format!(
                            "{}: skipping {} of {} elements {}",
                            what,
                            k,
                            left,
                            if r.is_some() { "still gives one" } else { "ends" }
                        ))
                    }
                }
            }
            7 => {
                let n = guard(what, lib(move || it.count()))?;
                if n != left {
                    return bad(format!("{}: counts {} of {} elements", what, n, left));
                }
                return Ok((v, all && left == 0));
            }
            8 => {
                match guard(what, lib(move || it.last()))? {
                    Some(x) if left > 0 => v.push((total - 1, x)),
                    None if left == 0 => {}
                    _ => return bad(format!("{}: the last of {} elements is wrong", what, left)),
                }
                return Ok((v, all && left <= 1));
            }
            _ => {
                let rest: Vec<T> = guard(what, lib(move || it.collect()))?;
                if rest.len() != left {
                    return bad(format!("{}: collecting the last {} elements gives {}", what, left, rest.len()));
                }
                v.extend(rest.into_iter().enumerate().map(|(i, x)| (at + i, x)));
                return Ok((v, all));
            }
        }
    }
}

/// The elements at their positions if `ordered`, else each once; all of them if none was left out
fn same<T, U: PartialEq + Debug>(what: &str, got: (Vec<(usize, T)>, bool), f: impl Fn(T) -> U, want: Vec<U>, ordered: bool) -> R {
    let all = got.1;
    let got: Vec<(usize, U)> = got.0.into_iter().map(|(i, x)| (i, f(x))).collect();
    let ok = if ordered {
        got.iter().all(|(i, x)| want.get(*i) == Some(x))
    } else {
        let mut rest: Vec<&U> = want.iter().collect();
        got.iter().all(|(_, g)| match rest.iter().position(|w| *w == g) {
            Some(i) => {
                rest.swap_remove(i);
                true
            }
            None => false,
        })
    } && (!all || got.len() == want.len());
    if ok {
        Ok(())
    } else {
        bad(format!("{}: got {}, expected {}", what, cut(&format!("{:?}", got), 300), cut(&format!("{:?}", want), 300)))
    }
}

fn drive<K, Q>(c: &Ctx, key: impl Fn(&Src) -> K, ask: impl Fn(&Src) -> Box<Q>) -> R
where
    K: Hash + Eq + Clone + Debug + Borrow<Q> + AsOwned<Output = K> + 'static,
    Q: Hash + Eq + Debug + ?Sized,
{
    let s = &c.s;
    let merged = s.chance(1, 2);
    c.sig_n(merged as u64);
    let mut next = 0u64;
    let mut m: Vec<(K, u64)> = Vec::new();
    let mut kv: KeyValuePairs<K, Tok> =
        if merged { KeyValuePairs::Merged(HashMap::new()) } else { KeyValuePairs::Unmerged(Vec::new()) };
    let steps = 1 + s.small(24);
    // now and then a large collection is what the history starts with
    let start = if s.chance(1, 48) { s.usize(900) } else { 0 };
    for _ in 0..start {
        next += 1;
        let k = key(s);
        put(&mut m, merged, k.clone(), next);
        let t = Tok(next);
        guard("extend", lib(|| kv.extend(Some((k, t)))))?;
    }
    for i in 0..steps {
        c.tick();
        let n = m.len();
        let take = if s.chance(1, 3) { s.usize(n + 1) } else { usize::MAX };
        if take < n {
            c.count("abandoned iterators");
        }
        let op = s.usize(12);
        c.sig_n(op as u64);
        match op {
            0..=3 => {
                let v: Vec<(K, u64)> = (0..s.count(8, 300))
                    .map(|_| {
                        next += 1;
                        (key(s), next)
                    })
                    .collect();
                let panic_at = if s.chance(1, 4) { Some(s.usize(v.len() + 1)) } else { None };
                c.ev(|| format!("step {}: extend with {:?}, panic at {:?}", i, v, panic_at));
                let f = Feed {
                    items: v.iter().map(|(k, v)| (k.clone(), Tok(*v))).collect(),
                    panic_at,
                    given: 0,
                    lie: s.below(3) as u8,
                };
                match (lib(|| kv.extend(f)), panic_at) {
                    (Ok(()), None) => {
                        for (k, v) in v {
                            put(&mut m, merged, k, v);
                        }
                    }
                    (Err(Panicked::Injected(_)), Some(at)) => {
                        c.count("fault: source of entries panicked");
                        // whole entries from the front: find out how many
                        let mut fits = None;
                        let mut trial = m.clone();
                        for k in 0..=at {
                            if holds(&kv, &trial) {
                                fits = Some(trial.clone());
                            }
                            if k < at {
                                let (kk, vv) = v[k].clone();
                                put(&mut trial, merged, kk, vv);
                            }
                        }
                        match fits {
                            Some(t) => m = t,
                            None => {
                                return bad(format!(
                                    "an extension whose source panicked after {} entries left {}",
                                    at,
                                    cut(&format!("{:?}", kv), 300)
                                ))
                            }
                        }
                    }
                    (Ok(()), Some(_)) => return fail("swallowed", "extend goes on although its source panicked"),
                    (Err(p), _) => return fail("panic", format!("extend panics: {:?}", p)),
                }
            }
            4 | 5 => {
                let q = ask(s);
                let q: &Q = &q;
                c.ev(|| format!("step {}: look up {:?}", i, q));
                let want: Vec<u64> = m.iter().filter(|x| x.0.borrow() == q).map(|x| x.1).collect();
                let one = guard("get_single", lib(|| kv.get_single(q).map(|t| t.0)))?;
                if one != want.first().copied() {
                    return bad(format!("get_single({:?}) gives {:?} of {:?}", q, one, want));
                }
                let got = guard("get", lib(|| kv.get(q)))?;
                match got {
                    None if want.is_empty() => {}
                    None => return bad(format!("get({:?}) finds nothing of {:?}", q, want)),
                    Some(x) if want.is_empty() => return bad(format!("get({:?}) finds {:?}, but there is no such key", q, x)),
                    Some(x) => {
                        let (len, empty, is_one, is_many) = (x.len(), x.is_empty(), x.is_one(), x.is_many());
                        if len != want.len() || empty != want.is_empty() || is_one == is_many || (merged != is_one) {
                            return bad(format!("get({:?}): {:?}, expected {:?}", q, x, want));
                        }
                        let (a, b) = guard("is_merged", lib(|| (x.is_merged(), x.is_unmerged())))?;
                        if (a, b) != (want.iter().all(|v| v % 7 != 0), want.iter().all(|v| v % 7 != 1)) {
                            return bad(format!("is_merged {}, is_unmerged {} of {:?}", a, b, x));
                        }
                        match (lib(|| x.clone().unwrap_one().0), merged) {
                            (Ok(v), true) if want.first() == Some(&v) => {}
                            (Err(Panicked::Other(_)), false) => {}
                            (r, _) => return bad(format!("unwrap_one of {:?} gives {:?}", x, r)),
                        }
                        match (lib(|| x.clone().unwrap_many().into_iter().map(|t| t.0).collect::<Vec<_>>()), merged) {
                            (Ok(v), false) if v == want => {}
                            (Err(Panicked::Other(_)), true) => {}
                            (r, _) => return bad(format!("unwrap_many of {:?} gives {:?}", x, r)),
                        }
                        let take = s.usize(len + 2);
                        let got = drain(s, "OneOrMany::iter", x.iter(), len, take)?;
                        same("OneOrMany::iter", got, |t| t.0, want.clone(), true)?;
                        let got = drain(s, "&OneOrMany::into_iter", (&x).into_iter(), len, usize::MAX)?;
                        same("&OneOrMany::into_iter", got, |t| t.0, want.clone(), true)?;
                        let got = drain(s, "OneOrMany::into_iter", x.into_iter(), len, take)?;
                        same("OneOrMany::into_iter", got, |t| t.0, want.clone(), true)?;
                    }
                }
                match lib(|| kv[q].0) {
                    Ok(v) if want.first() == Some(&v) => {}
                    Err(_) if want.is_empty() => {}
                    r => return bad(format!("[{:?}] gives {:?} of {:?}", q, r, want)),
                }
            }
            6 => {
                c.ev(|| format!("step {}: iter, {} at most", i, take));
                let got = drain(s, "iter", kv.iter(), n, take)?;
                same("iter", got, |(k, t)| ((*k).clone(), t.0), m.clone(), !merged)?;
                let got = drain(s, "&into_iter", (&kv).into_iter(), n, take)?;
                same("&into_iter", got, |(k, t)| ((*k).clone(), t.0), m.clone(), !merged)?;
            }
            7 => {
                c.ev(|| format!("step {}: keys and values, {} at most", i, take));
                let got = drain(s, "keys", kv.keys(), n, take)?;
                same("keys", got, |k| k.clone(), m.iter().map(|x| x.0.clone()).collect(), !merged)?;
                let got = drain(s, "values", kv.values(), n, take)?;
                same("values", got, |t| t.0, m.iter().map(|x| x.1).collect(), !merged)?;
            }
            8 => {
                c.ev(|| format!("step {}: into_iter of a copy, {} at most", i, take));
                let copy = kv.clone();
                let got = drain(s, "into_iter", copy.into_iter(), n, take)?;
                same("into_iter", got, |(k, t)| (k, t.0), m.clone(), !merged)?;
            }
            9 => {
                c.ev(|| format!("step {}: copies", i));
                let d = guard("as_owned", lib(|| kv.as_owned()))?;
                if !holds(&d, &m) || d != kv {
                    return bad(format!("as_owned gives {}", cut(&format!("{:?}", d), 300)));
                }
                kv = d;
            }
            10 => {
                c.ev(|| format!("step {}: rebuild", i));
                let copy = kv.clone();
                let wrong = if merged { lib(|| copy.unwrap_unmerged().len()) } else { lib(|| copy.unwrap_merged().len()) };
                if let Ok(n) = wrong {
                    return bad(format!("unwrapping as the other variant gives {} entries", n));
                }
                let copy = kv.clone();
                kv = if merged {
                    KeyValuePairs::Merged(guard("unwrap_merged", lib(|| copy.unwrap_merged()))?)
                } else {
                    KeyValuePairs::Unmerged(guard("unwrap_unmerged", lib(|| copy.unwrap_unmerged()))?)
                };
            }
            _ => {
                let k = guard("len_scalar", lib(|| kv.len_scalar()))?;
                let want: usize = m.iter().map(|x| (x.1 % 5) as usize).sum();
                if k != want || kv.is_empty_scalar() != (want == 0) {
                    return bad(format!("len_scalar is {}, expected {}", k, want));
                }
                let (a, b) = guard("is_merged", lib(|| (kv.is_merged(), kv.is_unmerged())))?;
                let wa = merged && m.iter().all(|x| x.1 % 7 != 0);
                let wb = !merged && m.iter().all(|x| x.1 % 7 != 1);
                if (a, b) != (wa, wb) {
                    return bad(format!("is_merged {}, is_unmerged {} of {:?}", a, b, m));
                }
                // what it is made of answers alike
                let (wa, wb) = (m.iter().all(|x| x.1 % 7 != 0), m.iter().all(|x| x.1 % 7 != 1));
                let got = guard(
                    "is_merged",
                    lib(|| match &kv {
                        KeyValuePairs::Merged(h) => (h.is_merged(), h.is_unmerged(), h.len_scalar()),
                        KeyValuePairs::Unmerged(v) => {
                            let t: usize = v.iter().map(|x| (&x.1).len_scalar()).sum();
                            (v.is_merged(), v.is_unmerged(), t)
                        }
                    }),
                )?;
                if got != (wa, wb, want) {
                    return bad(format!("is_merged, is_unmerged, len_scalar of the content {:?} of {:?}", got, m));
                }
            }
        }
        if kv.len() != m.len() || kv.is_empty() != m.is_empty() {
            return bad(format!("len {}, is_empty {} with {} entries", kv.len(), kv.is_empty(), m.len()));
        }
        if !holds(&kv, &m) {
            return bad(format!("holds {}, expected {:?}", cut(&format!("{:?}", kv), 300), m));
        }
    }
    if !m.is_empty() {
        c.nontrivial();
    }
    for x in &m {
        c.sig_n(x.1);
        c.sig(format!("{:?}", x.0).as_bytes());
    }
    c.sample(|| format!("{} steps ({}), ending with {}", steps, if merged { "merged" } else { "unmerged" }, cut(&format!("{:?}", m), 300)));
    Ok(())
}

/// Look straight into the variant
fn holds<K: Hash + Eq>(kv: &KeyValuePairs<K, Tok>, m: &[(K, u64)]) -> bool {
    match kv {
        KeyValuePairs::Merged(h) => h.len() == m.len() && m.iter().all(|(k, v)| h.get(k).map(|t| t.0) == Some(*v)),
        KeyValuePairs::Unmerged(v) => v.len() == m.len() && v.iter().zip(m).all(|(a, b)| a.0 == b.0 && a.1 .0 == b.1),
    }
}

/// Keys with two spellings, looked up by their text
fn keys(c: &Ctx) -> R {
    let s = &c.s;
    let merged = s.chance(1, 2);
    // the key type is not public: collections of it are made by loading and extended from others
    let mut m: Vec<(String, i64)> = Vec::new();
    let mut kv: MapValues<'static> =
        if merged { KeyValuePairs::Merged(HashMap::new()) } else { KeyValuePairs::Unmerged(Vec::new()) };
    let mut next = 0;
    for i in 0..1 + s.small(8) {
        c.tick();
        if s.chance(1, 2) {
            let mut text = String::new();
            let mut add = Vec::new();
            for _ in 0..s.small(6) {
                next += 1;
                let n = *s.pick(&["a", "b", "é", "key"]);
                if s.chance(1, 2) {
                    text.push_str(&format!("{} = {}\n", n, next));
                } else {
                    text.push_str(&format!("\"{}\" = {}\n", n, next));
                }
                add.push((n.to_string(), next));
            }
            c.ev(|| format!("step {}: extend with {:?}", i, text));
            let v = match ferrous_chloride::value::from_reader(text.as_bytes(), None) {
                Ok(KeyValuePairs::Unmerged(v)) => v,
                r => return bad(format!("loading {:?} gives {:?}", text, r)),
            };
            guard("extend", lib(|| kv.extend(v)))?;
            for (k, v) in add {
                match m.iter_mut().find(|x| merged && x.0 == k) {
                    Some(x) => x.1 = v,
                    None => m.push((k, v)),
                }
            }
        } else {
            let q = *s.pick(&["a", "b", "é", "key", "c", ""]);
            c.ev(|| format!("step {}: look up {:?}", i, q));
            let want: Vec<i64> = m.iter().filter(|x| x.0 == q).map(|x| x.1).collect();
            let one = guard("get_single", lib(|| kv.get_single(q).map(|v| v.integer().ok())))?;
            if one != want.first().map(|v| Some(*v)) {
                return bad(format!("get_single({:?}) gives {:?} of {:?}", q, one, want));
            }
            let got: Vec<i64> = guard("get", lib(|| kv.get(q)))?
                .map_or_else(Vec::new, |x| x.iter().filter_map(|v| v.integer().ok()).collect());
            if got != want {
                return bad(format!("get({:?}) gives {:?}, expected {:?}", q, got, want));
            }
        }
        if kv.len() != m.len() {
            return bad(format!("len {} with {} entries {:?}", kv.len(), m.len(), kv));
        }
        let mut got: Vec<(String, i64)> = kv.iter().map(|(k, v)| (k.to_string(), v.integer().unwrap_or(-1))).collect();
        let mut want = m.clone();
        if merged {
            got.sort();
            want.sort();
        }
        if got != want {
            return bad(format!("iteration gives {:?}, expected {:?}", got, want));
        }
        c.sig_n(got.len() as u64);
    }
    if !m.is_empty() {
        c.nontrivial();
    }
    Ok(())
}

/// Labelled blocks, through borrow_keys
fn blocks(c: &Ctx) -> R {
    let s = &c.s;
    let n = s.count(10, 100);
    let mut m: Vec<(Vec<String>, i64)> = Vec::new();
    for i in 0..n {
        let l: Vec<String> = (0..s.count(3, 14)).map(|_| s.pick(NAMES).to_string()).collect();
        m.push((l, i as i64));
        // two that are equal stay two
        if s.chance(1, 6) {
            let again = m[if s.chance(1, 2) { m.len() - 1 } else { s.usize(m.len()) }].clone();
            m.push(again);
        }
    }
    let body = |i: i64| -> MapValues<'static> {
        KeyValuePairs::Unmerged(vec![("id".into(), Value::Integer(i))])
    };
    let merged = s.chance(1, 2);
    let items: Vec<_> = m.iter().map(|(l, i)| (l.clone(), body(*i))).collect();
    let b: Block = if merged {
        KeyValuePairs::Merged(items.into_iter().collect())
    } else {
        guard("new_unmerged", lib(|| Block::new_unmerged(items)))?
    };
    let mut want_all: Vec<(Vec<String>, i64)> = Vec::new();
    for (k, v) in &m {
        match want_all.iter_mut().find(|x| merged && x.0 == *k) {
            Some(x) => x.1 = *v,
            None => want_all.push((k.clone(), *v)),
        }
    }
    c.ev(|| format!("block {:?}", b));
    let k = guard("borrow_keys", lib(|| b.borrow_keys()))?;
    if k.len() != want_all.len() {
        return bad(format!("borrow_keys has {} entries of {}", k.len(), want_all.len()));
    }
    let id = |m: &MapValues| m.get_single("id").and_then(|v| v.integer().ok()).unwrap_or(-1);
    for _ in 0..4 {
        let q: Vec<String> = if m.is_empty() || s.chance(1, 4) {
            (0..s.usize(3)).map(|_| s.pick(NAMES).to_string()).collect()
        } else {
            m[s.usize(m.len())].0.clone()
        };
        let q: Vec<&str> = q.iter().map(|x| x.as_str()).collect();
        let want: Vec<i64> = want_all.iter().filter(|x| x.0 == q).map(|x| x.1).collect();
        let got: Vec<i64> = match guard("get", lib(|| k.get::<[&str]>(&q)))? {
            None => vec![],
            Some(OneOrMany::One(x)) => vec![id(x)],
            Some(OneOrMany::Many(v)) => v.iter().map(|x| id(x)).collect(),
        };
        if got != want {
            return bad(format!("borrow_keys().get({:?}) gives {:?}, expected {:?}", q, got, want));
        }
        c.sig_n(want.len() as u64);
    }
    if n > 1 {
        c.nontrivial();
    }
    c.sig(format!("{:?}", m).as_bytes());
    Ok(())
}

pub fn c07(c: &Ctx) -> R {
    let s = &c.s;
    let names = 1 + s.usize(NAMES.len());
    // now and then so many keys that nothing small holds them
    let many = s.chance(1, 32);
    let name = move |s: &Src| if many && !s.chance(1, 16) { format!("k{}", s.usize(700)) } else { NAMES[s.usize(names)].to_string() };
    c.sig_n(many as u64);
    match s.below(6) {
        0 | 1 => drive::<String, str>(c, name, |s| s.pick(NAMES).to_string().into_boxed_str()),
        2 => drive::<Bad, Bad>(c, move |s| Bad(name(s)), |s| Box::new(Bad(s.pick(NAMES).to_string()))),
        3 => drive::<Vec<String>, [String]>(
            c,
            move |s| (0..s.usize(3)).map(|_| name(s)).collect(),
            move |s| (0..s.usize(3)).map(|_| s.pick(NAMES).to_string()).collect::<Vec<_>>().into_boxed_slice(),
        ),
        4 => keys(c),
        _ => blocks(c),
    }
}
