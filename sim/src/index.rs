//! C06: histories on the block index, against a list of blocks
use crate::api::{cut, guard};
use crate::ctx::{fail, Ctx, R};
use crate::env::{inject_panic, lib, out, set_hash_seed, Panicked};
use crate::src::Src;
use ferrous_chloride::parser::block::{Block, BlockBody, BlockLabel, Blocks};
use ferrous_chloride::parser::body::{Body, BodyElement};
use ferrous_chloride::parser::expression::Expression;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug, PartialEq)]
struct Blk {
    ty: String,
    labels: Vec<String>,
    id: u64,
}

type Model = Vec<Blk>;

const TYPES: &[&str] = &["a", "b", "resource", "é", "c", "A", "_a", "a-"];
const LABELS: &[&str] = &["x", "y", "z", "x y", "", "é", "a", "X", " x", "x ", "\u{feff}x", "x\n"];

fn draw_blk(s: &Src, next: &mut u64, types: usize, labels: usize, depth: usize) -> Blk {
    Blk {
        ty: TYPES[s.usize(types)].to_string(),
        labels: draw_labels(s, labels, depth),
        id: draw_id(s, next),
    }
}

/// Bodies may be equal, and 0 is the empty one
fn draw_id(s: &Src, next: &mut u64) -> u64 {
    if s.chance(1, 4) {
        return s.below(3);
    }
    *next += 1;
    *next
}

fn draw_labels(s: &Src, labels: usize, depth: usize) -> Vec<String> {
    (0..s.usize(depth + 1)).map(|_| LABELS[s.usize(labels)].to_string()).collect()
}

fn real_label(s: &Src, l: &str) -> BlockLabel<'static> {
    // both spellings are the same label
    if s.chance(1, 2) {
        BlockLabel::StringLiteral(l.to_string())
    } else {
        BlockLabel::Identifier(Cow::Owned(l.to_string()))
    }
}

fn real_body(id: u64) -> Body<'static> {
    let id_attr = || BodyElement::Attribute((Cow::Owned(format!("id{}", id)), Expression::Boolean(id % 2 == 0)));
    match id {
        0 => vec![],
        x if x % 7 == 0 => vec![
            id_attr(),
            BodyElement::Block(Block { r#type: Cow::Owned("x".into()), labels: vec![], body: vec![] }),
            id_attr(),
        ],
        _ => vec![id_attr()],
    }
}

fn real_blk(s: &Src, b: &Blk) -> Block<'static> {
    Block {
        r#type: Cow::Owned(b.ty.clone()),
        labels: b.labels.iter().map(|l| real_label(s, l)).collect(),
        body: real_body(b.id),
    }
}

fn id_of(b: &Body) -> Result<u64, String> {
    let id = match b.first() {
        None => return Ok(0),
        Some(BodyElement::Attribute((n, _))) => n.trim_start_matches("id").parse().ok(),
        Some(_) => None,
    };
    match id {
        Some(id) if real_body(id) == *b => Ok(id),
        _ => Err(format!("body {:?} was never put in", b)),
    }
}

fn bad<T>(m: String) -> R<T> {
    fail("mismatch", m)
}

/// Bodies grouped by path, in order
type Listing = BTreeMap<(String, Vec<String>), Vec<u64>>;

fn listing<'m>(m: impl Iterator<Item = &'m Blk>) -> Listing {
    let mut l = Listing::new();
    for b in m {
        l.entry((b.ty.clone(), b.labels.clone())).or_default().push(b.id);
    }
    l
}

fn listed<'a, S: AsRef<str>, B: std::borrow::Borrow<Body<'a>>>(
    it: impl Iterator<Item = (S, VecDeque<S>, B)>,
) -> R<Listing> {
    let mut l = Listing::new();
    for (t, ls, b) in it {
        let id = id_of(b.borrow()).or_else(|m| bad(m))?;
        l.entry((t.as_ref().to_string(), ls.iter().map(|x| x.as_ref().to_string()).collect())).or_default().push(id);
    }
    Ok(l)
}

fn eq(what: &str, want: &Listing, got: &Listing) -> R {
    if want != got {
        return bad(format!("{}: expected {}, got {}", what, cut(&format!("{:?}", want), 500), cut(&format!("{:?}", got), 500)));
    }
    Ok(())
}

fn len_uniform(lens: &BTreeSet<usize>) -> Option<usize> {
    if lens.len() == 1 {
        lens.iter().next().copied()
    } else {
        None
    }
}

/// One level of the index against the blocks at or below it
fn check_body(s: &Src, what: &str, b: &BlockBody, below: &[(Vec<String>, u64)]) -> R {
    let n = guard("len_blocks", lib(|| b.len_blocks()))?;
    if n != below.len() {
        return bad(format!("{}: len_blocks is {}, {} blocks were put there", what, n, below.len()));
    }
    let here: Vec<u64> = below.iter().filter(|x| x.0.is_empty()).map(|x| x.1).collect();
    let got: Vec<u64> = b.get_empty().iter().map(|x| id_of(x)).collect::<Result<_, _>>().or_else(|m| bad(m))?;
    if here != got {
        return bad(format!("{}: get_empty gives {:?}, expected {:?}", what, got, here));
    }
    let further: BTreeSet<String> = below.iter().filter_map(|x| x.0.first().cloned()).collect();
    if b.has_further_labels() == further.is_empty() {
        return bad(format!("{}: has_further_labels is {}", what, b.has_further_labels()));
    }
    let keys: Vec<String> =
        b.get_labels().map_or_else(Vec::new, |h| h.keys().map(|k| k.as_str().to_string()).collect());
    let kset: BTreeSet<String> = keys.iter().cloned().collect();
    if keys.len() != kset.len() || kset != further {
        return bad(format!("{}: get_labels has {:?}, expected {:?}", what, keys, further));
    }
    let lens: BTreeSet<usize> = below.iter().map(|x| x.0.len()).collect();
    let got = guard("label_lens", lib(|| b.label_lens()))?;
    if !below.is_empty() && got != lens {
        return bad(format!("{}: label_lens is {:?}, expected {:?}", what, got, lens));
    }
    let got = guard("label_lens_uniform", lib(|| b.label_lens_uniform()))?;
    if !below.is_empty() && (got != len_uniform(&lens) || b.is_label_lens_uniform() != got.is_some()) {
        return bad(format!("{}: label_lens_uniform is {:?}, lengths are {:?}", what, got, lens));
    }
    let want = listing(
        below.iter().map(|(l, id)| Blk { ty: String::new(), labels: l.clone(), id: *id }).collect::<Vec<_>>().iter(),
    );
    let got = guard("flat_iter", lib(|| listed(b.flat_iter().map(|(l, b)| ("", l, b)))))??;
    eq(&format!("{}: flat_iter", what), &want, &got)?;
    let _ = s;
    Ok(())
}

fn check_all(c: &Ctx, b: &Blocks<'static>, m: &Model, deep: bool) -> R {
    let s = &c.s;
    let want = listing(m.iter());
    let got = guard("flat_iter", lib(|| listed(b.flat_iter())))??;
    eq("flat_iter", &want, &got)?;
    let types: BTreeSet<&str> = m.iter().map(|b| b.ty.as_str()).collect();
    if b.len() != types.len() || b.is_empty() != types.is_empty() || b.len_blocks() != m.len() {
        return bad(format!(
            "{} blocks of {} types: len {}, is_empty {}, len_blocks {}",
            m.len(),
            types.len(),
            b.len(),
            b.is_empty(),
            b.len_blocks()
        ));
    }
    let got: Vec<&str> = b.iter().map(|x| x.0.as_ref()).collect();
    if got.len() != types.len() || got.iter().copied().collect::<BTreeSet<_>>() != types {
        return bad(format!("iter gives types {:?}, expected {:?}", got, types));
    }
    let (lens, uni, isu) = (b.label_lens(), b.label_lens_uniform(), b.is_label_lens_uniform());
    for t in &types {
        let want: BTreeSet<usize> = m.iter().filter(|b| b.ty == *t).map(|b| b.labels.len()).collect();
        let u = len_uniform(&want);
        if lens.get(t) != Some(&want) || uni.get(t) != Some(&u) || isu.get(t) != Some(&u.is_some()) {
            return bad(format!(
                "type {}: label lengths {:?}, got {:?}, uniform {:?}, {:?}",
                t,
                want,
                lens.get(t),
                uni.get(t),
                isu.get(t)
            ));
        }
    }
    if lens.len() != types.len() || uni.len() != types.len() || isu.len() != types.len() {
        return bad("label lengths of types that are not there".into());
    }
    for (t, body) in b {
        let below: Vec<_> = m.iter().filter(|x| x.ty == t.as_ref()).map(|x| (x.labels.clone(), x.id)).collect();
        check_body(s, t, body, &below)?;
    }
    if deep {
        // every path and every partial path
        let mut paths: BTreeSet<(String, Vec<String>)> = BTreeSet::new();
        for x in m {
            for k in 0..=x.labels.len() {
                paths.insert((x.ty.clone(), x.labels[..k].to_vec()));
            }
        }
        for (t, p) in &paths {
            check_path(c, b, m, t, p)?;
        }
        for _ in 0..3 {
            let t = s.pick(TYPES).to_string();
            let p = draw_labels(s, LABELS.len(), 4);
            check_path(c, b, m, &t, &p)?;
        }
    }
    Ok(())
}

fn check_path(c: &Ctx, b: &Blocks<'static>, m: &Model, t: &str, p: &[String]) -> R {
    let below: Vec<_> = m
        .iter()
        .filter(|x| x.ty == t && x.labels.starts_with(p))
        .map(|x| (x.labels[p.len()..].to_vec(), x.id))
        .collect();
    let what = format!("get({:?}, {:?})", t, p);
    match guard(&what, lib(|| b.get(t, p)))? {
        None if below.is_empty() => Ok(()),
        None => bad(format!("{} finds nothing, {} blocks are there", what, below.len())),
        Some(_) if below.is_empty() => bad(format!("{} finds something, nothing was put there", what)),
        Some(x) => check_body(&c.s, &what, x, &below),
    }
}

/// A source of blocks, which may panic part-way
struct Feed {
    items: VecDeque<Block<'static>>,
    panic_at: Option<usize>,
    given: usize,
    lie: u8,
}
impl Iterator for Feed {
    type Item = Block<'static>;
    fn next(&mut self) -> Option<Self::Item> {
        out(|| {
            if self.panic_at == Some(self.given) {
                inject_panic(7);
            }
            self.given += 1;
            self.items.pop_front()
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // hints are hints
        match self.lie {
            0 => (self.items.len(), Some(self.items.len())),
            1 => (0, None),
            _ => (0, Some(self.items.len())),
        }
    }
}

pub fn c06(c: &Ctx) -> R {
    let s = &c.s;
    let seed = s.below(1 << 16);
    crate::api::with_hash_seed(seed, || {
        set_hash_seed(seed);
        history(c)
    })
}

fn history(c: &Ctx) -> R {
    let s = &c.s;
    let mut next = 0;
    let types = 1 + s.usize(TYPES.len());
    let labels = 1 + s.usize(LABELS.len());
    let depth = *s.pick(&[1usize, 2, 3, 5, 12]);
    let mut m: Model = Vec::new();
    let many = |s: &Src, next: &mut u64| -> Vec<Blk> {
        (0..s.count(10, 60)).map(|_| draw_blk(s, next, types, labels, depth)).collect()
    };
    let feed = |s: &Src, v: &[Blk], faults: bool| -> Feed {
        let items: VecDeque<_> = v.iter().map(|b| real_blk(s, b)).collect();
        let panic_at = if faults && s.chance(1, 5) { Some(s.usize(v.len() + 1)) } else { None };
        Feed { items, panic_at, given: 0, lie: s.below(3) as u8 }
    };
    let first = many(s, &mut next);
    c.ev(|| format!("new from {:?}", first));
    let f = feed(s, &first, false);
    let how = s.below(3);
    let mut b: Blocks<'static> = guard(
        "new",
        lib(|| match how {
            0 => Blocks::new(f),
            1 => f.collect(),
            _ => Blocks::new(f.items.into_iter().collect::<Vec<_>>()),
        }),
    )?;
    m.extend(first);
    check_all(c, &b, &m, true)?;
    let steps = s.small(14);
    for i in 0..steps {
        let op = s.usize(13);
        c.sig_n(op as u64);
        c.tick();
        match op {
            0..=2 => {
                let x = draw_blk(s, &mut next, types, labels, depth);
                c.ev(|| format!("step {}: append {:?}", i, x));
                let r = real_blk(s, &x);
                guard("append", lib(|| b.append(r)))?;
                m.push(x);
            }
            3 | 4 => {
                let v = many(s, &mut next);
                let f = feed(s, &v, true);
                c.ev(|| format!("step {}: extend with {:?}, panic at {:?}", i, v, f.panic_at));
                let at = f.panic_at;
                match (lib(|| b.extend(f)), at) {
                    (Ok(()), None) => m.extend(v),
                    (Err(Panicked::Injected(_)), Some(at)) => {
                        c.count("fault: source of blocks panicked");
                        let n = b.len_blocks();
                        let k = n.wrapping_sub(m.len());
                        if k > at {
                            return bad(format!("{} blocks are there, {} were there and {} produced", n, m.len(), at));
                        }
                        m.extend(v.into_iter().take(k));
                    }
                    (Ok(()), Some(_)) => return fail("swallowed", "extend goes on although its source panicked"),
                    (Err(p), _) => return fail("panic", format!("extend panics: {:?}", p)),
                }
            }
            5 => {
                // append below a path, through mutable access
                let t = if m.is_empty() || s.chance(1, 4) { s.pick(TYPES).to_string() } else { m[s.usize(m.len())].ty.clone() };
                let mut p = if m.is_empty() || s.chance(1, 4) {
                    draw_labels(s, labels, depth)
                } else {
                    m[s.usize(m.len())].labels.clone()
                };
                p.truncate(s.usize(p.len() + 1));
                let there = m.iter().any(|x| x.ty == t && x.labels.starts_with(&p));
                c.ev(|| format!("step {}: get_mut({:?}, {:?}) and add", i, t, p));
                let rest: Vec<Vec<String>> = (0..1 + s.usize(2)).map(|_| draw_labels(s, labels, depth)).collect();
                let mut added = Vec::new();
                match guard("get_mut", lib(|| b.get_mut(&t, &p)))? {
                    None if there => return bad(format!("get_mut({:?}, {:?}) finds nothing", t, p)),
                    Some(_) if !there => return bad(format!("get_mut({:?}, {:?}) finds something", t, p)),
                    None => {}
                    Some(x) => {
                        let ext = s.chance(1, 2);
                        let mut reals = Vec::new();
                        for r in rest {
                            let id = draw_id(s, &mut next);
                            reals.push((r.iter().map(|l| real_label(s, l)).collect::<Vec<_>>(), real_body(id)));
                            let mut full = p.clone();
                            full.extend(r);
                            added.push(Blk { ty: t.clone(), labels: full, id });
                        }
                        guard(
                            "append to a body",
                            lib(|| {
                                if ext {
                                    x.extend(reals)
                                } else {
                                    for (l, b) in reals {
                                        x.append(l, b)
                                    }
                                }
                            }),
                        )?;
                    }
                }
                m.extend(added);
            }
            6 => {
                // edit bodies through the flat mutable iterator, of the index or of a part of it,
                // perhaps abandoning it
                let take = if s.chance(1, 2) { usize::MAX } else { s.usize(m.len() + 1) };
                let part = if !m.is_empty() && s.chance(1, 2) {
                    let x = &m[s.usize(m.len())];
                    let k = s.usize(x.labels.len() + 1);
                    Some((x.ty.clone(), x.labels[..k].to_vec()))
                } else {
                    None
                };
                c.ev(|| format!("step {}: edit through flat_iter_mut of {:?}, {} at most", i, part, take));
                let p: *mut Blocks<'static> = &mut b;
                let base = next;
                // what was seen where, and what it was replaced with
                let mut edits: Vec<(String, Vec<String>, u64, u64)> = Vec::new();
                // SAFETY: the signature ties the borrow to the content's lifetime; it ends here
                let e = lib(|| {
                    let b: &'static mut Blocks<'static> = unsafe { &mut *p };
                    let mut k = base;
                    let mut edit = |t: &str, l: Vec<String>, body: &mut Body<'static>| {
                        k += 1;
                        edits.push((t.to_string(), l, id_of(body)?, k));
                        *body = real_body(k);
                        Ok::<_, String>(())
                    };
                    match &part {
                        None => {
                            for (t, l, body) in b.flat_iter_mut().take(take) {
                                edit(t, l.iter().map(|l| l.to_string()).collect(), body)?;
                            }
                        }
                        Some((t, labels)) => match b.get_mut(t, labels) {
                            None => return Err(format!("get_mut({:?}, {:?}) finds nothing", t, labels)),
                            Some(x) => {
                                for (l, body) in x.flat_iter_mut().take(take) {
                                    let l = labels.iter().cloned().chain(l.iter().map(|l| l.to_string())).collect();
                                    edit(t, l, body)?;
                                }
                            }
                        },
                    }
                    Ok::<_, String>(())
                });
                guard("flat_iter_mut", e)?.or_else(|m| bad(m))?;
                next += edits.len() as u64;
                let there = m
                    .iter()
                    .filter(|x| part.as_ref().map_or(true, |(t, l)| x.ty == *t && x.labels.starts_with(l)))
                    .count();
                if edits.len() != take.min(there) {
                    return bad(format!("flat_iter_mut yields {} bodies of {}, asked for {}", edits.len(), there, take));
                }
                let mut seen: BTreeMap<(String, Vec<String>), usize> = BTreeMap::new();
                for (t, l, id, k) in edits {
                    let n = seen.entry((t.clone(), l.clone())).or_insert(0);
                    *n += 1;
                    match m.iter_mut().filter(|x| x.ty == t && x.labels == l).nth(*n - 1) {
                        Some(x) if x.id == id => x.id = k,
                        x => return bad(format!("flat_iter_mut yields body {} at {:?} {:?}, it is {:?}", id, t, l, x)),
                    }
                }
            }
            7 => {
                c.ev(|| format!("step {}: consume and rebuild", i));
                let flat = guard("flat_into_iter", lib(|| b.flat_into_iter().collect::<Vec<_>>()))?;
                let got = listed(flat.iter().map(|(t, l, b)| (t.clone(), l.clone(), b.clone())))?;
                eq("flat_into_iter", &listing(m.iter()), &got)?;
                m = flat
                    .iter()
                    .map(|(t, l, b)| Blk {
                        ty: t.to_string(),
                        labels: l.iter().map(|x| x.to_string()).collect(),
                        id: id_of(b).unwrap_or(0),
                    })
                    .collect();
                let items = m.iter().map(|x| real_blk(s, x)).collect::<Vec<_>>();
                b = guard("new", lib(|| Blocks::new(items)))?;
            }
            8 => {
                c.ev(|| format!("step {}: clone", i));
                let d = b.clone();
                if !guard("==", lib(|| d == b))? {
                    return bad("a clone is not equal to its original".into());
                }
                b = d;
            }
            9 => {
                // abandoned readers change nothing
                let k = s.usize(m.len() + 1);
                c.ev(|| format!("step {}: abandon flat_iter after {}", i, k));
                let got = guard("flat_iter", lib(|| b.flat_iter().take(k).count()))?;
                if got != k {
                    return bad(format!("flat_iter ends after {} of {} blocks", got, m.len()));
                }
                c.count("abandoned iterators");
            }
            10 => {
                // edits through iter_mut
                c.ev(|| format!("step {}: append through iter_mut", i));
                let l = draw_labels(s, labels, depth);
                let mut added = Vec::new();
                for (t, x) in &mut b {
                    let id = draw_id(s, &mut next);
                    let ls: Vec<_> = l.iter().map(|l| real_label(s, l)).collect();
                    let body = real_body(id);
                    guard("append", lib(|| x.append(ls, body)))?;
                    added.push(Blk { ty: t.to_string(), labels: l.clone(), id });
                }
                m.extend(added);
            }
            11 => {
                // a new index from the same blocks, in an order that keeps each path's own
                c.ev(|| format!("step {}: interleave anew", i));
                let mut lanes: BTreeMap<(String, Vec<String>), VecDeque<Blk>> = BTreeMap::new();
                for x in &m {
                    lanes.entry((x.ty.clone(), x.labels.clone())).or_default().push_back(x.clone());
                }
                let mut lanes: Vec<_> = lanes.into_iter().map(|x| x.1).collect();
                let mut order = Vec::new();
                while !lanes.is_empty() {
                    let k = s.usize(lanes.len());
                    match lanes[k].pop_front() {
                        Some(x) => order.push(x),
                        None => {
                            lanes.remove(k);
                        }
                    }
                }
                let f = feed(s, &order, false);
                let d: Blocks = guard("new", lib(|| Blocks::new(f)))?;
                if !guard("==", lib(|| d == b))? {
                    return bad("two indexes of the same blocks are not equal".into());
                }
                b = d;
            }
            _ => {
                // building from a source that panics builds nothing and breaks nothing
                let v = many(s, &mut next);
                let mut f = feed(s, &v, false);
                f.panic_at = Some(s.usize(v.len() + 1));
                c.ev(|| format!("step {}: new from a source that panics at {:?}", i, f.panic_at));
                match lib(|| Blocks::new(f)) {
                    Err(Panicked::Injected(_)) => c.count("fault: source of blocks panicked"),
                    Err(p) => return fail("panic", format!("new panics: {:?}", p)),
                    Ok(_) => return fail("swallowed", "new answers although its source panicked"),
                }
            }
        }
        let deep = s.chance(1, 3) || i + 1 == steps;
        check_all(c, &b, &m, deep)?;
    }
    for x in &m {
        c.sig_n((x.ty.len() * 8 + x.labels.len()) as u64);
    }
    if m.len() > 1 {
        c.nontrivial();
    }
    c.sample(|| format!("{} steps, ending with {}", steps, cut(&format!("{:?}", listing(m.iter())), 400)));
    Ok(())
}
