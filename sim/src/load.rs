//! C01..C04: loading documents from streams that behave, and from streams that do not
use crate::api::*;
use crate::ctx::{fail, Ctx, R};
use crate::docp;
use crate::docv::{self, cmp_map, Form};
use crate::env::{lib, Panicked};
use crate::reader::{Fail, Plan, SimReader};
use crate::text::{show, Cfg};
use ferrous_chloride::value::MapValues;
use ferrous_chloride::{AsOwned, Error, Mergeable, ScalarLength};
use std::sync::Arc;

pub fn wrong<T>(what: &str, m: String) -> R<T> {
    fail("mismatch", format!("{}: {}", what, m))
}

pub fn check<T>(what: &str, r: Result<T, String>) -> R<T> {
    r.or_else(|m| wrong(what, m))
}

pub fn c01(c: &Ctx) -> R {
    let s = &c.s;
    let mut d = docp::draw(s);
    if s.chance(1, 400) {
        d.grow(s, 3_000_000);
        c.count("documents of many kilobytes");
    }
    let d = d;
    let data = Arc::new(d.text.clone().into_bytes());
    c.ev(|| format!("document {}", show(&d.text)));
    let mut cut = false;
    let mut read = None;
    for i in 0..1 + s.usize(3) {
        let p = Plan::draw(s, data.len());
        cut |= p.cut(data.len());
        p.hash(c);
        c.ev(|| format!("delivery {}: {:?}", i, p));
        let r = tree_stream(SimReader::new(c, &data, &p));
        let b = must("parse_reader", r)?;
        check("parse_reader", docp::cmp_body(&d.body, &b, ""))?;
        let o = guard("as_owned", lib(|| b.as_owned()))?;
        drop(b);
        check("an owned copy of parse_reader's result", docp::cmp_body(&d.body, &o, ""))?;
        read = Some(o);
    }
    {
        let copy = data.to_vec();
        let b = must("parse_slice", tree_slice(&copy))?;
        check("parse_slice", docp::cmp_body(&d.body, &b, ""))?;
    }
    let owned = {
        let copy = d.text.clone();
        let b = must("parse_str", tree_str(&copy))?;
        check("parse_str", docp::cmp_body(&d.body, &b, ""))?;
        // the library's own comparison has to see the same tree too
        if !guard("==", lib(|| read.as_ref().map_or(true, |r| *r == b && b == *r)))? {
            return check("parse_reader", Err(format!("{:?} is not equal to parse_str's {:?}", read, b)));
        }
        guard("as_owned", lib(|| b.as_owned()))?
    };
    check("an owned copy of parse_str's result", docp::cmp_body(&d.body, &owned, ""))?;
    let mut sh = String::new();
    docp::shape(&d.body, &mut sh);
    c.sig(sh.as_bytes());
    if cut && !d.body.is_empty() {
        c.nontrivial();
    }
    c.sample(|| format!("document {} read in pieces", show(&d.text)));
    Ok(())
}

pub fn c02(c: &Ctx) -> R {
    let s = &c.s;
    let mut d = docv::draw(s);
    if s.chance(1, 400) {
        d.grow(s, 3_000_000);
        c.count("documents of many kilobytes");
    }
    let d = d;
    let data = Arc::new(d.text.clone().into_bytes());
    c.ev(|| format!("document {}", show(&d.text)));
    let mut cut = false;
    for i in 0..1 + s.usize(3) {
        let p = Plan::draw(s, data.len());
        cut |= p.cut(data.len());
        p.hash(c);
        c.ev(|| format!("delivery {}: {:?}", i, p));
        let m = must("from_reader", values_stream(SimReader::new(c, &data, &p), None))?;
        check("from_reader", cmp_map(&d.map, &m, Form::Unmerged, ""))?;
    }
    {
        let copy = data.to_vec();
        let m = must("from_slice", values_slice(&copy, None))?;
        check("from_slice", cmp_map(&d.map, &m, Form::Unmerged, ""))?;
    }
    let owned = {
        let copy = d.text.clone();
        let m = must("from_str", values_str(&copy, None))?;
        check("from_str", cmp_map(&d.map, &m, Form::Unmerged, ""))?;
        guard("as_owned", lib(|| m.as_owned()))?
    };
    check("an owned copy of from_str's result", cmp_map(&d.map, &owned, Form::Unmerged, ""))?;
    let mut sh = String::new();
    docv::shape(&d.map, &mut sh);
    c.sig(sh.as_bytes());
    if cut && !d.map.is_empty() {
        c.nontrivial();
    }
    c.sample(|| format!("document {} read in pieces", show(&d.text)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn merged_as(what: &str, want: &Result<docv::Map, String>, r: Res<MapValues>, n: usize) -> R {
    match (want, r) {
        (_, Err(p)) => fail("panic", format!("{} panics: {:?}", what, p)),
        (Ok(w), Ok(Ok(m))) => {
            check(what, cmp_map(w, &m, Form::Merged, ""))?;
            if !guard("is_merged", lib(|| m.is_merged()))? {
                return wrong(what, "the result does not report itself merged".into());
            }
            let k = guard("len_scalar", lib(|| m.len_scalar()))?;
            if k != n {
                return wrong(what, format!("{} scalars went in, the result counts {}", n, k));
            }
            Ok(())
        }
        (Ok(_), Ok(Err(e))) => wrong(what, format!("refuses what can be merged: {:?}", e)),
        (Err(why), Ok(Ok(m))) => {
            let mut o = String::new();
            canon_map(&m, &mut o);
            wrong(what, format!("succeeds although {}: {}", why, cut(&o, 400)))
        }
        (Err(_), Ok(Err(Error::IOError(e)))) => wrong(what, format!("reports a duplicate as I/O error {:?}", e)),
        (Err(_), Ok(Err(_))) => Ok(()),
    }
}

pub fn c03(c: &Ctx) -> R {
    let s = &c.s;
    let mut cfg = Cfg::draw(s);
    // keys repeat, but not so much that nothing can be merged
    cfg.names = *s.pick(&[3, 8, 21, 40]);
    cfg.big = false;
    cfg.coherent = s.chance(3, 4);
    cfg.many = s.chance(1, 2);
    let mut d = docv::draw_with(s, cfg.clone());
    if s.chance(1, 150) {
        // entries no small collection holds
        d.grow(s, 20_000);
        c.count("documents with many entries");
    }
    c.ev(|| format!("document {}", show(&d.text)));
    let data = Arc::new(d.text.clone().into_bytes());
    let want = docv::merge(&d.map);
    let n = docv::scalars(&d.map);
    c.count(if want.is_ok() { "documents that merge" } else { "documents with duplicates" });

    let p = Plan::draw(s, data.len());
    p.hash(c);
    c.ev(|| format!("stream {:?}", p));
    merged_as("from_reader(.., merge)", &want, values_stream(SimReader::new(c, &data, &p), MERGE), n)?;
    let seeds: Vec<u64> = (0..1 + s.usize(2)).map(|_| s.below(1 << 16)).collect();
    for seed in seeds {
        c.ev(|| format!("hash seed {}", seed));
        let (text, want) = (&d.text, &want);
        with_hash_seed(seed, || -> R {
            merged_as("from_str(.., merge)", want, values_str(text, MERGE), n)?;
            merged_as("from_slice(.., merge)", want, values_slice(text.as_bytes(), MERGE), n)
        })?;
    }

    // a history of merging, taking apart and adding entries of other documents
    let loaded = must("from_str", values_str(&d.text, None))?;
    check("from_str", cmp_map(&d.map, &loaded, Form::Unmerged, ""))?;
    if guard("is_unmerged", lib(|| loaded.is_unmerged()))? != true || guard("is_merged", lib(|| loaded.is_merged()))? {
        return wrong("is_unmerged", "a configuration just loaded does not report itself unmerged".into());
    }
    if guard("len_scalar", lib(|| loaded.len_scalar()))? != n {
        return wrong("len_scalar", format!("{} scalars were written, {} are counted", n, loaded.len_scalar()));
    }
    let more: Vec<docv::Doc> = (0..s.small(2)).map(|_| docv::draw_with(s, cfg.clone())).collect();
    let mut cur: MapValues = loaded;
    // what `cur` holds
    let mut now: docv::Map = d.map.clone();
    let mut form = Form::Unmerged;
    let steps = 1 + s.usize(7);
    for i in 0..steps {
        let n = docv::scalars(&now);
        let want = if form == Form::Merged { Ok(now.clone()) } else { docv::merge(&now) };
        let op = s.usize(if more.is_empty() { 5 } else { 7 });
        c.sig_n(op as u64);
        match op {
            0 => {
                c.ev(|| format!("step {}: as_merged", i));
                let r = lib(|| cur.as_merged());
                merged_as("as_merged", &want, r, n)?;
            }
            1 => {
                c.ev(|| format!("step {}: merge", i));
                let keep = cur.clone();
                match lib(|| cur.merge()) {
                    Ok(Ok(m)) => {
                        merged_as("merge", &want, Ok(Ok(m.clone())), n)?;
                        cur = m;
                        now = want.unwrap();
                        form = Form::Merged;
                    }
                    r => {
                        merged_as("merge", &want, r, n)?;
                        cur = keep;
                    }
                }
            }
            2 | 3 => {
                c.ev(|| format!("step {}: {}", i, if op == 2 { "unmerge" } else { "as_unmerged" }));
                let r = if op == 2 { lib(|| cur.clone().unmerge()) } else { lib(|| cur.as_unmerged()) };
                let m = guard("unmerge", r)?;
                let f = if form == Form::Merged { Form::Split } else { form };
                check("unmerge", cmp_map(&now, &m, f, ""))?;
                if guard("len_scalar", lib(|| m.len_scalar()))? != n {
                    return wrong("unmerge", format!("{} scalars went in, {} came out", n, m.len_scalar()));
                }
                if op == 2 {
                    cur = m;
                    form = f;
                }
            }
            4 => {
                c.ev(|| format!("step {}: as_owned", i));
                cur = guard("as_owned", lib(|| cur.as_owned()))?;
            }
            _ => {
                // a collection that keeps duplicates takes the entries of another document, as it
                // was read, merged while it was read, or merged and taken apart
                let e = &more[s.usize(more.len())];
                let m = docv::merge(&e.map);
                let merged = m.is_ok() && s.chance(2, 3);
                c.ev(|| format!("step {}: add {} ({})", i, show(&e.text), if merged { "merged" } else { "unmerged" }));
                if form == Form::Merged {
                    continue;
                }
                let (f, fm) = if merged { (Form::Split, m.unwrap()) } else { (Form::Unmerged, e.map.clone()) };
                let add = must("from_str", values_str(&e.text, if merged { MERGE } else { None }))?;
                let add = guard("unmerge", lib(|| add.unmerge()))?;
                check("unmerge", cmp_map(&fm, &add, f, ""))?;
                // the order a hash map gave is the order the entries now have
                let (cur_now, add_now) = (docv::in_order(&now, &cur), docv::in_order(&fm, &add));
                guard("extend", lib(|| cur.extend(add)))?;
                now = cur_now;
                now.extend(add_now);
                form = Form::Mixed;
                c.count("bodies extended by other documents");
            }
        }
        // whatever was done, what is held now is what it should be
        check("after the history", cmp_map(&now, &cur, form, ""))?;
    }
    let mut sh = String::new();
    docv::shape(&d.map, &mut sh);
    c.sig(sh.as_bytes());
    let repeats = want.as_ref().map_or(true, |w| w.len() < d.map.len());
    if repeats {
        c.count("documents with repeated keys");
        if want.is_ok() {
            c.count("documents with repeated keys that merge");
        }
    }
    if d.map.len() > 1 {
        c.nontrivial();
    }
    c.sample(|| format!("document {} ({})", show(&d.text), if want.is_ok() { "merges" } else { "has duplicates" }));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// A document either entry point may be given, with what reading it must give
pub enum Doc {
    Tree(docp::Doc),
    Values(docv::Doc, bool),
    /// Not meant to be valid
    Bytes(Vec<u8>, u8),
}

impl Doc {
    pub fn draw(c: &Ctx) -> Doc {
        let s = &c.s;
        let mut cfg = Cfg::draw(s);
        cfg.big &= s.chance(1, 4);
        match s.below(5) {
            0 | 1 => {
                let mut d = docp::draw_with(s, cfg);
                if s.chance(1, 400) {
                    d.grow(s, 300_000);
                    c.count("documents of many kilobytes");
                }
                Doc::Tree(d)
            }
            2 | 3 => {
                let m = s.chance(1, 2);
                let mut d = docv::draw_with(s, cfg);
                if s.chance(1, 400) {
                    d.grow(s, 300_000);
                    c.count("documents of many kilobytes");
                }
                Doc::Values(d, m)
            }
            _ => {
                let mut b = docp::draw_with(s, cfg).text.into_bytes();
                crate::damage::damage(c, &mut b);
                Doc::Bytes(b, s.below(3) as u8)
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Doc::Tree(d) => d.text.clone().into_bytes(),
            Doc::Values(d, _) => d.text.clone().into_bytes(),
            Doc::Bytes(b, _) => b.clone(),
        }
    }
    /// The stream is read without failing: the outcome must be right
    pub fn good(&self, c: &Ctx, data: &Arc<Vec<u8>>, p: &Plan) -> R {
        match self {
            Doc::Tree(d) => {
                let b = must("parse_reader", tree_stream(SimReader::new(c, data, p)))?;
                check("parse_reader", docp::cmp_body(&d.body, &b, ""))
            }
            Doc::Values(d, false) => {
                let m = must("from_reader", values_stream(SimReader::new(c, data, p), None))?;
                check("from_reader", cmp_map(&d.map, &m, Form::Unmerged, ""))
            }
            Doc::Values(d, true) => merged_as(
                "from_reader(.., merge)",
                &docv::merge(&d.map),
                values_stream(SimReader::new(c, data, p), MERGE),
                docv::scalars(&d.map),
            ),
            Doc::Bytes(b, k) => {
                let (want, got) = match k {
                    0 => (canon_ok(canon_tree(&tree_slice(b))), canon_ok(canon_tree(&tree_stream(SimReader::new(c, data, p))))),
                    k => {
                        let m = if *k == 1 { None } else { MERGE };
                        (
                            canon_ok(canon_values(&values_slice(b, m))),
                            canon_ok(canon_values(&values_stream(SimReader::new(c, data, p), m))),
                        )
                    }
                };
                if want != got {
                    return fail(
                        "mismatch",
                        format!("read from memory: {}; read from the stream: {}", cut(&want, 300), cut(&got, 300)),
                    );
                }
                Ok(())
            }
        }
    }
    /// The stream fails
    pub fn failing(&self, c: &Ctx, data: &Arc<Vec<u8>>, p: &Plan, how: Fail) -> R {
        let r = SimReader::new(c, data, p);
        let what;
        let r: Res<()> = match self {
            Doc::Tree(_) | Doc::Bytes(_, 0) => {
                what = "parse_reader";
                tree_stream(r).map(|r| r.map(|_| ()))
            }
            Doc::Values(_, m) => {
                what = "from_reader";
                values_stream(r, if *m { MERGE } else { None }).map(|r| r.map(|_| ()))
            }
            Doc::Bytes(_, k) => {
                what = "from_reader";
                values_stream(r, if *k == 1 { None } else { MERGE }).map(|r| r.map(|_| ()))
            }
        };
        match (how, r) {
            (_, Ok(Ok(()))) => fail("swallowed", format!("{} returns a document although the stream failed with {:?}", what, how)),
            (Fail::Panic(a), Err(Panicked::Injected(b))) if a == b => Ok(()),
            (Fail::Panic(_), Ok(Err(_))) => Ok(()),
            (_, Err(p)) => fail("panic", format!("{} panics when the stream fails with {:?}: {:?}", what, how, p)),
            (how, Ok(Err(Error::IOError(e)))) => {
                if how.is(&e) {
                    Ok(())
                } else {
                    fail("other failure", format!("{}: the stream failed with {:?}, the call reports {:?}", what, how, e))
                }
            }
            (how, Ok(Err(e))) => fail(
                "other failure",
                format!("{}: the stream failed with {:?}, the call reports {}", what, how, cut(&format!("{:?}", e), 300)),
            ),
        }
    }
}

/// Errors of different entry points need not be spelled alike
pub fn canon_ok(s: String) -> String {
    if s.starts_with("err") {
        "err".into()
    } else {
        s
    }
}

pub fn c04(c: &Ctx) -> R {
    let s = &c.s;
    let docs: Vec<Doc> = (0..1 + s.usize(2)).map(|_| Doc::draw(c)).collect();
    let datas: Vec<Arc<Vec<u8>>> = docs.iter().map(|d| Arc::new(d.bytes())).collect();
    for (i, d) in datas.iter().enumerate() {
        c.ev(|| format!("document {}: {}", i, crate::text::show_bytes(d)));
    }
    let mut failed = 0;
    for step in 0..1 + s.usize(5) {
        let i = s.usize(docs.len());
        let p = Plan::draw(s, datas[i].len());
        // failures first: the point is what they do, and what the calls after them see
        if s.chance(2, 5) && step > 0 {
            c.ev(|| format!("step {}: read document {} with {:?}", step, i, p));
            docs[i].good(c, &datas[i], &p)?;
            if failed > 0 {
                c.count("good reads after failed ones");
            }
        } else {
            let ends: &[usize] = match &docs[i] {
                Doc::Tree(d) => &d.ends,
                _ => &[],
            };
            let p = p.with_fail(s, datas[i].len(), ends);
            p.hash(c);
            c.ev(|| format!("step {}: read document {} with {:?}", step, i, p));
            let (at, how) = p.fail.unwrap();
            if at == datas[i].len() {
                c.count("failures after the last byte");
            }
            docs[i].failing(c, &datas[i], &p, how)?;
            failed += 1;
        }
        c.sig_n(datas[i].len() as u64);
    }
    if failed > 0 && datas.iter().any(|d| !d.is_empty()) {
        c.nontrivial();
    }
    c.sample(|| format!("{} failing reads of {}", failed, crate::text::show_bytes(&datas[0])));
    Ok(())
}
