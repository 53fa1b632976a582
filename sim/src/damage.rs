//! C05: whatever arrives is answered
use crate::api::*;
use crate::ctx::{fail, Ctx, R};
use crate::docp;
use crate::docv::{self, cmp_map, Form};
use crate::env::{lib, work, Panicked, Work};
use crate::load::canon_ok;
use crate::reader::{Plan, SimReader};
use crate::src::Src;
use crate::text::Cfg;
use ferrous_chloride::{Error, KeyValuePairs};
use std::sync::Arc;

const TOKENS: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "\"", "\\", "\n", "\r\n", "\r", "=", ",", "#", "//", "/*", "*/", "<<EOF", "<<-E", "EOF",
    "\\u", "\\x", "\\U00110000", "\\ud800", "\\777", "\0", "\u{feff}", "é", "-", "+", ".", "e", "1e", "null", "true", " ",
    "<<", "<<-", "\\UFFFFFFFFF", "a", "a=", "\"\"", "\\N", "'", "\u{2028}", "$", "\\1234567", "${", "\\u+123", "\u{a0}",
];

/// What storage and transport do to bytes
pub fn damage(c: &Ctx, b: &mut Vec<u8>) {
    let s = &c.s;
    for _ in 0..1 + s.small(3) {
        let n = b.len();
        match s.below(9) {
            0 => {
                let at = s.usize(n + 1);
                b.truncate(at);
                c.count("fault: cut short");
                c.ev(|| format!("cut at {}", at));
            }
            1 if n > 0 => {
                let (at, bit) = (s.usize(n), s.below(8));
                b[at] ^= 1 << bit;
                c.count("fault: bit flipped");
                c.ev(|| format!("bit {} of byte {} flipped", bit, at));
            }
            2 if n > 0 => {
                let at = s.usize(n);
                let k = 1 + s.small(64).min(n - at - 1);
                b.drain(at..at + k);
                c.count("fault: range lost");
                c.ev(|| format!("{} bytes lost at {}", k, at));
            }
            3 if n > 0 => {
                let at = s.usize(n);
                let k = 1 + s.small(64).min(n - at - 1);
                let r = b[at..at + k].to_vec();
                let to = s.usize(n + 1);
                b.splice(to..to, r);
                c.count("fault: range repeated");
                c.ev(|| format!("{} bytes of {} repeated at {}", k, at, to));
            }
            4 if n > 0 => {
                let at = s.usize(n);
                let v = s.below(256) as u8;
                b[at] = v;
                c.count("fault: byte overwritten");
                c.ev(|| format!("byte {} overwritten with {}", at, v));
            }
            5 if n > 1 => {
                let (i, j) = (s.usize(n), s.usize(n));
                b.swap(i, j);
                c.count("fault: bytes swapped");
                c.ev(|| format!("bytes {} and {} swapped", i, j));
            }
            6 if n > 0 => {
                // a stale sector: zeroes or old content
                let at = s.usize(n);
                let k = (1 + s.usize(16)).min(n - at);
                let from = s.usize(n - k + 1);
                let z = s.chance(1, 2);
                for i in 0..k {
                    b[at + i] = if z { 0 } else { b[from + i] };
                }
                c.count("fault: range overwritten");
                c.ev(|| format!("{} bytes at {} overwritten", k, at));
            }
            _ => {
                let at = s.usize(n + 1);
                let t = *s.pick(TOKENS);
                b.splice(at..at, t.bytes());
                c.count("fault: text inserted");
                c.ev(|| format!("{:?} inserted at {}", t, at));
            }
        }
    }
}

/// How deep the bytes could nest at most
fn depth(b: &[u8]) -> u64 {
    let (mut d, mut m) = (0i64, 0i64);
    for c in b {
        match c {
            b'{' | b'[' | b'(' => d += 1,
            b'}' | b']' | b')' => d = (d - 1).max(0),
            _ => {}
        }
        m = m.max(d);
    }
    m as u64
}

/// Effort in step with size and depth: allocations and, in the counting build, control-flow edges.
/// The constants leave an order of magnitude over the most any document has been seen to need.
fn effort(c: &Ctx, what: &str, b: &[u8], w: Work) -> R {
    let n = b.len() as u64 + 64;
    let d = depth(b) + 1;
    let (allocs, bytes) = (w.allocs, w.bytes);
    c.with(|s| {
        let e = s.counters.entry("max: allocations per 100 bytes and level").or_insert(0);
        *e = (*e).max(allocs * 100 / (n * d));
        let e = s.counters.entry("max: bytes allocated per byte and level").or_insert(0);
        *e = (*e).max(bytes / (n * d));
        let e = s.counters.entry("max: steps per byte and level").or_insert(0);
        *e = (*e).max(w.edges / (n * d));
    });
    if allocs > ALLOCS * n * d || bytes > BYTES * n * d || w.edges > STEPS * n * d {
        return fail(
            "effort",
            format!(
                "{}: {} allocations of {} bytes and {} steps in all for {} bytes of input nested at most {} deep",
                what,
                allocs,
                bytes,
                w.edges,
                b.len(),
                d - 1
            ),
        );
    }
    Ok(())
}
const ALLOCS: u64 = 40;
const BYTES: u64 = 4000;
const STEPS: u64 = 4000;

fn answered<T>(c: &Ctx, what: &str, b: &[u8], f: impl FnOnce() -> Res<T>) -> R<Result<T, Error>> {
    let a = work();
    let r = f();
    let w = work().since(a);
    c.ev(|| format!("{}: {} allocations, {} bytes, {} log events", what, w.allocs, w.bytes, w.logs));
    let r = match r {
        Ok(r) => r,
        Err(Panicked::Injected(_)) => unreachable!(),
        Err(Panicked::Other(m)) => return fail("panic", format!("{} panics: {}", what, m)),
    };
    effort(c, what, b, w)?;
    // errors must be printable too
    if let Err(e) = &r {
        let p = lib(|| (format!("{}", e).len(), format!("{:?}", e).len()));
        guard(&format!("printing the error of {}", what), p)?;
    }
    Ok(r)
}

fn repeat_name(s: &Src, n: usize) -> String {
    s.pick(&["a", "é", "x-1"]).repeat(n)
}

/// Texts with a regular structure: deep, long, or repeating one difficulty
fn stress(c: &Ctx) -> String {
    let s = &c.s;
    let deep = 1 + s.usize(if s.chance(1, 8) { 160 } else { 24 });
    let long = 1 + s.usize(if s.chance(1, 8) { 6000 } else { 200 });
    let close = s.chance(1, 2);
    let nest = |open: &str, mid: &str, cl: &str, n: usize| {
        let mut t = open.repeat(n);
        t.push_str(mid);
        if close {
            t.push_str(&cl.repeat(n));
        } else {
            t.push_str(&cl.repeat(s.usize(n + 1)));
        }
        t
    };
    let mid = *s.pick(&["", "1", "a = 1", "\"", "\"x\"", "}", "]", "=", ",", "<<EOF\nx\nEOF\n", "a = b", "a {", "\\", "a = {}", "a = \"\" b"]);
    match s.below(20) {
        0 => nest("a {\n", mid, "\n}\n", deep),
        1 => nest("a = {", mid, "}", deep),
        2 => format!("x = {}", nest("[", mid, "]", deep)),
        3 => format!("x = {}", nest("(", mid, ")", deep)),
        4 => format!("x = {}", nest("{ a = ", mid, "}", deep)),
        5 => format!("x = {}", nest("{ (1) = ", mid, "}", deep)),
        6 => format!("x = {}", nest("[{ a = ", mid, "}]", deep)),
        7 => format!("x = {}", nest("{ [1] = ", mid, "}", deep)),
        8 => format!("x = {}", nest("{ (", mid, ") = 1 }", deep.min(40))),
        9 => nest("a \"l\" b {\n", mid, "\n}\n", deep),
        10 => format!("x = \"{}{}", s.pick(&["\\n", "\\u0041", "a", "é", "\\\"", "\\", "\\400"]).repeat(long), if close { "\"" } else { "" }),
        11 => format!("x = <<{}EOF\n{}{}", s.pick(&["", "-"]), s.pick(&["l\n", "  l\n", "\n", "EO\n", " EOFF\n", "\r\n"]).repeat(long), if close { "  EOF\n" } else { "" }),
        12 => format!("{}x = 1", s.pick(&["#\n", "/* */", "//\r\n", "\n", " ", "/*\n*/\n", "/* ", "/"]).repeat(long)),
        13 => s.pick(&["a = 1\n", "a {}\n", "a { b = 1 }\n", "a \"b\" {\n}\n", "a = []\n", "a = 1,\n", "\"a\" = 1\n"]).repeat(long),
        14 => format!("x = [{}{}", s.pick(&["1, ", "[], ", "{}, ", "\"\", ", "1,\n", "null ,", "1 "]).repeat(long), if close { "]" } else { "" }),
        15 => format!("x = {{{}{}", s.pick(&["a = 1, ", "a = 1\n", "(1) = 1,", "\"a\" = {}\n", "a = [] "]).repeat(long), if close { "}" } else { "" }),
        16 => format!("a{}", s.pick(&[" b", " \"b\"", "\"b\"", " b\"c\""]).repeat(long)),
        17 => format!("x = {}{}", s.pick(&["", "-", "."]), s.pick(&["1", "9", "0", "1.", "1e", "+", "_"]).repeat(long)),
        18 => format!("{} = {}", repeat_name(s, long), repeat_name(s, long)),
        _ => nest("a \"b\" {", mid, "}", deep),
    }
}

/// The same text made eight times longer must not cost much more per byte
fn scale(c: &Ctx) -> R {
    let s = &c.s;
    let kind = s.below(24);
    let open = s.chance(1, 4);
    let word = *s.pick(&["a", "word", "é", "x-1"]);
    let text = |n: usize| -> String {
        let each = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
        let q = if open { "" } else { "\"\n" };
        let (l, o) = if open { ("", "") } else { ("]\n", "}\n") };
        match kind {
            0 => each(&|i| format!("{}{} = {}\n", word, i, i)),
            1 => each(&|_| format!("{} = 1\n", word)),
            2 => each(&|i| format!("{} \"l{}\" {{\n a = 1\n}}\n", word, i)),
            3 => each(&|_| format!("{} {{\n a = 1\n}}\n", word)),
            4 => each(&|i| format!("{} l{} m {{ a = \"x\" }}\n", word, i)),
            5 => format!("x = [{}{}", each(&|i| format!("{}, ", i)), l),
            6 => format!("x = [{}{}", each(&|i| format!("\"{}{}\",\n", word, i)), l),
            7 => format!("x = {{\n{}{}", each(&|i| format!("k{} = true\n", i)), o),
            8 => format!("x = {{{}{}", each(&|i| format!("\"k{}\" = null, ", i)), o),
            9 => format!("x = \"{}{}", word.repeat(n * 4), q),
            10 => format!("x = \"{}{}", "\\n\\u0041".repeat(n), q),
            11 => format!("x = <<EOF\n{}{}", each(&|i| format!("line {}\n", i)), if open { "" } else { "EOF\n" }),
            12 => format!("x = <<-EOF\n{}{}", each(&|i| format!("  {} {}\n", word, i)), if open { "" } else { "  EOF\n" }),
            13 => format!("{}x = 1\n", each(&|i| format!("# {} {}\n", word, i))),
            14 => format!("{}x = 1\n", each(&|i| format!("/* {} {} */\n", word, i))),
            15 => format!("/* {} {} x = 1\n", each(&|i| format!("{} {}\n", word, i)), if open { "" } else { "*/" }),
            16 => format!("{}x{}= 1\n", "\n".repeat(n * 3), " ".repeat(n * 3)),
            17 => format!("{} {}{{\n}}\n", word, each(&|i| format!("\"l{}\" ", i))),
            18 => format!("x = {}\n", "7".repeat(n * 4)),
            19 => format!("{} = 1\n", word.repeat(n * 4)),
            20 => format!("b {{\n{}{}", each(&|i| format!("k{} = [{}, {{ a = 1 }}]\n", i, i)), o),
            21 => each(&|i| format!("x{} = {{ a = {{ b = {{ c = [1] }} }} }}\n", i)),
            22 => each(&|i| format!("x{} = \"\"\r\n# {}\r\n", i, word)),
            _ => format!("x = [{}{}", each(&|_| "[], ".to_string()), l),
        }
    };
    let n = 30 + s.usize(if s.chance(1, 8) { 400 } else { 80 });
    let entry = s.below(9);
    let mut plan = Plan::plain();
    plan.pieces = vec![*s.pick(&[0usize, 1, 1, 3, 64])];
    let mut cost = |n: usize| -> R<(usize, Work, bool)> {
        let t = text(n);
        let b = t.as_bytes();
        let data = Arc::new(b.to_vec());
        let a = work();
        let ok = match entry {
            0 => answered(c, "parse_str", b, || tree_str(&t))?.is_ok(),
            1 => answered(c, "parse_slice", b, || tree_slice(b))?.is_ok(),
            2 => answered(c, "parse_reader", b, || tree_stream(SimReader::new(c, &data, &plan)))?.is_ok(),
            3 => answered(c, "from_str", b, || values_str(&t, None))?.is_ok(),
            4 => answered(c, "from_slice(.., merge)", b, || values_slice(b, MERGE))?.is_ok(),
            5 => answered(c, "from_reader", b, || values_stream(SimReader::new(c, &data, &plan), None))?.is_ok(),
            6 => answered(c, "from_reader(.., merge)", b, || values_stream(SimReader::new(c, &data, &plan), MERGE))?.is_ok(),
            7 => match crate::typed::load(&t) {
                Ok(r) => r.is_ok(),
                Err(p) => return fail("panic", format!("serde::from_str panics: {:?}", p)),
            },
            _ => match tree_str(&t) {
                Ok(Ok(t)) => guard("Blocks::new", lib(|| ferrous_chloride::parser::block::Blocks::new(t.into_iter().filter(|e| e.is_block()).map(|e| e.unwrap_block())).len_blocks()))? > 0,
                _ => false,
            },
        };
        Ok((b.len(), work().since(a), ok))
    };
    c.ev(|| format!("text {} of {} and {} pieces, way {}, in {:?}", kind, n, 8 * n, entry, plan.pieces));
    let (l1, a, ok1) = cost(n)?;
    let (l8, b, ok8) = cost(8 * n)?;
    c.count("texts made eight times longer");
    c.add("control-flow edges counted", a.edges + b.edges);
    c.ev(|| format!("{:?} {:?} for {} bytes ({}), {:?} for {} ({})", kind, a, l1, ok1, b, l8, ok8));
    let (l1, l8) = (l1 as u64, l8 as u64);
    for (what, x, y) in [("steps", a.edges, b.edges), ("allocations", a.allocs, b.allocs), ("allocated bytes", a.bytes, b.bytes), ("copied bytes", a.moved, b.moved)].iter() {
        // a block is found under its labels one by one, so that many labels nest that deep
        if *what == "copied bytes" && (kind == 17 || *y < 500_000) {
            continue;
        }
        let r = y * 100 * l1 / (x * l8).max(1);
        let key = match *what {
            "steps" => "max: steps per byte in the longer text, % of the shorter",
            "allocations" => "max: allocations per byte in the longer text, % of the shorter",
            "allocated bytes" => "max: allocated bytes per byte in the longer text, % of the shorter",
            _ => "max: copied bytes per byte in the longer text, % of the shorter",
        };
        if *y > 20_000 {
            c.with(|s| {
                let e = s.counters.entry(key).or_insert(0);
                *e = (*e).max(r);
            });
            if r > GROWTH {
                return fail(
                    "effort",
                    format!("{} {} for {} bytes, but {} for {} bytes of the same: {}", x, what, l1, y, l8, cut(&text(n), 100)),
                );
            }
        }
    }
    c.sig(format!("{} {} {} {} {}", kind, n, entry, open, word).as_bytes());
    c.nontrivial();
    c.sample(|| format!("{} pieces of {}", n, cut(&text(n), 100)));
    Ok(())
}
/// Percent
const GROWTH: u64 = 200;

pub fn c05(c: &Ctx) -> R {
    let s = &c.s;
    if s.chance(1, 50) {
        return scale(c);
    }
    let mut cfg = Cfg::draw(s);
    cfg.big &= s.chance(1, 4);
    enum Whole {
        Tree(docp::Doc),
        Values(docv::Doc),
        None,
    }
    let (mut b, whole) = match s.weighted(&[5, 5, 3]) {
        0 => {
            let d = docp::draw_with(s, cfg);
            (d.text.clone().into_bytes(), Whole::Tree(d))
        }
        1 => {
            let d = docv::draw_with(s, cfg);
            (d.text.clone().into_bytes(), Whole::Values(d))
        }
        _ => (stress(c).into_bytes(), Whole::None),
    };
    c.ev(|| format!("before the damage {}", crate::text::show_bytes(&b)));
    // a plain cut has an oracle of its own
    let cuts = s.chance(1, 2);
    if cuts {
        let at = s.usize(b.len() + 1);
        b.truncate(at);
        c.count("fault: cut short");
        c.ev(|| format!("cut at {}", at));
    } else if !matches!(whole, Whole::None) || s.chance(1, 2) {
        damage(c, &mut b);
    }
    c.ev(|| format!("document {}", crate::text::show_bytes(&b)));
    let data = Arc::new(b.clone());
    let utf8 = std::str::from_utf8(&b).is_ok();
    let p = Plan::draw(s, b.len());
    c.ev(|| format!("stream {:?}", p));

    let tree = answered(c, "parse_slice", &b, || tree_slice(&b))?;
    let values = answered(c, "from_slice", &b, || values_slice(&b, None))?;
    let merged = answered(c, "from_slice(.., merge)", &b, || values_slice(&b, MERGE))?;
    if !utf8 && (tree.is_ok() || values.is_ok() || merged.is_ok()) {
        return fail("not UTF-8", "bytes that are not UTF-8 are accepted from memory");
    }
    let rs = answered(c, "parse_reader", &b, || tree_stream(SimReader::new(c, &data, &p)))?;
    let vs = answered(c, "from_reader", &b, || values_stream(SimReader::new(c, &data, &p), None))?;
    let ms = answered(c, "from_reader(.., merge)", &b, || values_stream(SimReader::new(c, &data, &p), MERGE))?;
    if !utf8 && (rs.is_ok() || vs.is_ok() || ms.is_ok()) {
        return fail("not UTF-8", "bytes that are not UTF-8 are accepted from a stream");
    }
    let same = |what: &str, a: String, b: String| -> R {
        let (a, b) = (canon_ok(a), canon_ok(b));
        if a != b {
            fail("disagreement", format!("{}: {} from memory, {} otherwise", what, cut(&a, 300), cut(&b, 300)))
        } else {
            Ok(())
        }
    };
    let tree: Res<_> = Ok(tree);
    let values: Res<_> = Ok(values);
    let merged: Res<_> = Ok(merged);
    let (ct, cv, cm) = (canon_tree(&tree), canon_values(&values), canon_values(&merged));
    same("parse_reader", ct.clone(), canon_tree(&Ok(rs)))?;
    same("from_reader", cv.clone(), canon_values(&Ok(vs)))?;
    same("from_reader(.., merge)", cm.clone(), canon_values(&Ok(ms)))?;
    if let Ok(t) = std::str::from_utf8(&b) {
        let r = answered(c, "parse_str", &b, || tree_str(t))?;
        same("parse_str", ct.clone(), canon_tree(&Ok(r)))?;
        let r = answered(c, "from_str", &b, || values_str(t, None))?;
        same("from_str", cv.clone(), canon_values(&Ok(r)))?;
        let r = answered(c, "from_str(.., merge)", &b, || values_str(t, MERGE))?;
        same("from_str(.., merge)", cm.clone(), canon_values(&Ok(r)))?;
        let typed = crate::typed::load(t);
        match typed {
            Err(p) => return fail("panic", format!("serde::from_str panics: {:?}", p)),
            Ok(Ok(_)) if !matches!(tree, Ok(Ok(_))) => {
                return fail("disagreement", "serde::from_str accepts what parse_str refuses")
            }
            _ => {}
        }
    }
    if let (Ok(Err(_)), Ok(Ok(_))) = (&values, &merged) {
        return fail("disagreement", "loading with merging accepts what loading refuses");
    }
    let (tree, values) = (tree.unwrap(), values.unwrap());
    c.count(match (tree.is_ok(), values.is_ok()) {
        (true, true) => "damaged documents both grammars accept",
        (true, false) => "damaged documents the tree grammar accepts",
        (false, true) => "damaged documents the value grammar accepts",
        _ => "damaged documents refused",
    });

    if cuts {
        match (&whole, &tree, &values) {
            (Whole::Tree(d), Ok(t), _) => {
                c.count("cut documents still acceptable");
                if t.len() > d.body.len() {
                    return fail("invented", format!("cut short, the document has {} elements, more than the whole {}", t.len(), d.body.len()));
                }
                for i in 0..t.len().saturating_sub(1) {
                    if let Err(m) = docp::cmp_el(&d.body[i], &t[i], &format!("/{}", i)) {
                        return fail("cut", format!("element {} of the document cut short is not that of the whole: {}", i, m));
                    }
                }
            }
            (Whole::Values(d), _, Ok(KeyValuePairs::Unmerged(v))) => {
                c.count("cut documents still acceptable");
                if v.len() > d.map.len() {
                    return fail("invented", format!("cut short, the document has {} entries, more than the whole {}", v.len(), d.map.len()));
                }
                for i in 0..v.len().saturating_sub(1) {
                    let one: docv::Map = vec![d.map[i].clone()];
                    let got = KeyValuePairs::Unmerged(vec![v[i].clone()]);
                    if let Err(m) = cmp_map(&one, &got, Form::Unmerged, &format!("/{}", i)) {
                        return fail("cut", format!("entry {} of the document cut short is not that of the whole: {}", i, m));
                    }
                }
            }
            _ => {}
        }
    }
    c.sig(&b);
    if !b.is_empty() {
        c.nontrivial();
    }
    c.sample(|| format!("bytes {} ({})", crate::text::show_bytes(&b), cut(&ct, 80)));
    Ok(())
}
