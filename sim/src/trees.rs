//! C14: syntax trees the caller builds, edits, compares and takes apart, against a plain model.
//! The second opinion on a built tree is the tree of its text.
use crate::api::{cut, guard, must, tree_str};
use crate::ctx::{fail, Ctx, R};
use crate::docp::{cmp_body, cmp_ex, El, Ex, Key};
use crate::env::{inject_panic, lib, out, Panicked};
use crate::src::Src;
use ferrous_chloride::parser::block::{Block, BlockLabel};
use ferrous_chloride::parser::body::{Body, BodyElement};
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::number::Number;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::AsOwned;
use serde::de::{Deserialize, DeserializeOwned};
use std::borrow::Cow;
use std::collections::HashMap;
use std::fmt::Debug;

type E = Expression<'static>;

const NAMES: &[&str] = &["a", "b", "key", "é", "a-b"];

fn bad<T>(what: &str, want: &dyn Debug, got: &dyn Debug) -> R<T> {
    fail("mismatch", format!("{}: expected {}, got {}", what, cut(&format!("{:?}", want), 300), cut(&format!("{:?}", got), 300)))
}

fn check(what: &str, r: Result<(), String>) -> R {
    r.or_else(|m| fail("mismatch", format!("{}: {}", what, m)))
}

/// What a machine number is as a type, or that it does not fit
fn as_type<T: DeserializeOwned + Debug>(e: &E) -> Result<Result<T, ()>, Panicked> {
    let e = e.clone();
    lib(|| T::deserialize(e).map_err(|_| ()))
}

/// A number through every typed loading there is
fn loads(e: &E, text: &str) -> R {
    macro_rules! ints {
        ($($t:ty)*) => {$(
            // "-0" is nothing but 0
            let zero = text.starts_with('-') && text[1..].bytes().all(|b| b == b'0');
            let want = if zero { Ok(0) } else { text.parse::<$t>().map_err(|_| ()) };
            let got = guard("deserializing a number", as_type::<$t>(e))?;
            if got != want {
                return bad(concat!("a number as ", stringify!($t)), &want, &got);
            }
        )*};
    }
    ints!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
    let want: f64 = text.parse().expect("a number");
    let got = guard("deserializing a number", as_type::<f64>(e))?;
    if got != Ok(want) {
        return bad("a number as f64", &want, &got);
    }
    let got = guard("deserializing a number", as_type::<f32>(e))?;
    if got != Ok(want as f32) && got.ok() != text.parse().ok() {
        return bad("a number as f32", &(want as f32), &got);
    }
    for k in 0..2 {
        let e = e.clone();
        let r = match k {
            0 => lib(|| bool::deserialize(e).is_ok()),
            _ => lib(|| String::deserialize(e).is_ok()),
        };
        if guard("deserializing a number", r)? {
            return bad("a number as a boolean or string", &"an error", &k);
        }
    }
    match guard("deserializing a number", lib(|| Option::<f64>::deserialize(e.clone()).map_err(|_| ())))? {
        Ok(Some(x)) if x == want => Ok(()),
        r => bad("a number as an option", &want, &r),
    }
}

/// A number, built from a machine type or read from its literal, that has been looked at closely
fn number(s: &Src) -> R<(Ex, E)> {
    macro_rules! int {
        ($t:ty, $x:expr) => {{
            let x = *s.pick(&[0 as $t, 1, 7, 100, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, (<$t>::MAX / 3)]);
            let x: $t = if $x { x } else { x / 2 };
            let e: E = guard("Expression::from", lib(|| E::from(x)))?;
            let n: Number<'static> = guard("Number::from", lib(|| Number::from(x)))?;
            (x.to_string(), e, n)
        }};
    }
    macro_rules! float {
        ($t:ty, $l:expr) => {{
            let x: $t = *s.pick(&$l);
            let e: E = guard("Expression::from", lib(|| E::from(x)))?;
            let n: Number<'static> = guard("Number::from", lib(|| Number::from(x)))?;
            (x.to_string(), e, n)
        }};
    }
    let h = s.chance(1, 2);
    let (text, e, n) = match s.below(13) {
        0 => int!(u8, h),
        1 => int!(u16, h),
        2 => int!(u32, h),
        3 => int!(u64, h),
        4 => int!(u128, h),
        5 => int!(i8, h),
        6 => int!(i16, h),
        7 => int!(i32, h),
        8 => int!(i64, h),
        9 => int!(i128, h),
        10 => float!(f32, [0.5, -0.5, 1.25, -1.25, 3.1415927, 8388607.5, -0.1, 1e-30, 0.0, 1.0, -3.0, 16777216.0, 1e20, f32::MAX, f32::MIN, f32::MIN_POSITIVE]),
        11 => float!(f64, [0.5, -0.5, 1.25, -1.25, 3.141592653589793, 4503599627370495.5, -0.1, 1e-300, 5e-324, 0.0, 1.0, -3.0, 1e15, 1e19, -1e19, 1e20, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE]),
        _ => {
            let mut o = crate::text::Out::new(crate::text::Cfg::draw(s));
            let t = o.number(s);
            let e = match guard("Expression::parse", lib(|| Expression::parse(&t).map(|e| e.as_owned())))? {
                Ok(e) => e,
                Err(e) => return bad("Expression::parse", &t, &e),
            };
            check("a parsed number", cmp_ex(&Ex::Num(t.clone()), &e, ""))?;
            loads(&e, &t)?;
            return Ok((Ex::Num(t), e));
        }
    };
    check("a built number", crate::docp::cmp_num(&text, &n))?;
    check("a built number", cmp_ex(&Ex::Num(text.clone()), &e, ""))?;
    match &e {
        Expression::Number(m) if *m == n && n == *m => {}
        _ => return bad("Expression::from and Number::from", &n, &e),
    }
    loads(&e, &text)?;
    if s.chance(1, 50) {
        // no literal spells these
        for x in &[std::f64::INFINITY, std::f64::NEG_INFINITY] {
            let e: E = guard("Expression::from", lib(|| E::from(*x)))?;
            loads(&e, &x.to_string())?;
        }
    }
    Ok((Ex::Num(text), e))
}

/// Two number literals, and whether they are the same number. Numbers that differ in the last
/// digits a float holds may go either way.
fn numbers(c: &Ctx) -> R {
    let s = &c.s;
    let is_int = |t: &str| !t.contains(|c| c == '.' || c == 'e' || c == 'E');
    let small = ["0.0", "-0.0", "0", "1e-17", "-1e-17", "1e-20", "1e-310", "2e-310", "5e-324", "1e-300", "2.5e-308"];
    let large = ["1e308", "-1e308", "1.7e308", "1e300", "0.5", "1", "1.0", "3e0", "3", "-3", "10e1", "100"];
    let draw = || match s.below(4) {
        0 => s.pick(&small).to_string(),
        1 => s.pick(&large).to_string(),
        _ => crate::text::Out::new(crate::text::Cfg::draw(s)).number(s),
    };
    let a = draw();
    let (sign, digits) = match a.chars().next() {
        Some(x @ '-') | Some(x @ '+') => (x.to_string(), a[1..].to_string()),
        _ => (String::new(), a.clone()),
    };
    // the other one may be the same one spelled otherwise
    let b = match s.below(6) {
        0 if sign != "-" => format!("+{}", digits),
        1 if digits.starts_with(|c: char| c.is_ascii_digit()) => format!("{}00{}", sign, digits),
        2 if is_int(&a) => format!("{}.0", a),
        3 if is_int(&a) => format!("{}1", a),
        4 => format!("{}{}", if sign == "-" { "" } else { "-" }, digits),
        _ => draw(),
    };
    let want = if is_int(&a) && is_int(&b) {
        let plain = |t: &str| {
            let d = t.trim_start_matches(|c| c == '+' || c == '-').trim_start_matches('0').to_string();
            (t.starts_with('-') && !d.is_empty(), d)
        };
        Some(plain(&a) == plain(&b))
    } else {
        let (x, y): (f64, f64) = (a.parse().unwrap(), b.parse().unwrap());
        let big = f64::max(x.abs(), y.abs());
        if x == y {
            // an integer beyond what a float holds may be told from the float next to it
            if big < 1e15 || is_int(&a) == is_int(&b) { Some(true) } else { None }
        } else if big < 1e-290 || x == 0.0 || y == 0.0 || big.is_infinite() || (x / 2.0 - y / 2.0).abs() > big * 1e-9 {
            Some(false)
        } else {
            None
        }
    };
    let read = |t: &String| -> R<E> {
        match guard("Expression::parse", lib(|| Expression::parse(t).map(|e| e.as_owned())))? {
            Ok(e) => Ok(e),
            Err(e) => bad("Expression::parse", t, &e),
        }
    };
    let (x, y) = (read(&a)?, read(&b)?);
    let got = guard("==", lib(|| (x == y, y == x)))?;
    if got.0 != got.1 || want.map_or(false, |w| w != got.0) {
        return bad(&format!("{} == {}, and the other way around", a, b), &want, &got);
    }
    c.count(match want {
        Some(true) => "numbers compared that are the same",
        Some(false) => "numbers compared that differ",
        None => "numbers compared that are close",
    });
    Ok(())
}

/// Keys of an object that are expressions keep their text and are no names
fn raw_keys(c: &Ctx) -> R {
    let s = &c.s;
    let keys: Vec<(Option<String>, String)> = (0..1 + s.small(4))
        .map(|_| match s.below(3) {
            0 => (None, format!("\"{}\"", s.pick(NAMES))),
            1 => (None, s.below(100).to_string()),
            _ => {
                let k = s.pick(NAMES).to_string();
                (Some(k.clone()), k)
            }
        })
        .collect();
    let text = format!("{{{}}}", keys.iter().map(|k| format!("{} = 1", k.1)).collect::<Vec<_>>().join(", "));
    let e = match guard("Expression::parse", lib(|| Expression::parse(&text).map(|e| e.as_owned())))? {
        Ok(Expression::Object(e)) if e.len() == keys.len() => e,
        r => return bad("an object with expressions for names", &text, &r),
    };
    let h: HashMap<ObjectElementIdentifier, usize> = e.iter().enumerate().map(|(i, (k, _))| (k.as_owned(), i)).collect();
    for ((k, _), (name, _)) in e.iter().zip(&keys) {
        for n in NAMES {
            if guard("==", lib(|| *k == *n))? != (name.as_ref().map(|x| x.as_str()) == Some(*n)) {
                return bad(&format!("whether the key {:?} is the name {:?}", k, n), name, &(*k == *n));
            }
            let near = near(s, n);
            if near != *n && guard("==", lib(|| *k == near.as_str()))? && name.as_ref() != Some(&near) {
                return bad(&format!("whether the key {:?} is the name {:?}", k, near), name, &near);
            }
        }
    }
    for n in NAMES {
        let last = keys.iter().rposition(|k| k.0.as_ref().map(|x| x.as_str()) == Some(*n));
        if h.get(*n).copied() != last {
            return bad(&format!("looking up {:?} in {}", n, text), &last, &h.get(*n));
        }
    }
    Ok(())
}

/// Almost the same name
fn near(s: &Src, n: &str) -> String {
    match s.below(6) {
        0 => format!("\"{}\"", n),
        1 => format!(" {}", n),
        2 => format!("{} ", n),
        3 => n.to_uppercase(),
        4 => format!("{}\0", n),
        _ => format!("{}{}", n, n),
    }
}

fn word(s: &Src) -> String {
    if s.chance(1, 12) {
        return (0..1 + s.small(6)).map(|_| crate::text::any_char(s)).collect();
    }
    if s.chance(1, 12) {
        // the edges of a text are where it is trimmed
        let mut w: String = (0..s.small(3)).map(|_| *s.pick(&["x", "é", "a b", "-", "0"])).collect();
        let c = *s.pick(&["\0", " ", "\n", "\t", "\u{feff}", "\u{1a}", "\"", "'", "\\", "\u{a0}", "\u{301}"]);
        if s.chance(1, 2) {
            w.push_str(c);
        } else {
            w.insert_str(0, c);
        }
        return w;
    }
    (0..s.small(4)).map(|_| *s.pick(&["x", "é", "a b", "-", "0"])).collect()
}

fn expr(c: &Ctx, depth: usize) -> R<(Ex, E)> {
    let s = &c.s;
    let agg = if depth < 3 { 2 } else { 0 };
    Ok(match s.weighted(&[1, 4, 1, 3, agg, agg]) {
        0 => (Ex::Null, E::from(())),
        1 => return number(s),
        2 => {
            let b = s.chance(1, 2);
            (Ex::Bool(b), E::from(b))
        }
        3 => {
            let w = word(s);
            let e = match s.below(2) {
                0 => E::from(Cow::Owned(w.clone())),
                _ => {
                    let e: Expression = Expression::from(w.as_str());
                    e.as_owned()
                }
            };
            (Ex::Str(w), e)
        }
        4 => {
            let (mut m, mut v) = (Vec::new(), Vec::new());
            for _ in 0..s.small(4) {
                let (a, b) = expr(c, depth + 1)?;
                m.push(a);
                v.push(b);
            }
            let e = match s.below(3) {
                0 => E::from(v),
                1 => guard("new_tuple", lib(|| E::new_tuple(v)))?,
                _ => guard("collect", lib(|| v.into_iter().collect()))?,
            };
            (Ex::Tuple(m), e)
        }
        _ => {
            let (mut m, mut v) = (Vec::new(), Vec::new());
            for _ in 0..s.small(4) {
                let k = *s.pick(NAMES);
                let (a, b) = expr(c, depth + 1)?;
                m.push((Key::Id(k.to_string()), a));
                v.push((k, b));
            }
            (Ex::Obj(m), guard("new_object", lib(|| E::new_object(v)))?)
        }
    })
}

fn label(s: &Src) -> ((String, bool), BlockLabel<'static>) {
    if s.chance(1, 2) {
        let k = *s.pick(NAMES);
        ((k.to_string(), false), BlockLabel::from(k))
    } else {
        let w = word(s);
        ((w.clone(), true), BlockLabel::StringLiteral(w))
    }
}

fn element(c: &Ctx, depth: usize) -> R<(El, BodyElement<'static>)> {
    let s = &c.s;
    let name = *s.pick(NAMES);
    if depth > 2 || s.chance(3, 5) {
        let (a, b) = expr(c, depth)?;
        return Ok((El::Attr(name.to_string(), a), BodyElement::from((Cow::Borrowed(name), b))));
    }
    let (mut ml, mut l) = (Vec::new(), Vec::new());
    for _ in 0..s.small(3) {
        let (a, b) = label(s);
        ml.push(a);
        l.push(b);
    }
    let (m, blk) = if s.chance(1, 3) {
        let mut m = Vec::new();
        let attr = if s.chance(1, 2) {
            let k = *s.pick(NAMES);
            let (a, b) = expr(c, depth + 1)?;
            m.push(El::Attr(k.to_string(), a));
            Some((Cow::Borrowed(k), b))
        } else {
            None
        };
        (m, Block::new_one_line(Cow::Borrowed(name), l, attr))
    } else {
        let (m, b) = body(c, depth + 1)?;
        (m, Block::new(Cow::Borrowed(name), l, b))
    };
    Ok((El::Block { ty: name.to_string(), labels: ml, body: m }, BodyElement::from(blk)))
}

fn body(c: &Ctx, depth: usize) -> R<(Vec<El>, Body<'static>)> {
    let (mut m, mut v) = (Vec::new(), Vec::new());
    for _ in 0..c.s.small(4) {
        let (a, b) = element(c, depth)?;
        m.push(a);
        v.push(b);
    }
    Ok((m, v))
}

// ---------------------------------------------------------------------------------------------

/// The text of a model
fn write(b: &[El], o: &mut String) {
    for e in b {
        match e {
            El::Attr(n, e) => {
                o.push_str(n);
                o.push_str(" = ");
                write_ex(e, o);
            }
            El::Block { ty, labels, body } => {
                o.push_str(ty);
                for (l, q) in labels {
                    o.push(' ');
                    if *q {
                        crate::typed::spell_str(l, o);
                    } else {
                        o.push_str(l);
                    }
                }
                o.push_str(" {\n");
                write(body, o);
                o.push('}');
            }
        }
        o.push('\n');
    }
}

fn write_ex(e: &Ex, o: &mut String) {
    match e {
        Ex::Null => o.push_str("null"),
        Ex::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Ex::Num(t) => o.push_str(t),
        Ex::Str(t) => crate::typed::spell_str(t, o),
        Ex::Tuple(l) => {
            o.push('[');
            for (i, e) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                write_ex(e, o);
            }
            o.push(']');
        }
        Ex::Obj(l) => {
            o.push('{');
            for (i, (k, e)) in l.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                if let Key::Id(k) = k {
                    o.push_str(k);
                }
                o.push_str(" = ");
                write_ex(e, o);
            }
            o.push('}');
        }
    }
}

/// Change one thing, so that the result means something else. Tells whether it did.
fn alter(s: &Src, b: &mut Vec<El>) -> bool {
    if b.is_empty() || s.chance(1, 6) {
        b.push(El::Attr("extra".into(), Ex::Null));
        return true;
    }
    let i = s.usize(b.len());
    match &mut b[i] {
        El::Attr(n, e) => {
            if s.chance(1, 6) {
                n.push('x');
                true
            } else {
                alter_ex(s, e)
            }
        }
        El::Block { ty, labels, body } => match s.below(6) {
            0 => {
                ty.push('x');
                true
            }
            1 => {
                labels.push(("extra".into(), true));
                true
            }
            2 if !labels.is_empty() => {
                let i = s.usize(labels.len());
                labels[i].0.push('x');
                true
            }
            _ => alter(s, body),
        },
    }
}

fn alter_ex(s: &Src, e: &mut Ex) -> bool {
    match e {
        Ex::Null => *e = Ex::Bool(false),
        Ex::Bool(b) => *b = !*b,
        Ex::Str(t) => t.push('x'),
        Ex::Num(t) => {
            let zero = t.parse::<f64>().map_or(true, |x| x.abs() < 1e-290 || !x.is_finite());
            match s.below(4) {
                // another sign
                0 if !zero => {
                    *t = match t.strip_prefix('-') {
                        Some(x) => x.to_string(),
                        None => format!("-{}", t.trim_start_matches('+')),
                    }
                }
                // another digit in front
                1 if !zero => {
                    let (sign, rest) = match t.strip_prefix('-') {
                        Some(x) => ("-", x),
                        None => ("", t.trim_start_matches('+')),
                    };
                    *t = format!("{}1{}", sign, rest);
                }
                // the last digit of a whole number of any size
                2 if t.chars().all(|c| c.is_ascii_digit()) => {
                    let last = t.pop().unwrap();
                    t.push(if last == '7' { '3' } else { '7' });
                }
                _ => *e = Ex::Str(t.clone()),
            }
        }
        Ex::Tuple(l) => {
            if l.is_empty() || s.chance(1, 3) {
                l.push(Ex::Null);
            } else {
                let i = s.usize(l.len());
                return alter_ex(s, &mut l[i]);
            }
        }
        Ex::Obj(l) => {
            if l.is_empty() || s.chance(1, 3) {
                l.push((Key::Id("extra".into()), Ex::Null));
            } else {
                let i = s.usize(l.len());
                if s.chance(1, 3) {
                    if let Key::Id(k) = &mut l[i].0 {
                        k.push('x');
                    }
                } else {
                    return alter_ex(s, &mut l[i].1);
                }
            }
        }
    }
    true
}

// ---------------------------------------------------------------------------------------------

struct Feed<I>(I, usize);
impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        out(|| {
            if self.1 == 0 {
                inject_panic(6);
            }
            self.1 -= 1;
            self.0.next()
        })
    }
}

fn step_ex(c: &Ctx, m: &mut Ex, v: &mut E, depth: usize) -> R {
    let s = &c.s;
    if depth < 5 && s.chance(1, 2) {
        match (&mut *m, &mut *v) {
            (Ex::Tuple(m), Expression::Tuple(v)) if !m.is_empty() && m.len() == v.len() => {
                let i = s.usize(m.len());
                return step_ex(c, &mut m[i], &mut v[i], depth + 1);
            }
            (Ex::Obj(m), Expression::Object(v)) if !m.is_empty() && m.len() == v.len() => {
                let i = s.usize(m.len());
                return step_ex(c, &mut m[i].1, &mut v[i].1, depth + 1);
            }
            _ => {}
        }
    }
    match s.below(6) {
        0 => {
            let (a, b) = expr(c, 1)?;
            c.ev(|| format!("  put {:?}", a));
            *m = a;
            *v = b;
        }
        1 => {
            c.ev(|| "  own it".to_string());
            *v = guard("as_owned", lib(|| v.as_owned()))?;
        }
        2 => match (&mut *m, &mut *v) {
            (Ex::Tuple(m), Expression::Tuple(v)) => {
                let (a, b) = expr(c, 2)?;
                c.ev(|| format!("  append {:?}", a));
                m.push(a);
                v.push(b);
            }
            (Ex::Obj(m), Expression::Object(v)) => {
                let k = *s.pick(NAMES);
                let (a, b) = expr(c, 2)?;
                c.ev(|| format!("  append {} = {:?}", k, a));
                m.push((Key::Id(k.to_string()), a));
                v.push((ObjectElementIdentifier::from(k), b));
            }
            _ => {}
        },
        3 => {
            // object entries as a hash map, looked up by their names
            if let (Ex::Obj(m), Expression::Object(v)) = (&*m, &*v) {
                c.ev(|| "  collect the object into a hash map".to_string());
                let h: HashMap<ObjectElementIdentifier, &E> = v.iter().map(|(k, v)| (k.clone(), v)).collect();
                for k in NAMES {
                    let last = m.iter().rev().find(|x| x.0 == Key::Id(k.to_string()));
                    match (h.get(*k), last) {
                        (None, None) => {}
                        (Some(e), Some((_, x))) => check("an object entry looked up by its name", cmp_ex(x, e, k))?,
                        (got, want) => return bad(&format!("looking up the object entry {:?}", k), &want, &got),
                    }
                }
                for (i, ((k, _), (name, _))) in v.iter().zip(m).enumerate() {
                    let n = match name {
                        Key::Id(n) => n,
                        _ => continue,
                    };
                    let (other, close) = (format!("{}x", n), near(s, n));
                    if *k != n.as_str() || *k == other.as_str() || (close != *n && *k == close.as_str()) || guard("as_str", lib(|| k.as_str()))? != n.as_str() {
                        return bad(&format!("name of entry {}", i), name, k);
                    }
                }
            }
        }
        4 => {
            // collecting from a source that panics leaves nothing and harms nothing
            let l: Vec<E> = (0..2).map(|i| E::from(i as u8)).collect();
            let at = s.usize(3);
            c.ev(|| format!("  collect a tuple from a source that panics at {}", at));
            let r = match s.below(3) {
                0 => lib(|| E::new_tuple(Feed(l.into_iter(), at))),
                1 => lib(|| Feed(l.into_iter(), at).collect::<E>()),
                _ => lib(|| E::new_object(Feed(l.into_iter().map(|e| ("a", e)), at))),
            };
            match r {
                Err(Panicked::Injected(_)) => c.count("fault: source of elements panicked"),
                r => return fail("swallowed", format!("collecting from a source that panics gives {:?}", r)),
            }
        }
        _ => {
            let want = match m {
                Ex::Null => "Null",
                Ex::Num(_) => "Number",
                Ex::Bool(_) => "Boolean",
                Ex::Str(_) => "String",
                Ex::Tuple(_) => "Tuple",
                Ex::Obj(_) => "Object",
            };
            if v.variant_name() != want {
                return bad("variant_name", &want, &v.variant_name());
            }
        }
    }
    Ok(())
}

fn step(c: &Ctx, m: &mut Vec<El>, v: &mut Body<'static>, depth: usize) -> R {
    let s = &c.s;
    if m.len() != v.len() {
        return bad("the body", m, v);
    }
    let i = s.usize(m.len() + 1);
    if i == m.len() || s.chance(1, 6) {
        let (a, b) = element(c, depth)?;
        c.ev(|| format!("  insert {:?}", a));
        m.insert(i, a);
        v.insert(i, b);
        return Ok(());
    }
    if s.chance(1, 10) {
        c.ev(|| format!("  remove {}", i));
        m.remove(i);
        v.remove(i);
        return Ok(());
    }
    let attr = match &m[i] {
        El::Attr(..) => true,
        _ => false,
    };
    if v[i].is_attribute() != attr || v[i].is_block() == attr {
        return bad("is_attribute, is_block", &m[i], &v[i]);
    }
    // take it apart and put it back
    if s.chance(1, 3) {
        c.ev(|| format!("  take element {} apart", i));
        let e = v.remove(i);
        if s.chance(1, 4) {
            let e = e.clone();
            let r = if attr { lib(|| { e.unwrap_block(); }) } else { lib(|| { e.unwrap_attribute(); }) };
            match r {
                Err(Panicked::Other(_)) => {}
                r => return bad("taking it apart as what it is not", &m[i], &r),
            }
        }
        let e = if attr {
            BodyElement::from(guard("unwrap_attribute", lib(|| e.unwrap_attribute()))?)
        } else {
            BodyElement::from(guard("unwrap_block", lib(|| e.unwrap_block()))?)
        };
        v.insert(i, e);
        return Ok(());
    }
    match (&mut m[i], &mut v[i]) {
        (El::Attr(_, m), BodyElement::Attribute((_, v))) => step_ex(c, m, v, 0),
        (El::Block { body, labels, .. }, BodyElement::Block(b)) => {
            if s.chance(1, 4) {
                let (a, l) = label(s);
                c.ev(|| format!("  add the label {:?}", a));
                labels.push(a);
                b.labels.push(l);
                // labels are their texts, however spelled
                for (x, (t, _)) in b.labels.iter().zip(labels.iter()) {
                    let other = match s.below(6) {
                        0 => format!("{}x", t),
                        1 => format!("{}{}", t, s.pick(&[" ", "\t", "\n", "\u{0}", "\u{3000}"])),
                        2 => format!("{}{}", s.pick(&[" ", "\"", "_", "\u{feff}"]), t),
                        3 if t.to_uppercase() != *t => t.to_uppercase(),
                        4 if !t.is_empty() => t.chars().skip(1).collect(),
                        _ => format!("{}{}", t, t.chars().last().unwrap_or('a')),
                    };
                    let (own, cow) = guard("as_owned", lib(|| (x.as_owned(), x.as_cow())))?;
                    let quoted = BlockLabel::StringLiteral(t.clone());
                    let eq = guard("==", lib(|| (*x == t.as_str(), *x == other, *x == quoted, quoted == own)))?;
                    if eq != (true, false, true, true) || cow != t.as_str() || x.as_str() != t {
                        return bad("the label", t, x);
                    }
                    if std::mem::discriminant(x) != std::mem::discriminant(&own) {
                        return bad("the owned label", x, &own);
                    }
                }
                let h: HashMap<&BlockLabel, usize> = b.labels.iter().enumerate().map(|(i, l)| (l, i)).collect();
                for (t, _) in labels.iter() {
                    let last = labels.iter().rposition(|x| x.0 == *t);
                    let quoted = BlockLabel::StringLiteral(t.clone());
                    if h.get(&quoted).copied() != last || h.get::<BlockLabel>(&BlockLabel::Identifier(Cow::Owned(t.clone()))).copied() != last {
                        return bad("looking up a label", &last, &h);
                    }
                }
                Ok(())
            } else {
                step(c, body, &mut b.body, depth + 1)
            }
        }
        (m, v) => bad("the element", m, v),
    }
}

pub fn c14(c: &Ctx) -> R {
    let s = &c.s;
    let (mut m, mut v) = body(c, 0)?;
    c.ev(|| format!("start with {:?}", m));
    let steps = 1 + s.small(10);
    for i in 0..steps {
        c.tick();
        c.ev(|| format!("step {}", i));
        let before = m.clone();
        let copy = if s.chance(1, 2) { v.clone() } else { guard("as_owned", lib(|| v.as_owned()))? };
        if !guard("==", lib(|| copy == v && v == copy))? {
            return bad("a tree and its copy are not equal", &v, &copy);
        }
        step(c, &mut m, &mut v, 0)?;
        check("the tree", cmp_body(&m, &v, ""))?;
        check("the copy", cmp_body(&before, &copy, ""))?;
        c.sig_n(m.len() as u64);
    }
    // the tree of its text
    let mut text = String::new();
    write(&m, &mut text);
    c.ev(|| format!("text {:?}", text));
    let t = must("parse_str", tree_str(&text))?;
    check("the tree of the text", cmp_body(&m, &t, ""))?;
    if !guard("==", lib(|| t == v && v == t))? {
        return bad("a built tree and the tree of its text are not equal", &v, &t);
    }
    for _ in 0..1 + s.small(3) {
        numbers(c)?;
    }
    if s.chance(1, 4) {
        raw_keys(c)?;
    }
    // expressions by themselves, and with something left over
    for e in &m {
        if let El::Attr(k, x) = e {
            let mut one = String::new();
            write_ex(x, &mut one);
            let parsed = |t: &str| lib(|| Expression::parse(t).map(|e| e.as_owned()));
            match parsed(&one) {
                Ok(Ok(got)) => check("an expression by itself", cmp_ex(x, &got, k))?,
                r => return bad(&format!("parsing the expression {:?}", cut(&one, 200)), x, &r),
            }
            let rest = *s.pick(&[" 1", ",", "]", "}", " = 1", ")", "\n\"\"", "#"]);
            one.push_str(rest);
            match parsed(&one) {
                Ok(Err(_)) => {}
                r => return bad("parsing an expression with something left over", &cut(&one, 200), &r),
            }
        }
    }
    // and of a text that says something else
    let mut w = m.clone();
    if alter(s, &mut w) {
        let mut other = String::new();
        write(&w, &mut other);
        c.ev(|| format!("altered {:?}", other));
        let u = must("parse_str", tree_str(&other))?;
        if guard("==", lib(|| u == v || v == u))? {
            return bad("trees that differ are equal", &v, &u);
        }
        c.count("altered trees compared");
    }
    if !m.is_empty() {
        c.nontrivial();
    }
    c.sig(text.as_bytes());
    c.sample(|| format!("{} steps, ending with {}", steps, cut(&text, 300)));
    Ok(())
}
