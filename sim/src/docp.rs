//! Documents of the syntax tree grammar, generated together with what they mean
use crate::src::Src;
use crate::text::{Cfg, Mark, Out, K};
use ferrous_chloride::parser::block::BlockLabel;
use ferrous_chloride::parser::body::BodyElement;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::parser::number::Number;
use ferrous_chloride::parser::object::ObjectElementIdentifier;
use ferrous_chloride::parser::Body;

#[derive(Clone, Debug, PartialEq)]
pub enum Ex {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Tuple(Vec<Ex>),
    Obj(Vec<(Key, Ex)>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Id(String),
    Raw(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Attr(String, Ex),
    Block { ty: String, labels: Vec<(String, bool)>, body: Vec<El> },
}

pub struct Doc {
    pub text: String,
    pub body: Vec<El>,
    /// Bytes at which top-level elements end, terminator excluded
    pub ends: Vec<usize>,
    pub marks: Vec<Mark>,
}

pub fn draw(s: &Src) -> Doc {
    let cfg = Cfg::draw(s);
    draw_with(s, cfg)
}

impl Doc {
    /// Some documents are longer than any buffer
    pub fn grow(&mut self, s: &Src, most: usize) {
        let f = crate::text::filler(s, most);
        self.text.push_str(&f.text);
        self.body.extend(f.entries.into_iter().map(|(k, v)| El::Attr(k, Ex::Str(v))));
    }
}

pub fn draw_with(s: &Src, cfg: Cfg) -> Doc {
    let mut o = Out::new(cfg);
    let mut ends = Vec::new();
    o.ws(s);
    let n = some(s, &o, o.cfg.width * 2, 0);
    let mut body = Vec::new();
    for i in 0..n {
        if i > 0 {
            gap(s, &mut o);
        }
        o.iw(s);
        body.push(element(s, &mut o, 0));
        ends.push(o.t.len());
        o.iw(s);
    }
    if n > 0 && (o.must_eol || !s.chance(1, 4)) {
        o.nl(s);
    }
    Doc { text: o.t, body, ends, marks: o.marks }
}

/// How many of something
pub fn some(s: &Src, o: &Out, max: usize, depth: usize) -> usize {
    if o.cfg.wide && o.t.len() > 50_000 {
        0
    } else if o.cfg.wide && depth < 3 && o.t.len() < 3000 && s.chance(1, 24) {
        s.usize(*s.pick(&[40, 300]))
    } else {
        s.small(max)
    }
}

/// Between two elements
fn gap(s: &Src, o: &mut Out) {
    let (at, heredoc) = (o.t.len(), o.must_eol);
    o.nl(s);
    if !heredoc {
        o.mark(K::Gap, at);
    }
}

fn stop(o: &mut Out) {
    if !o.must_eol {
        o.mark(K::Stop, o.t.len());
    }
}

fn element(s: &Src, o: &mut Out, depth: usize) -> El {
    if o.cfg.blocks && depth < o.cfg.depth && s.chance(2, 5) {
        block(s, o, depth)
    } else {
        let at = o.t.len();
        let name = o.name(s);
        o.mark(K::Name, at);
        let e = attr_tail(s, o, depth, true);
        stop(o);
        El::Attr(name, e)
    }
}

/// `= expression`
fn attr_tail(s: &Src, o: &mut Out, depth: usize, heredoc: bool) -> Ex {
    o.iw(s);
    o.tok(K::Eq, "=");
    o.iw(s);
    let at = o.t.len();
    let e = expr(s, o, depth, heredoc);
    o.mark(K::Value, at);
    o.iw(s);
    e
}

fn block(s: &Src, o: &mut Out, depth: usize) -> El {
    let ty = o.name(s);
    let mut labels = Vec::new();
    if o.cfg.labels {
        let n = s.weighted(&[3, 4, 3, 1]);
        let n = if o.cfg.wide && s.chance(1, 8) { s.usize(20) } else { n };
        for _ in 0..n {
            if s.chance(1, 2) {
                o.iw1(s);
                labels.push((o.name(s), false));
            } else {
                o.iw(s);
                labels.push((o.quoted(s, false), true));
            }
        }
    }
    o.iw(s);
    o.tok(K::Bracket, "{");
    let mut body = Vec::new();
    if o.cfg.oneline && s.chance(1, 3) {
        o.iw(s);
        if s.chance(1, 2) {
            let n = o.name(s);
            let e = attr_tail(s, o, depth, false);
            stop(o);
            body.push(El::Attr(n, e));
        }
    } else {
        o.iw(s);
        o.nl(s);
        let n = some(s, o, o.cfg.width, depth + 1);
        for i in 0..n {
            body.push(element(s, o, depth + 1));
            o.iw(s);
            if i + 1 < n {
                gap(s, o);
            } else {
                o.nl(s);
            }
        }
    }
    o.tok(K::Bracket, "}");
    El::Block { ty, labels, body }
}

/// `heredoc`: may the text end with a heredoc
pub fn expr(s: &Src, o: &mut Out, depth: usize, heredoc: bool) -> Ex {
    let agg = if o.cfg.aggregates && depth < o.cfg.depth { 3 } else { 0 };
    let w = [
        4, // number
        2, // bool
        1, // null
        5, // quoted
        if o.cfg.heredocs && heredoc { 4 } else { 0 },
        agg,
        agg,
        if o.cfg.parens && depth < o.cfg.depth { 2 } else { 0 },
    ];
    match s.weighted(&w) {
        0 => Ex::Num(o.number(s)),
        1 => {
            let b = s.chance(1, 2);
            o.push(if b { "true" } else { "false" });
            Ex::Bool(b)
        }
        2 => {
            o.push("null");
            Ex::Null
        }
        3 => Ex::Str(o.quoted(s, true)),
        4 => Ex::Str(o.heredoc(s)),
        5 => tuple(s, o, depth),
        6 => object(s, o, depth),
        _ => {
            o.tok(K::Bracket, "(");
            o.ws(s);
            let e = expr(s, o, depth + 1, true);
            o.ws(s);
            o.tok(K::Bracket, ")");
            e
        }
    }
}

fn tuple(s: &Src, o: &mut Out, depth: usize) -> Ex {
    o.tok(K::Bracket, "[");
    o.ws(s);
    let n = some(s, o, o.cfg.width, depth + 1);
    let depth = if n > 20 { 1000 } else { depth };
    let mut v = Vec::new();
    for i in 0..n {
        v.push(expr(s, o, depth + 1, true));
        o.ws(s);
        if i + 1 < n {
            o.tok(K::Comma, ",");
            o.ws(s);
        } else if s.chance(1, 3) {
            o.push(",");
            o.ws(s);
        }
    }
    o.tok(K::Bracket, "]");
    Ex::Tuple(v)
}

fn object(s: &Src, o: &mut Out, depth: usize) -> Ex {
    o.tok(K::Bracket, "{");
    o.ws(s);
    let n = some(s, o, o.cfg.width, depth + 1);
    let depth = if n > 20 { 1000 } else { depth };
    let mut v = Vec::new();
    for i in 0..n {
        let key = if o.cfg.exprkeys && s.chance(1, 3) {
            // recorded as written
            let start = o.t.len();
            match s.below(4) {
                0 => {
                    o.quoted(s, true);
                }
                1 => {
                    o.number(s);
                }
                2 => {
                    o.tok(K::Bracket, "(");
                    o.ws(s);
                    expr(s, o, depth + 1, true);
                    o.ws(s);
                    o.tok(K::Bracket, ")");
                }
                _ => {
                    tuple(s, o, depth + 1);
                }
            }
            Key::Raw(o.t[start..].to_string())
        } else {
            Key::Id(o.name(s))
        };
        let e = attr_tail(s, o, depth + 1, true);
        v.push((key, e));
        let last = i + 1 == n;
        let (at, heredoc) = (o.t.len(), o.must_eol);
        if o.must_eol {
            o.nl(s);
        } else {
            match s.below(if last { 3 } else { 2 }) {
                0 => {
                    o.push(",");
                    o.ws(s);
                }
                1 => o.nl(s),
                _ => o.iw(s),
            }
        }
        if !last && !heredoc {
            o.mark(K::Gap, at);
        }
    }
    o.tok(K::Bracket, "}");
    Ex::Obj(v)
}

// ---------------------------------------------------------------------------------------------

fn diff<T: std::fmt::Debug + ?Sized, U: std::fmt::Debug + ?Sized>(path: &str, e: &T, a: &U) -> String {
    let cut = |s: String| if s.chars().count() > 300 { s.chars().take(300).collect::<String>() + "..." } else { s };
    format!("at {}: expected {}, got {}", path, cut(format!("{:?}", e)), cut(format!("{:?}", a)))
}

pub fn cmp_body(e: &[El], a: &Body, path: &str) -> Result<(), String> {
    if e.len() != a.len() {
        return Err(format!("at {}: expected {} elements, got {}: {}", path, e.len(), a.len(), diff(path, e, a)));
    }
    for (i, (e, a)) in e.iter().zip(a.iter()).enumerate() {
        cmp_el(e, a, &format!("{}/{}", path, i))?;
    }
    Ok(())
}

pub fn cmp_el(e: &El, a: &BodyElement, path: &str) -> Result<(), String> {
    match (e, a) {
        (El::Attr(n, e), BodyElement::Attribute((an, ae))) => {
            if n != an.as_ref() {
                return Err(diff(path, n, an));
            }
            cmp_ex(e, ae, &format!("{}.{}", path, n))
        }
        (El::Block { ty, labels, body }, BodyElement::Block(b)) => {
            if ty != b.r#type.as_ref() {
                return Err(diff(path, ty, &b.r#type));
            }
            let p = format!("{}.{}", path, ty);
            if labels.len() != b.labels.len() {
                return Err(diff(&p, labels, &b.labels));
            }
            for ((l, quoted), a) in labels.iter().zip(b.labels.iter()) {
                let ok = match a {
                    BlockLabel::StringLiteral(x) => *quoted && x == l,
                    BlockLabel::Identifier(x) => !*quoted && x.as_ref() == l,
                };
                if !ok || a.as_str() != l || a.as_cow() != *l {
                    return Err(diff(&p, labels, &b.labels));
                }
            }
            cmp_body(body, &b.body, &p)
        }
        _ => Err(diff(path, e, a)),
    }
}

pub fn cmp_ex(e: &Ex, a: &Expression, path: &str) -> Result<(), String> {
    match (e, a) {
        (Ex::Null, Expression::Null) => Ok(()),
        (Ex::Bool(x), Expression::Boolean(y)) if x == y => Ok(()),
        (Ex::Num(x), Expression::Number(n)) => cmp_num(x, n).map_err(|m| format!("at {}: {}", path, m)),
        (Ex::Str(x), Expression::String(y)) if x == y.as_ref() => Ok(()),
        (Ex::Tuple(x), Expression::Tuple(y)) if x.len() == y.len() => {
            for (i, (x, y)) in x.iter().zip(y.iter()).enumerate() {
                cmp_ex(x, y, &format!("{}[{}]", path, i))?;
            }
            Ok(())
        }
        (Ex::Obj(x), Expression::Object(y)) if x.len() == y.len() => {
            for ((k, x), (ak, y)) in x.iter().zip(y.iter()) {
                let ok = match (k, ak) {
                    (Key::Id(k), ObjectElementIdentifier::Identifier(a)) => k == a.as_ref(),
                    (Key::Raw(k), ObjectElementIdentifier::Expression(a)) => k == a.as_ref(),
                    _ => false,
                };
                if !ok {
                    return Err(diff(path, k, ak));
                }
                cmp_ex(x, y, &format!("{}.{:?}", path, k))?;
            }
            Ok(())
        }
        _ => Err(diff(path, e, a)),
    }
}

pub fn cmp_num(text: &str, n: &Number) -> Result<(), String> {
    let deref: &str = n;
    if deref != text {
        return Err(format!("expected the number {:?}, got {:?}", text, deref));
    }
    let float = text.contains(|c| c == '.' || c == 'e' || c == 'E');
    if n.is_float() != float || n.is_signed() == float || n.is_unsigned() != (!float && !text.starts_with('-')) {
        return Err(format!("number {:?} is misclassified: {:?}", text, n));
    }
    // Values by an independent route: integers through i128 with the range checked here
    let f = text.parse::<f64>().ok();
    let g = n.as_f64().ok();
    if f.map(f64::to_bits) != g.map(f64::to_bits) {
        return Err(format!("number {:?} is {:?} as f64, expected {:?}", text, g, f));
    }
    macro_rules! ints {
        ($($f:ident: $t:ty, )*) => {$(
            let (got, want) = (n.$f().ok(), text.parse::<$t>().ok());
            if got != want {
                return Err(format!("number {:?} is {:?} as {}, expected {:?}", text, got, stringify!($t), want));
            }
        )*};
    }
    ints!(as_u8: u8, as_u16: u16, as_u32: u32, as_u64: u64, as_u128: u128,);
    ints!(as_i8: i8, as_i16: i16, as_i32: i32, as_i64: i64, as_i128: i128,);
    let (f, g) = (text.parse::<f32>().ok(), n.as_f32().ok());
    if f.map(f32::to_bits) != g.map(f32::to_bits) {
        return Err(format!("number {:?} is {:?} as f32, expected {:?}", text, g, f));
    }
    if !float {
        let digits = text.trim_start_matches(|c| c == '+' || c == '-');
        let v: Option<i128> = digits.parse::<i128>().ok().map(|v| if text.starts_with('-') { -v } else { v });
        if let Some(v) = v {
            let i = n.as_i64().ok().map(i128::from);
            let want = if v >= i64::MIN as i128 && v <= i64::MAX as i128 { Some(v) } else { None };
            if i != want {
                return Err(format!("number {:?} is {:?} as i64, expected {:?}", text, i, want));
            }
        }
    }
    Ok(())
}

/// Bare structure, for state signatures
pub fn shape(b: &[El], o: &mut String) {
    for e in b {
        match e {
            El::Attr(_, x) => {
                o.push('a');
                shape_ex(x, o)
            }
            El::Block { labels, body, .. } => {
                o.push('b');
                o.push((b'0' + labels.len().min(9) as u8) as char);
                o.push('{');
                shape(body, o);
                o.push('}');
            }
        }
    }
}

fn shape_ex(e: &Ex, o: &mut String) {
    match e {
        Ex::Null => o.push('n'),
        Ex::Bool(_) => o.push('t'),
        Ex::Num(_) => o.push('i'),
        Ex::Str(s) => {
            o.push('s');
            o.push((b'0' + (s.len() as f64 + 1.).log2() as u8) as char);
        }
        Ex::Tuple(v) => {
            o.push('[');
            v.iter().for_each(|x| shape_ex(x, o));
            o.push(']');
        }
        Ex::Obj(v) => {
            o.push('(');
            v.iter().for_each(|x| shape_ex(&x.1, o));
            o.push(')');
        }
    }
}
