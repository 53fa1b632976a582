//! C15: a text that is no configuration is refused, however it arrives
use crate::api::*;
use crate::ctx::{fail, Ctx, R};
use crate::env::Panicked;
use crate::reader::{Plan, SimReader};
use crate::text::{Cfg, Mark, K};
use crate::grammar::{may_be, may_be_expr};
use crate::src::Src;
use crate::{docp, docv};
use crate::env::lib;
use ferrous_chloride::parser::expression::Expression;
use ferrous_chloride::Error;
use std::sync::Arc;

/// What no configuration has outside strings, heredocs and comments
const JUNK: &[&str] = &[";", "@", "^", "~", "'", "`", "\\", "\0", "&", "|", "$", "!", "\u{1}", "\u{7f}", "\u{200b}x", "§", "*/", "*/*/"];

/// What nothing can be set to, in either grammar
const VALUES: &[&str] = &[
    "foo", "True", "FALSE", "Null", "nul", "tru", "nulll", "truefalse", "falsey", "nullnull", "yes", "nan", "NaN", "inf", "infinity", "-inf",
    "-infinity", "+NaN", "0x1F", "0b1", "0o7", "1_000", "1.2.3", "--1", "+-1", "-+1", "- 1", "1e", "1e+", "1.5e-", ".", "-", "+", "-.", "e5", ".e5",
    "1 2", "1f", "1u8", "1.0f32", "1-", "1%", "12a", "\u{0663}", "1\u{a0}", "½", "\"a\" \"b\"", "\"a\"b", "a\"b\"", "\"\\q\"", "\"\\ \"", "\"\\é\"",
    "\"\\ud800\"", "\"\\uDFFF\"", "\"\\uD83D\\uDE00\"", "\"\\U00110000\"", "\"\\U0000D800\"", "\"\\UFFFFFFFF\"", "\"\\u\"", "\"\\x\"", "\"\\xg\"",
    "\"\\uzz\"", "\"\\U\"", "\"\\8\"", "\"\\N\"", "\"\\X41\"", "\"\\u{41}\"", "\"\\\n\"", "'a'", "`a`", "[1 2]", "[1,,2]", "[1;2]", "[1,2", "1,2]", "[(1]",
    "[1)", "[\"a\" \"b\"]", "[true false]", "[a]", "[=]", "{a}", "{a = }", "{= 1}", "{1}", "{\"a\"}", "{a = 1 b = 2}", "{a: 1}", "{a => 1}", "{a = 1; b = 2}", "{a, b}",
    "{a = 1,, b = 2}", "{a = 1]", "{a = [}]}", "(1", "1)", "()", "(1,2)", "(1)(2)", "(1]", "[", "]", "{", "}", "a.b", "a[0]", "f(1)", "f()", "${x}", "1 + 2", "1 - 2", "1 * 2",
    "1 == 1", "true ? 1 : 2", "true && false", "!true", "\"a\" + \"b\"", "<< EOF\nx\nEOF", "<<EOF x\nEOF", "<<\nx\n", "<<-\nx\n", "<EOF\nx\nEOF",
    "<<EOF\nx\nEOF y", "<<EOF\nx\n", "<<EOF\nx\nEO", "<<EOF\nx\n eof", "<<E-F\nx\nE-F", "<<\"EOF\"\nx\nEOF", "<<~EOF\nx\nEOF", "<<EOFEOF\nx\nEOF", "<<EOF", "<<-EOF", "<<", "<",
    "1 /* open", "1 */", "1 / 2", "= 1", "a = 1", ", 1", "1 = 2", "\"a", "a\"", "\"\\\"", "\"\\", "\"a\\\\\\\"", "#1", "// 1", "\n1", "\r\n\"a\"", "/* 1 */", "for", "[for x in y : x]",
];

/// What no element looks like, in either grammar
const ELEMENTS: &[&str] = &[
    "foo", "foo \"bar\"", "\"foo\"", "1a = 1", "-a = 1", "1 = 1", "a 1 {\n}", "a = 1 = 2", "= 1", "a =", "a == 1", "a := 1", "a: 1", "a => 1", "a.b = 1", "a[0] = 1",
    "a {\n", "{}", "{ a = 1 }", "{\n a = 1\n}", "[]", "[1]", "}", "{", "]", ")", "a \"l {\n}", "a l\" {\n}", "a 'l' {\n}", "a = 1 b = 2", "a = 1; b = 2", "a b = 1", "a \"b\" = 1", "a {} {}", "a {} b {}",
    "a { b = 1 c = 2 }", "a { b = 1; c = 2 }", "a { b }", "a { = 1 }", "a { b = }", "a { b = 1 ", "a b = 1 }", "a { b = 1 } = 2", "a [ b = 1 ]", "a ( b = 1 )", "a { b = 1 ]",
    "a {\n b = 1\n c\n}", "a {\n b = 1\n}}", "a {{\n b = 1\n}", "a {\n {\n }\n}", "a {\n ]\n}", "a \"\\q\" {\n}", "a \"x\ny\" {\n}", "a \"x\"y {\n}z", "a = {\n b = 1 c = 2\n}", "a +", "a -", "a.b {\n}", "a, b = 1",
    "a \\\n= 1", "*", "/", "/*", "\"", "\"a = 1", "a\u{a0}= 1", "a =\u{a0}1", "a\u{3000}= 1", "null", "1", "\"x\" \"y\"", "<<EOF\nx\nEOF", "true", "(a) = 1", "((a = 1", "@a = 1", "$a = 1", "a! = 1",
    "\0", "a = 1\0", "a\0 = 1", "\u{b}a = 1", "\u{c}a = 1", "a = 1\u{c}", "·a = 1", "\u{301}a = 1", "٣ = 1",
];
/// Only in the tree grammar
const TREE_ONLY: &[&str] = &["a { b {} }", "\"a\" = 1", "a = 1,", "a = 1, b = 2", ",", "a,", "a = [,1]", "a = {,}", "a\n{\n}", "a {\n b = 1 }", "a { b = 1\n}", "a {\n b = 1, c = 2\n}", "a = true {\n}", "a { b = <<EOF\nx\nEOF }"];
struct Doc {
    text: String,
    marks: Vec<Mark>,
    tree: bool,
}

/// Where the text is outside of all strings, heredocs and comments: where a token starts, and the
/// very start and end
fn outside(s: &crate::src::Src, d: &Doc) -> usize {
    let at: Vec<usize> = d
        .marks
        .iter()
        .filter(|m| !matches!(m.k, K::Quote | K::Line | K::End))
        .map(|m| if m.k == K::Comment { m.end } else { m.at })
        .collect();
    match s.below(if at.is_empty() { 2 } else { 6 }) {
        0 => d.text.len(),
        1 => 0,
        _ => *s.pick(&at),
    }
}

/// Whatever follows it
fn bad_escape(s: &crate::src::Src) -> String {
    let beyond = |s: &crate::src::Src| match s.below(4) {
        0 => 0x110000 + s.below(0x1000) as u32,
        1 => 0x110000 + s.below(0xffef_0000) as u32,
        2 => (1 + s.below(0xfff) as u32) << 20 | 0x100000 | s.below(0x10000) as u32 | 0x10000,
        _ => 0xd800 + s.below(0x800) as u32,
    };
    let beyond = loop_until(|| beyond(s), |v| char::from_u32(*v).is_none());
    match s.below(6) {
        0 | 1 => format!("\\U{:08x}", beyond),
        2 => format!("\\U{:08X}", beyond),
        3 => format!("\\u{:04x}", 0xd800 + s.below(0x800)),
        4 => format!("\\{}g", s.pick(&["x", "u", "U"])),
        _ => {
            let c = loop_until(
                || if s.chance(1, 8) { *s.pick(&['é', '藏', '𝒳', '\u{2028}', '\n', '\r', '\t', '\0']) } else { (32 + s.below(95) as u8) as char },
                |c| !"abfnrtv\\\"?01234567xuU".contains(*c),
            );
            format!("\\{}", c)
        }
    }
}

fn loop_until<T>(mut f: impl FnMut() -> T, ok: impl Fn(&T) -> bool) -> T {
    let mut v = f();
    // a replay that has run out of choices draws the same for ever
    for _ in 0..200 {
        if ok(&v) {
            break;
        }
        v = f();
    }
    v
}

/// Does this leave a string, heredoc or comment open, or might it?
fn opens(t: &str) -> bool {
    t.contains("<<") || t.contains("/*") || t.contains("//") || t.contains('#') || t.contains("\\\"") || t.matches('"').count() % 2 == 1
}

/// Breaks the document so that it cannot be one any more, and says how; nothing if this document
/// cannot be broken that way
fn damage(c: &Ctx, d: &mut Doc) -> Option<(&'static str, String)> {
    let s = &c.s;
    let of = |k: K| -> Vec<Mark> { d.marks.iter().copied().filter(|m| m.k == k).collect() };
    let one = |v: Vec<Mark>| -> Option<Mark> {
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    };
    let kind = s.below(22);
    let broken = match kind {
        0 | 1 => {
            // the stream ends where something is still open
            let mut open: Vec<(usize, usize)> = Vec::new();
            let brackets = of(K::Bracket);
            let mut depth = 0;
            for (i, m) in brackets.iter().enumerate() {
                depth += if "{[(".contains(&d.text[m.at..m.end]) { 1 } else { -1 };
                if depth > 0 {
                    open.push((m.end, brackets[i + 1].at + 1));
                }
            }
            open.extend(of(K::Quote).chunks(2).map(|q| (q[0].end, q[1].at + 1)));
            // without its marker a heredoc has no end
            open.extend(of(K::End).iter().map(|m| (m.at, m.end)));
            let (a, b) = if open.is_empty() { return None } else { *s.pick(&open) };
            let mut at = a + s.usize((b - a).max(1));
            while !d.text.is_char_boundary(at) {
                at -= 1;
            }
            d.text.truncate(at);
            ("fault: cut where something is open", format!("cut at {}", at))
        }
        2 => {
            let m = one(of(K::Bracket))?;
            d.text.replace_range(m.at..m.end, if s.chance(1, 2) { "" } else { " " });
            ("fault: a bracket lost", format!("the bracket at {} lost", m.at))
        }
        3 => {
            let at = outside(s, d);
            let t = *s.pick(&["{", "}", "[", "]", "(", ")"]);
            d.text.insert_str(at, t);
            ("fault: a bracket too many", format!("{} inserted at {}", t, at))
        }
        4 => {
            let m = one(of(K::Bracket))?;
            let b = d.text[m.at..m.end].to_string();
            let t = *s.pick(&["{", "}", "[", "]", "(", ")"]);
            if b == t {
                return None;
            }
            d.text.replace_range(m.at..m.end, t);
            ("fault: a bracket became another", format!("{} at {} became {}", b, m.at, t))
        }
        5 => {
            let at = outside(s, d);
            let t = *s.pick(JUNK);
            d.text.insert_str(at, t);
            ("fault: junk between tokens", format!("{:?} inserted at {}", t, at))
        }
        6 => {
            let mut all = Vec::new();
            for m in of(K::Eq) {
                let next = d.marks.iter().filter(|x| x.k == K::Value && x.at >= m.end).min_by_key(|x| x.at)?;
                // `a = {` without its sign is a block
                if !d.text[next.at..].starts_with('{') {
                    all.push(m);
                }
            }
            let m = one(all)?;
            d.text.replace_range(m.at..m.end, if s.chance(1, 2) { "" } else { " " });
            ("fault: an equals sign lost", format!("the equals sign at {} lost", m.at))
        }
        7 => {
            let m = one(of(K::Value))?;
            d.text.replace_range(m.at..m.end, if s.chance(1, 2) { "" } else { " " });
            ("fault: a value lost", format!("{}..{} lost", m.at, m.end))
        }
        8 => {
            let m = one(of(K::Name))?;
            d.text.replace_range(m.at..m.end, if s.chance(1, 2) { "" } else { " " });
            ("fault: a name lost", format!("{}..{} lost", m.at, m.end))
        }
        9 => {
            let m = one(of(K::Comma))?;
            d.text.replace_range(m.at..m.end, " ");
            ("fault: a comma lost", format!("the comma at {} lost", m.at))
        }
        10 => {
            let m = one(of(K::Gap))?;
            d.text.replace_range(m.at..m.end, " ");
            ("fault: a line ending lost", format!("the line ending at {}..{} lost", m.at, m.end))
        }
        11 => {
            // every quotation mark counts only where nothing can hide one
            if ["#", "//", "/*", "<<", "\\"].iter().any(|t| d.text.contains(t)) {
                return None;
            }
            let m = one(of(K::Quote))?;
            d.text.replace_range(m.at..m.end, "");
            ("fault: a quotation mark lost", format!("the quotation mark at {} lost", m.at))
        }
        12 => {
            let m = one(of(K::Eq))?;
            let t = *s.pick(&["=", "= ", ":", "= null =", "=>", "= \"\" ", ","]);
            d.text.insert_str(m.end, t);
            ("fault: text after an equals sign", format!("{:?} inserted at {}", t, m.end))
        }
        16 => {
            // anything but the line's end behind a heredoc's marker, and it marks nothing
            let m = one(of(K::End))?;
            let id = d.text[m.at..m.end].trim().to_string();
            if d.text[m.end..].lines().any(|l| l.trim() == id) {
                return None;
            }
            let t = *s.pick(&[")", ",", "]", "}", ";", "x", "_", "1", ".", "é", "\"", "#", "//", "/**/"]);
            if s.chance(1, 2) {
                d.text.truncate(m.end);
            }
            d.text.insert_str(m.end, t);
            ("fault: text behind a heredoc's marker", format!("{:?} inserted at {}", t, m.end))
        }
        17 | 18 => {
            let m = of(K::Quote);
            if m.is_empty() {
                return None;
            }
            let m = m[2 * s.usize(m.len() / 2)];
            let t = bad_escape(s);
            d.text.insert_str(m.end, &t);
            ("fault: an escape that is none", format!("{:?} inserted at {}", t, m.end))
        }
        19 => {
            let m = one(of(K::Name))?;
            let t = *s.pick(&["-", "--", "1", "9_", "0-", ".", "·", "\u{301}", "٣", "+", "-1", "\u{200d}", "a.", "a/", "a:", "a!", "a ", "a\t", "\u{b7}", "*"]);
            // not so that it becomes a number
            if t.ends_with(|c: char| c.is_ascii_digit()) && d.text[m.at..].starts_with(|c| c == 'e' || c == 'E') {
                return None;
            }
            d.text.insert_str(m.at, t);
            ("fault: a name that is none", format!("{:?} inserted at {}", t, m.at))
        }
        20 => {
            let m = one(d.marks.iter().copied().filter(|m| m.k == K::Comma || m.k == K::Stop && d.tree).collect())?;
            d.text.insert_str(m.at, *s.pick(&[",", ", ", ",,"]));
            ("fault: a comma too many", format!("a comma inserted at {}", m.at))
        }
        21 => {
            let m = one(of(K::Line))?;
            let t = *s.pick(&["\n", "\r\n", "\r", "x\n", "\n\n"]);
            d.text.insert_str(m.end, t);
            ("fault: a line ending in a name or label", format!("{:?} inserted at {}", t, m.end))
        }
        13 | 14 => {
            let m = one(of(K::Value))?;
            let t = *s.pick(VALUES);
            if opens(t) {
                // nothing that follows may close it
                d.text.truncate(m.at);
                d.text.push_str(t);
                if s.chance(1, 2) {
                    d.text.push('\n');
                }
            } else {
                d.text.replace_range(m.at..m.end, t);
            }
            ("fault: a value that is none", format!("{}..{} became {:?}", m.at, m.end, t))
        }
        _ => {
            let t = if d.tree && s.chance(1, 4) { *s.pick(TREE_ONLY) } else { *s.pick(ELEMENTS) };
            let eol = *s.pick(&["\n", "\r\n"]);
            let whole = s.chance(1, 4);
            if whole {
                d.text = t.to_string();
            } else if s.chance(1, 2) && !opens(t) {
                d.text.insert_str(0, &format!("{}{}", t, eol));
            } else {
                if !d.text.is_empty() && !d.text.ends_with('\n') {
                    d.text.push_str(eol);
                }
                d.text.push_str(t);
            }
            if s.chance(1, 2) && !(t.starts_with('/') || t.contains('<')) {
                d.text.push_str(eol);
            }
            ("fault: an element that is none", format!("{:?} added", t))
        }
    };
    Some(broken)
}

/// What texts are made of, and what they are not
const TOKENS: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "=", ",", "\"", "\n", "\r\n", " ", "\t", "\r", "#", "//", "/*", "*/", "# c\n", "// c\n", "/* c */", "/* c\n*/", "<<EOF\n", "<<-EOF\n", "\nEOF\n",
    "\n  EOF\n", "EOF", "<<", "-", "+", ".", "e", "E", "0", "1", "9", "12", "1.5", "-1", "1e5", ".5", "5.", "null", "true", "false", "a", "b", "_", "foo", "foo-bar", "é", "x\u{301}",
    "\"a\"", "\"\"", "\"a b\"", "\"${a}\"", "\"\\n\"", "\\", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\777", "\\q", "\\ud800", "\\U00110000", "a = 1", "a = 1\n", "\nb = 2\n", "c {\n}\n",
    "c {}", "c \"l\" {\n", "{ a = 1 }", "[1, 2]", "(1)", "{}", "[]", "()", "= ", " = ", "==", "=>", ":", ";", "?", "!", "|", "&", "%", "$", "@", "^", "~", "'", "`", "<", ">", "*", "/", "\0", "\u{1a}",
    "\u{7f}", "\u{85}", "\u{a0}", "\u{200b}", "\u{2010}", "\u{2028}", "\u{feff}", "\u{ff0d}", "٣", "½", "²", "·", "ª", "𝒳", "🙂", "→", "⁀", "nul", "tru", "NULL", "True", "inf", "nan", "0x1F", "1_0", "b 1", "...", "${", "}}", "{{",
];

/// A character no name has
fn symbol(s: &Src) -> char {
    let (a, b) = *s.pick(&[(0x21u32, 0x2f), (0x3a, 0x40), (0x5b, 0x60), (0x7b, 0x7f), (0x2010, 0x2027), (0x2030, 0x203e), (0x20a0, 0x20bf), (0x2190, 0x2426), (0x2500, 0x25ff), (0x3008, 0x3020), (0x1f300, 0x1f5ff), (0, 0x1f)]);
    char::from_u32(a + s.below((b - a + 1) as u64) as u32).unwrap_or('!')
}

fn near(d: &Doc, at: usize) -> usize {
    let mut at = at.min(d.text.len());
    while !d.text.is_char_boundary(at) {
        at -= 1;
    }
    at
}

/// A place in the text: anywhere, or where a token starts or ends
fn place(s: &Src, d: &Doc) -> usize {
    let at = if d.marks.is_empty() || s.chance(1, 3) {
        s.usize(d.text.len() + 1)
    } else {
        let m = *s.pick(&d.marks);
        if s.chance(1, 2) {
            m.at
        } else {
            m.end
        }
    };
    near(d, at)
}

/// Before or behind some byte that is of a kind
fn around(s: &Src, d: &Doc, kind: impl Fn(u8) -> bool) -> Option<usize> {
    let at: Vec<usize> = d.text.bytes().enumerate().filter(|(_, b)| kind(*b)).map(|(i, _)| i).take(4000).collect();
    if at.is_empty() {
        return None;
    }
    Some(*s.pick(&at) + s.usize(2))
}

fn token(s: &Src) -> String {
    match s.below(10) {
        8 | 9 => s.pick(&["{", "}", "[", "]", "(", ")", "=", ",", "\"", "\n", " ", "#", "\\", "."]).to_string(),
        0 => symbol(s).to_string(),
        1 => crate::text::any_char(s).to_string(),
        // what might pass for a number
        2 => (0..1 + s.usize(7)).map(|_| *s.pick(&['1', '0', '9', '.', '-', '+', 'e', 'E', '_', 'x', 'f', ' ', '5'])).collect(),
        _ => s.pick(TOKENS).to_string(),
    }
}

/// Small changes anywhere, or a text made of tokens. Whether a configuration is left is another
/// question.
fn mutate(c: &Ctx, d: &mut Doc, still: impl Fn(&str) -> bool) -> Option<(&'static str, String)> {
    let s = &c.s;
    let mut how = String::new();
    if s.chance(1, 8) {
        d.text = (0..1 + s.usize(8)).map(|_| token(s)).collect();
        d.marks.clear();
        how.push_str("tokens at random");
    } else {
        for _ in 0..1 + s.small(3) {
            let at = place(s, d);
            match s.below(9) {
                6 => {
                    // within or next to a number
                    let at = around(s, d, |b| b.is_ascii_digit()).unwrap_or(at);
                    let t: String = if s.chance(1, 2) { s.pick(&["e", "E", "e_", "E_", "_", "_0", "e+", "e-_", ".", "..", "._", "_.", "-", "+", "e.", "e1.", ".e", "0x", "x", "e+_1", "/", " 1", ",", "f", "u8"]).to_string() } else { (0..1 + s.small(2)).map(|_| *s.pick(&['_', '.', '-', '+', 'e', 'E', 'x', ',', '\'', ' ', '0', '1', 'f', 'b', 'o', 'u', '٣', '/'])).collect() };
                    d.text.insert_str(at, &t);
                    how.push_str(&format!("{:?} put in at {}, ", t, at));
                }
                7 | 8 => {
                    // next to what holds the text together
                    let at = around(s, d, |b| b"{}[]()=,\"".contains(&b)).unwrap_or(at);
                    let t: String = (0..1 + s.small(2)).map(|_| *s.pick(&[',', '=', '(', ')', '[', ']', '{', '}', '"', '\n', ' ', '.', ':', ';', '\\', '#', '-', '/'])).collect();
                    d.text.insert_str(at, &t);
                    how.push_str(&format!("{:?} put in at {}, ", t, at));
                }
                0 | 1 => {
                    let t = token(s);
                    d.text.insert_str(at, &t);
                    how.push_str(&format!("{:?} put in at {}, ", t, at));
                }
                2 => {
                    let end = near(d, at + 1 + s.small(12)).max(at);
                    d.text.replace_range(at..end, "");
                    how.push_str(&format!("{}..{} lost, ", at, end));
                }
                3 => {
                    let end = near(d, at + 1 + s.small(3)).max(at);
                    let t = token(s);
                    d.text.replace_range(at..end, &t);
                    how.push_str(&format!("{}..{} became {:?}, ", at, end, t));
                }
                4 if !d.marks.is_empty() => {
                    let m = *s.pick(&d.marks);
                    let (a, b) = (near(d, m.at), near(d, m.end));
                    let t = if s.chance(1, 2) { String::new() } else { token(s) };
                    d.text.replace_range(a..b.max(a), &t);
                    how.push_str(&format!("{}..{} became {:?}, ", a, b, t));
                }
                _ => {
                    // a stretch of the text again, elsewhere
                    let from = place(s, d);
                    let to = near(d, from + 1 + s.usize(30)).max(from);
                    let t = d.text[from..to].to_string();
                    d.text.insert_str(at, &t);
                    how.push_str(&format!("{}..{} again at {}, ", from, to, at));
                }
            }
        }
    }
    if still(&d.text) {
        c.count("still a configuration");
        return None;
    }
    Some(("fault: small changes anywhere", how))
}

/// A text of the value grammar that is none any more
pub fn broken_values(c: &Ctx, d: &docv::Doc) -> String {
    let mut d = Doc { text: d.text.clone(), marks: d.marks.clone(), tree: false };
    let (what, how) = breaks(c, &mut d, false);
    c.count(what);
    c.ev(|| how);
    d.text
}

/// `either`: whether the text may become one for the other grammar to refuse
fn breaks(c: &Ctx, d: &mut Doc, either: bool) -> (&'static str, String) {
    let first = if c.s.chance(2, 5) {
        let whole = (d.text.clone(), d.marks.clone());
        // texts of the other grammar are texts like any other
        d.tree ^= either && c.s.chance(1, 8);
        let tree = d.tree;
        let r = mutate(c, d, |t| may_be(t, tree));
        if r.is_none() {
            d.text = whole.0;
            d.marks = whole.1;
        }
        r
    } else {
        None
    };
    first.or_else(|| damage(c, d)).unwrap_or_else(|| {
        // always possible
        let t = *c.s.pick(JUNK);
        d.text.push_str(t);
        ("fault: junk between tokens", format!("{:?} added", t))
    })
}

/// A single expression, which is read from memory
fn lone_expr(c: &Ctx, cfg: Cfg) -> R {
    let s = &c.s;
    let mut o = crate::text::Out::new(cfg);
    let heredoc = s.chance(1, 4);
    docp::expr(s, &mut o, 0, heredoc);
    let mut d = Doc { text: o.t, marks: o.marks, tree: true };
    let whole = d.text.clone();
    let how = match mutate(c, &mut d, may_be_expr) {
        Some((what, how)) => {
            c.count(what);
            how
        }
        None => {
            let t = *s.pick(JUNK);
            d.text = whole + t;
            format!("{:?} added", t)
        }
    };
    if may_be_expr(&d.text) {
        c.count("not judged");
        return Ok(());
    }
    c.count("expressions");
    c.ev(|| how.clone());
    c.ev(|| format!("expression {}", crate::text::show(&d.text)));
    c.sig(d.text.as_bytes());
    match lib(|| Expression::parse(&d.text).map(|e| e.variant_name())) {
        Ok(Err(Error::IOError(e))) => fail("refused", format!("Expression::parse blames a stream: {:?}", e)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => fail("accepted", format!("Expression::parse accepts what is no expression ({}): {}", how, crate::text::show(&d.text))),
        Err(e) => fail("panic", format!("Expression::parse panics: {:?}", e)),
    }
}

pub fn c15(c: &Ctx) -> R {
    let s = &c.s;
    let mut cfg = Cfg::draw(s);
    cfg.big &= s.chance(1, 4);
    if s.chance(1, 10) {
        return lone_expr(c, cfg);
    }
    let mut d = if s.chance(1, 2) {
        let d = docv::draw_with(s, cfg);
        Doc { text: d.text, marks: d.marks, tree: false }
    } else {
        let d = docp::draw_with(s, cfg);
        Doc { text: d.text, marks: d.marks, tree: true }
    };
    c.ev(|| format!("before {}", crate::text::show(&d.text)));
    let (what, how) = breaks(c, &mut d, true);
    c.count(what);
    c.ev(|| how.clone());
    c.ev(|| format!("document {}", crate::text::show(&d.text)));
    let data = Arc::new(d.text.clone().into_bytes());
    let p = Plan::draw(s, data.len());
    p.hash(c);
    c.ev(|| format!("stream {:?}", p));
    fn refused<T>(text: &str, how: &str, what: &str, r: Res<T>) -> R {
        match r {
            Ok(Err(Error::IOError(e))) => fail("refused", format!("{} blames the stream for what is written there: {:?}", what, e)),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(_)) => fail("accepted", format!("{} accepts what is no configuration ({}): {}", what, how, crate::text::show(text))),
            Err(Panicked::Other(m)) => fail("panic", format!("{} panics: {}", what, m)),
            Err(e) => fail("panic", format!("{} panics: {:?}", what, e)),
        }
    }
    let t = &d.text[..];
    if may_be(t, d.tree) {
        // the recogniser has the last word on what is none
        c.count("not judged");
        return Ok(());
    }
    if d.tree {
        refused(t, &how, "parse_reader", tree_stream(SimReader::new(c, &data, &p)))?;
        refused(t, &how, "parse_slice", tree_slice(&data))?;
        refused(t, &how, "parse_str", tree_str(t))?;
        match crate::typed::load(t) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return fail("accepted", format!("serde::from_str accepts what is no configuration ({}): {}", how, crate::text::show(t))),
            Err(e) => return fail("panic", format!("serde::from_str panics: {:?}", e)),
        }
    } else {
        let m = if s.chance(1, 2) { MERGE } else { None };
        refused(t, &how, "from_reader", values_stream(SimReader::new(c, &data, &p), m))?;
        refused(t, &how, "from_slice", values_slice(&data, m))?;
        refused(t, &how, "from_str", values_str(t, m))?;
    }
    c.sig(t.as_bytes());
    if p.cut(data.len()) {
        c.nontrivial();
    }
    c.sample(|| format!("{} in {}", how, crate::text::show(t)));
    Ok(())
}
