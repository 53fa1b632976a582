//! What is a configuration, read generously: where the documentation or the grammars leave room,
//! this accepts. What it does not accept is no configuration by any reading. It shares nothing
//! with the parsers under test and only says yes or no.
use unic_ucd_ident::{is_id_continue, is_id_start};

pub struct G<'t> {
    t: &'t str,
    b: &'t [u8],
    /// The grammar of syntax trees, or that of values
    tree: bool,
}

type End = Option<usize>;

fn cont(c: char) -> bool {
    is_id_continue(c) || c.is_alphanumeric() || c == '-' || c == '_'
}

impl<'t> G<'t> {
    fn new(t: &'t str, tree: bool) -> G<'t> {
        G { t, b: t.as_bytes(), tree }
    }
    fn at(&self, i: usize) -> u8 {
        self.b.get(i).copied().unwrap_or(0)
    }
    fn is(&self, i: usize, p: &str) -> bool {
        self.b[i.min(self.b.len())..].starts_with(p.as_bytes())
    }
    fn eof(&self, i: usize) -> bool {
        i >= self.b.len()
    }

    // layout ----------------------------------------------------------------------------------

    fn block_comment(&self, i: usize) -> End {
        if self.is(i, "/*") {
            self.t[i + 2..].find("*/").map(|n| i + n + 4)
        } else {
            None
        }
    }
    /// Behind the line ending, which the end of the text may stand in for
    fn line_comment(&self, i: usize) -> End {
        if self.is(i, "#") || self.is(i, "//") {
            Some(self.t[i..].find('\n').map_or(self.b.len(), |n| i + n + 1))
        } else {
            None
        }
    }
    fn eol(&self, i: usize) -> End {
        if self.is(i, "\n") {
            Some(i + 1)
        } else if self.is(i, "\r\n") {
            Some(i + 2)
        } else {
            None
        }
    }
    /// Layout within a line
    fn iws(&self, mut i: usize) -> usize {
        loop {
            match self.at(i) {
                b' ' | b'\t' => i += 1,
                _ => match self.block_comment(i) {
                    Some(j) => i = j,
                    None => return i,
                },
            }
        }
    }
    /// Layout, and whether a line ended in it
    fn ws(&self, mut i: usize) -> (usize, bool) {
        let mut line = false;
        loop {
            if let b' ' | b'\t' | b'\r' | b'\n' = self.at(i) {
                line |= self.eol(i).is_some();
                i += 1;
            } else if let Some(j) = self.block_comment(i) {
                i = j;
            } else if let Some(j) = self.line_comment(i) {
                i = j;
                line = true;
            } else {
                return (i, line);
            }
        }
    }
    fn w(&self, i: usize) -> usize {
        self.ws(i).0
    }

    // tokens ----------------------------------------------------------------------------------

    fn ident(&self, i: usize) -> End {
        let rest = self.t.get(i..)?;
        let first = rest.chars().next()?;
        if !(is_id_start(first) || first.is_alphabetic() || first == '_') {
            return None;
        }
        Some(i + rest.find(|c| !cont(c)).unwrap_or(rest.len()))
    }
    fn digits(&self, mut i: usize) -> usize {
        while self.at(i).is_ascii_digit() {
            i += 1;
        }
        i
    }
    fn number(&self, mut i: usize) -> End {
        if let b'+' | b'-' = self.at(i) {
            i += 1;
        }
        let mut j = self.digits(i);
        if self.at(j) == b'.' {
            let k = self.digits(j + 1);
            if j == i && k == j + 1 {
                return None;
            }
            j = k;
        } else if j == i {
            return None;
        }
        if let b'e' | b'E' = self.at(j) {
            let mut k = j + 1;
            if let b'+' | b'-' = self.at(k) {
                k += 1;
            }
            let l = self.digits(k);
            if l > k {
                j = l;
            }
        }
        Some(j)
    }
    fn quoted(&self, mut i: usize, lines: bool) -> End {
        if self.at(i) != b'"' {
            return None;
        }
        i += 1;
        let many = |from: usize, most: usize, radix: u32| {
            let n = self.b[from.min(self.b.len())..].iter().take(most).take_while(|b| (**b as char).is_digit(radix)).count();
            let v = u32::from_str_radix(&self.t[from.min(self.b.len())..][..n], radix).ok()?;
            char::from_u32(v).map(|_| from + n)
        };
        loop {
            if self.eof(i) {
                return None;
            }
            match self.b[i] {
                b'"' => return Some(i + 1),
                b'\n' | b'\r' if !lines => return None,
                b'\\' => {
                    i = match self.at(i + 1) {
                        b'a' | b'b' | b'f' | b'n' | b'r' | b't' | b'v' | b'\\' | b'"' | b'?' => i + 2,
                        b'0'..=b'7' => many(i + 1, 3, 8)?,
                        b'x' => many(i + 2, 2, 16)?,
                        b'u' => many(i + 2, 4, 16)?,
                        b'U' => many(i + 2, 8, 16)?,
                        _ => return None,
                    }
                }
                _ => i += 1,
            }
        }
    }
    /// Up to the line ending behind the marker
    fn heredoc(&self, i: usize) -> End {
        if !self.is(i, "<<") {
            return None;
        }
        let mut i = i + 2;
        if self.at(i) == b'-' {
            i += 1;
        }
        let rest = &self.t[i..];
        let id = &rest[..rest.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(rest.len())];
        if id.is_empty() {
            return None;
        }
        let mut line = i + id.len();
        self.eol(line)?;
        loop {
            // `line` is where a line ends
            let mut j = self.eol(line)?;
            while let b' ' | b'\t' = self.at(j) {
                j += 1;
            }
            if self.is(j, id) {
                j += id.len();
                if self.eof(j) || self.eol(j).is_some() {
                    return Some(j);
                }
            }
            let next = self.eol(line)?;
            let n = self.t[next..].find('\n')? + next;
            line = if n > next && self.b[n - 1] == b'\r' { n - 1 } else { n };
        }
    }

    // expressions -----------------------------------------------------------------------------

    fn expr(&self, i: usize) -> End {
        for k in ["null", "true", "false"] {
            if self.is(i, k) {
                return Some(i + k.len());
            }
        }
        if let Some(j) = self.number(i).or_else(|| self.quoted(i, true)).or_else(|| self.heredoc(i)) {
            return Some(j);
        }
        if self.at(i) == b'[' {
            return self.list(i);
        }
        let j = self.w(i);
        match self.at(j) {
            b'{' => self.object(j),
            b'(' if self.tree => {
                let k = self.w(self.expr(self.w(j + 1))?);
                if self.at(k) == b')' {
                    Some(k + 1)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    fn list(&self, i: usize) -> End {
        let mut j = self.w(i + 1);
        if self.at(j) == b',' {
            j = self.w(j + 1);
        } else {
            while self.at(j) != b']' {
                j = self.w(self.expr(j)?);
                if self.at(j) == b',' {
                    j = self.w(j + 1);
                } else {
                    break;
                }
            }
        }
        if self.at(j) == b']' {
            Some(j + 1)
        } else {
            None
        }
    }
    fn object(&self, i: usize) -> End {
        if !self.tree {
            let j = self.entries(i + 1)?;
            return if self.at(j) == b'}' { Some(j + 1) } else { None };
        }
        let mut j = self.w(i + 1);
        while self.at(j) != b'}' {
            let k = self.ident(j).or_else(|| self.expr(j))?;
            let k = self.set(k)?;
            let (k, line) = self.ws(k);
            j = if self.at(k) == b',' {
                self.w(k + 1)
            } else if line || self.at(k) == b'}' {
                k
            } else {
                return None;
            };
        }
        Some(j + 1)
    }
    /// `= value`
    fn set(&self, i: usize) -> End {
        let i = self.iws(i);
        if self.at(i) == b'=' {
            self.expr(self.iws(i + 1))
        } else {
            None
        }
    }

    // values ----------------------------------------------------------------------------------

    /// Entries, up to a bracket or the end of the text
    fn entries(&self, i: usize) -> End {
        let mut i = self.w(i);
        while !self.eof(i) && self.at(i) != b'}' {
            let j = self.entry(i)?;
            let (k, line) = self.ws(j);
            i = if self.at(k) == b',' {
                self.w(k + 1)
            } else if line || self.eof(k) || self.at(k) == b'}' {
                k
            } else {
                return None;
            };
        }
        Some(i)
    }
    fn entry(&self, i: usize) -> End {
        let id = self.ident(i);
        let k = id.or_else(|| self.quoted(i, false))?;
        if let Some(j) = self.set(k) {
            return Some(j);
        }
        id?;
        let mut j = self.iws(k);
        while let Some(k) = self.quoted(j, false) {
            j = self.iws(k);
        }
        let j = self.w(j);
        if self.at(j) == b'{' {
            self.object(j)
        } else {
            None
        }
    }

    // trees -----------------------------------------------------------------------------------

    fn elements(&self, i: usize) -> End {
        let mut i = self.w(i);
        while !self.eof(i) && self.at(i) != b'}' {
            let j = self.element(i)?;
            let (k, line) = self.ws(j);
            if !line && !self.eof(k) {
                return None;
            }
            i = k;
        }
        Some(i)
    }
    fn element(&self, i: usize) -> End {
        let k = self.ident(i)?;
        if let Some(j) = self.set(k) {
            return Some(j);
        }
        let mut j = self.iws(k);
        while let Some(k) = self.ident(j).or_else(|| self.quoted(j, false)) {
            j = self.iws(k);
        }
        if self.at(j) != b'{' {
            return None;
        }
        let k = self.iws(j + 1);
        if self.at(k) == b'}' {
            return Some(k + 1);
        }
        if let Some(l) = self.ident(k).and_then(|l| self.set(l)) {
            let l = self.iws(l);
            return if self.at(l) == b'}' { Some(l + 1) } else { None };
        }
        if self.eol(k).or_else(|| self.line_comment(k)).is_none() {
            return None;
        }
        let l = self.elements(k)?;
        if self.at(l) == b'}' {
            Some(l + 1)
        } else {
            None
        }
    }
}

/// Can this be a configuration?
pub fn may_be(t: &str, tree: bool) -> bool {
    let g = G::new(t, tree);
    let end = if tree { g.elements(0) } else { g.entries(0) };
    end.map_or(false, |i| g.eof(i))
}

/// Can this be an expression of the syntax tree grammar?
pub fn may_be_expr(t: &str) -> bool {
    let g = G::new(t, true);
    g.expr(g.w(0)).map_or(false, |i| g.eof(g.w(i)))
}
