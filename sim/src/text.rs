//! Layout, identifiers, strings and numbers: the lexical parts shared by both grammars. Every
//! function writes text and answers what it means.
use crate::src::Src;

/// Per-run configuration (swarm): which features appear and how big things get
#[derive(Clone, Debug)]
pub struct Cfg {
    pub eol: u8, // 0 LF, 1 CRLF, 2 both
    pub trivia: u64,
    pub comments: bool,
    pub unicode: bool,
    pub escapes: bool,
    pub heredocs: bool,
    pub aggregates: bool,
    pub parens: bool,
    pub blocks: bool,
    pub oneline: bool,
    pub labels: bool,
    pub exprkeys: bool,
    pub quotedkeys: bool,
    pub rawnl: bool,
    pub big: bool,
    pub names: usize,
    /// Repeated keys mostly hold what can be combined
    pub coherent: bool,
    /// More entries in the outer levels
    pub many: bool,
    /// Now and then something is much longer, wider or stranger than usual
    pub wide: bool,
    pub depth: usize,
    pub width: usize,
}

impl Cfg {
    pub fn draw(s: &Src) -> Cfg {
        let on = |n, d| s.chance(n, d);
        Cfg {
            eol: s.weighted(&[5, 2, 1]) as u8,
            trivia: *s.pick(&[0, 1, 2, 4]),
            comments: on(1, 2),
            unicode: on(1, 2),
            escapes: on(1, 2),
            heredocs: on(1, 2),
            aggregates: on(2, 3),
            parens: on(1, 4),
            blocks: on(2, 3),
            oneline: on(1, 2),
            labels: on(2, 3),
            exprkeys: on(1, 4),
            quotedkeys: on(1, 3),
            rawnl: on(1, 3),
            big: on(1, 24),
            names: *s.pick(&[3, 6, 40]),
            coherent: false,
            many: false,
            wide: on(1, 10),
            depth: *s.pick(&[2, 3, 4, 6]),
            width: *s.pick(&[3, 5, 8]),
        }
    }
}

/// What a piece of the text is there for
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Bracket,
    Eq,
    Quote,
    /// Between two elements of a list
    Comma,
    /// What an attribute or object entry is set to
    Value,
    /// What an attribute or object entry is called
    Name,
    /// What separates an element from the next one
    Gap,
    /// Where a string begins that has to end on its line
    Line,
    /// Behind an attribute that only a line ending or a bracket may follow
    Stop,
    /// The line ending and the marker that end a heredoc
    End,
    /// A comment within a line
    Comment,
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub at: usize,
    pub end: usize,
    pub k: K,
}

/// Any character
pub fn any_char(s: &Src) -> char {
    let c = match s.below(6) {
        0 => s.below(0x80),
        1 => s.below(0x100),
        2 => s.below(0x3000),
        3 => *s.pick(&[
            0xfeff, 0xfffd, 0xfffe, 0xffff, 0x2028, 0x2029, 0x85, 0xa0, 0x1680, 0x180e, 0x200b, 0x200d, 0x2060, 0x202e, 0x3000,
            0xd7ff, 0xe000, 0xfdd0, 0x10ffff, 0x10000, 0x1f600, 0x7f, 0x1, 0x1a, 0x1b, 0xb, 0xc, 0x660, 0x2153, 0x24b6, 0xe0001,
        ]),
        4 => 0x10000 + s.below(0x100000),
        _ => s.below(0xd800),
    };
    char::from_u32(c as u32).unwrap_or('\u{fffd}')
}

pub struct Out {
    pub t: String,
    pub marks: Vec<Mark>,
    pub cfg: Cfg,
    /// The text ends in a heredoc's end marker: a line ending has to follow at once
    pub must_eol: bool,
}

pub const NAMES: &[&str] = &[
    "a", "b", "foo", "c-d", "_x", "true", "null", "false", "a1", "A", "foo_bar", "b-", "item", "x",
    "resource", "name", "EOF", "e", "nullable", "truex", "z--9",
];
pub const UNAMES: &[&str] = &["é", "゛藏_a", "ключ", "变量1", "ǆ-x", "ａ", "e\u{301}", "𝒳y", "ª"];

impl Out {
    pub fn new(cfg: Cfg) -> Out {
        Out { t: String::new(), marks: Vec::new(), cfg, must_eol: false }
    }
    pub fn push(&mut self, s: &str) {
        debug_assert!(!self.must_eol || s.starts_with('\n') || s.starts_with("\r\n"));
        self.must_eol = false;
        self.t.push_str(s);
    }
    /// A token the text is not valid without
    pub fn tok(&mut self, k: K, s: &str) {
        self.push(s);
        let end = self.t.len();
        self.marks.push(Mark { at: end - s.len(), end, k });
    }
    /// Everything written since `at`
    pub fn mark(&mut self, k: K, at: usize) {
        self.marks.push(Mark { at, end: self.t.len(), k });
    }
    pub fn eol(&mut self, s: &Src) {
        let e = match self.cfg.eol {
            0 => "\n",
            1 => "\r\n",
            _ => *s.pick(&["\n", "\r\n"]),
        };
        self.push(e);
    }
    fn comment_text(&mut self, s: &Src) {
        let c = *s.pick(&[
            "", " c", " a = 1", "\"", " { } [ ]", "#", " // x", "/*", "*", " <<EOF", " \\", "'", "}", " \"open", "=,",
        ]);
        self.push(c);
        if self.cfg.unicode && s.chance(1, 4) {
            self.push(*s.pick(&["é", " 藏", "𝒳", "\u{2028}", "\u{85}"]));
        }
        if self.cfg.wide && s.chance(1, 6) {
            for _ in 0..s.usize(s.pick(&[8, 80, 1000]) + 1) {
                let c = any_char(s);
                if c != '\r' && c != '\n' {
                    self.t.push(c);
                }
            }
        }
    }
    fn inline_comment(&mut self, s: &Src) {
        let at = self.t.len();
        self.an_inline_comment(s);
        self.mark(K::Comment, at);
    }
    fn an_inline_comment(&mut self, s: &Src) {
        if self.cfg.wide && s.chance(1, 6) {
            self.push("/*");
            for _ in 0..s.usize(s.pick(&[8, 80, 1000]) + 1) {
                let c = any_char(s);
                if c != '/' {
                    self.t.push(c);
                }
            }
            self.push("*/");
            return;
        }
        let c = *s.pick(&[
            "/* c */", "/**/", "/***/", "/* a = 1\n b */", "/* # */", "/* // */", "/* \" { */", "/* \r\n */",
            "/* /* */", "/* é */", "/* <<EOF\nEOF\n */",
        ]);
        self.push(c);
    }
    fn amount(&self, s: &Src) -> u64 {
        if self.cfg.wide && s.chance(1, 60) {
            s.below(60)
        } else {
            s.below(self.cfg.trivia)
        }
    }
    /// Optional inline whitespace
    pub fn iw(&mut self, s: &Src) {
        if self.must_eol || self.cfg.trivia == 0 {
            return;
        }
        for _ in 0..self.amount(s) {
            match s.weighted(&[6, 2, 2, if self.cfg.comments { 3 } else { 0 }]) {
                0 => self.push(" "),
                1 => self.push("\t"),
                2 => self.push("   "),
                _ => self.inline_comment(s),
            }
        }
    }
    /// Inline whitespace that separates
    pub fn iw1(&mut self, s: &Src) {
        if self.cfg.comments && s.chance(1, 8) {
            self.inline_comment(s);
        } else {
            self.push(*s.pick(&[" ", "  ", "\t"]));
        }
        self.iw(s);
    }
    fn line_comment(&mut self, s: &Src) {
        self.push(*s.pick(&["#", "//"]));
        self.comment_text(s);
        self.eol(s);
    }
    /// A line ending, possibly with a comment before it, and whatever blank may follow
    pub fn nl(&mut self, s: &Src) {
        if !self.must_eol && self.cfg.comments && s.chance(1, 4) {
            if s.chance(1, 3) {
                self.inline_comment(s);
                self.eol(s);
            } else {
                self.line_comment(s);
            }
        } else {
            self.eol(s);
        }
        self.ws(s);
    }
    /// Optional whitespace including line endings and line comments
    pub fn ws(&mut self, s: &Src) {
        if self.must_eol {
            self.eol(s);
        }
        if self.cfg.trivia == 0 {
            return;
        }
        for _ in 0..self.amount(s) {
            match s.weighted(&[4, 4, if self.cfg.comments { 2 } else { 0 }]) {
                0 => self.iw(s),
                1 => self.eol(s),
                _ => self.line_comment(s),
            }
        }
    }

    pub fn name(&mut self, s: &Src) -> String {
        let n = self.pick_name(s);
        self.push(&n);
        n
    }
    pub fn pick_name(&self, s: &Src) -> String {
        if self.cfg.wide && s.chance(1, 12) {
            let mut n = String::new();
            for i in 0..1 + s.usize(*s.pick(&[4, 40, 400])) {
                n.push(match s.below(if i == 0 { 8 } else { 12 }) {
                    0 => 'a',
                    1 => (b'a' + s.below(26) as u8) as char,
                    2 => (b'A' + s.below(26) as u8) as char,
                    3 => '_',
                    4 => char::from_u32(0x3b1 + s.below(17) as u32).unwrap(),
                    5 => char::from_u32(0x4e00 + s.below(0x5000) as u32).unwrap(),
                    6 => char::from_u32(0xac00 + s.below(0x2b00) as u32).unwrap(),
                    7 => char::from_u32(0x10400 + s.below(0x50) as u32).unwrap(),
                    8 => '-',
                    9 => char::from_u32(0x660 + s.below(10) as u32).unwrap(),
                    10 => char::from_u32(0x300 + s.below(0x40) as u32).unwrap(),
                    _ => (b'0' + s.below(10) as u8) as char,
                });
            }
            return n;
        }
        if self.cfg.unicode && s.chance(1, 5) {
            return s.pick(UNAMES).to_string();
        }
        if self.cfg.names > NAMES.len() && s.chance(1, 2) {
            let mut n = s.pick(&["k", "K", "_", "zz"]).to_string();
            for _ in 0..s.usize(6) {
                n.push(*s.pick(&['a', 'e', '0', '9', '-', '_', 'Z']));
            }
            return n;
        }
        NAMES[s.usize(self.cfg.names.min(NAMES.len()))].to_string()
    }

    /// A number literal
    pub fn number(&mut self, s: &Src) -> String {
        let sign = *s.pick(&["", "", "-", "+"]);
        let wide = self.cfg.wide;
        let digits = |s: &Src| -> String {
            match s.weighted(&[6, 3, 2, 1, 1]) {
                0 => s.below(10).to_string(),
                1 => s.below(100_000).to_string(),
                2 => s
                    .pick(&[
                        "9223372036854775807",
                        "9223372036854775808",
                        "18446744073709551615",
                        "18446744073709551616",
                        "2147483648",
                        "4294967296",
                        "340282366920938463463374607431768211456",
                        "256",
                        "128",
                        "9007199254740993",
                    ])
                    .to_string(),
                3 => format!("00{}", s.below(100)),
                _ if wide => (0..1 + s.usize(400)).map(|_| (b'0' + s.below(10) as u8) as char).collect(),
                // now and then longer than anything that keeps digits in place
                _ => {
                    let most = if s.chance(1, 6) { 400 } else { 45 };
                    "1".repeat(1 + s.usize(most))
                }
            }
        };
        let mut n = sign.to_string();
        match s.weighted(&[10, 5, 1, 1]) {
            0 => n.push_str(&digits(s)),
            1 => {
                n.push_str(&digits(s));
                n.push('.');
                n.push_str(&digits(s));
            }
            2 => {
                n.push_str(&digits(s));
                n.push('.');
            }
            _ => {
                n.push('.');
                n.push_str(&digits(s));
            }
        }
        if s.chance(1, 6) {
            n.push(*s.pick(&['e', 'E']));
            n.push_str(*s.pick(&["", "-", "+"]));
            n.push_str(&s.below(400).to_string());
        }
        self.push(&n);
        n
    }

    /// A quoted string and its meaning
    pub fn quoted(&mut self, s: &Src, multiline: bool) -> String {
        let mut v = String::new();
        self.tok(K::Quote, "\"");
        if !multiline {
            self.mark(K::Line, self.t.len());
        }
        let mut n = s.small(12);
        let mut rep = 1;
        if self.cfg.big && s.chance(1, 6) {
            n = 1 + s.usize(6);
            rep = 1 + s.usize(3000);
        }
        let wide = self.cfg.wide && s.chance(1, 3);
        if wide && s.chance(1, 8) {
            n = s.usize(400);
        }
        let mut text = String::new();
        for _ in 0..n {
            if wide && s.chance(1, 2) {
                let c = any_char(s);
                if c != '"' && c != '\\' && (multiline || (c != '\r' && c != '\n')) {
                    text.push(c);
                    v.push(c);
                }
                continue;
            }
            match s.weighted(&[
                8,
                3,
                if self.cfg.unicode { 3 } else { 0 },
                if self.cfg.escapes { 6 } else { 0 },
                if self.cfg.rawnl && multiline { 2 } else { 0 },
            ]) {
                0 => {
                    let c = *s.pick(&["a", "B", "9", " ", "x", "foo bar", "0", "f", "-"]);
                    text.push_str(c);
                    v.push_str(c);
                }
                1 => {
                    let c = *s.pick(&[
                        "#", "//", "/*", "*/", "{", "}", "=", "[", "]", ",", "<<EOF", "${x}", "%{if}", "'", "\t", "$", "(",
                    ]);
                    text.push_str(c);
                    v.push_str(c);
                }
                2 => {
                    let c = *s.pick(&["é", "藏", "𝒳", "\u{85}", "\u{2028}", "\u{feff}", "\u{0}", "\u{7f}", "e\u{301}"]);
                    text.push_str(c);
                    v.push_str(c);
                }
                3 => self.escape(s, &mut text, &mut v),
                _ => {
                    let c = *s.pick(&["\n", "\r\n", "\n\n", "\nEOF\n", "\r", "\n# c\n"]);
                    text.push_str(c);
                    v.push_str(c);
                }
            }
        }
        self.t.push_str(&text.repeat(rep));
        self.tok(K::Quote, "\"");
        v.repeat(rep)
    }

    fn escape(&mut self, s: &Src, text: &mut String, v: &mut String) {
        let simple: &[(&str, &str)] = &[
            ("\\n", "\n"),
            ("\\\"", "\""),
            ("\\\\", "\\"),
            ("\\t", "\t"),
            ("\\r", "\r"),
            ("\\a", "\x07"),
            ("\\b", "\x08"),
            ("\\f", "\x0c"),
            ("\\v", "\x0b"),
            ("\\?", "?"),
        ];
        let cp = |s: &Src, max: u32| -> char {
            let c = match s.below(6) {
                5 => any_char(s) as u32,
                0 => 0x41 + s.below(26) as u32,
                1 => s.below(128) as u32,
                2 => s.below(256) as u32,
                3 => s.below(0xD800) as u32,
                _ => *s.pick(&[0xFFFFu32, 0xE000, 0xD7FF, 0x10FFFF, 0x1F600, 0x29000, 0xFF, 0x7F, 0]),
            };
            char::from_u32(c.min(max)).unwrap_or('A')
        };
        let from = text.len();
        let most = match s.weighted(&[10, 2, 2, 2, 2]) {
            0 => {
                let (t, m) = s.pick(simple);
                text.push_str(t);
                v.push_str(m);
                return;
            }
            1 => {
                let c = cp(s, 0o777);
                let w = s.usize(4);
                text.push_str(&format!("\\{:0w$o}", c as u32, w = w));
                v.push(c);
                4
            }
            2 => {
                let c = cp(s, 0xff);
                let w = s.usize(3);
                text.push_str(&hex('x', c, w, s));
                v.push(c);
                4
            }
            3 => {
                let c = cp(s, 0xffff);
                let w = s.usize(5);
                text.push_str(&hex('u', c, w, s));
                v.push(c);
                6
            }
            _ => {
                let c = cp(s, 0x10ffff);
                let w = s.usize(9);
                text.push_str(&hex('U', c, w, s));
                v.push(c);
                10
            }
        };
        // followed by something that is neither a hexadecimal nor an octal digit, unless there can
        // be no more of them
        let stop = if text.len() - from == most && s.chance(1, 2) {
            *s.pick(&["0", "7", "a", "F", ""])
        } else {
            *s.pick(&["g", " ", "z", "-", "."])
        };
        text.push_str(stop);
        v.push_str(stop);
    }

    /// A heredoc and its meaning
    pub fn heredoc(&mut self, s: &Src) -> String {
        let id = s.pick(&["EOF", "E", "_1", "END_2", "9"]).to_string();
        let id = if self.cfg.unicode && s.chance(1, 6) { "конец".to_string() } else { id };
        let id = if self.cfg.wide && s.chance(1, 6) { "E9_é".repeat(1 + s.usize(80)) } else { id };
        let indented = s.chance(1, 2);
        let indent = if s.chance(1, 2) { s.usize(if self.cfg.wide { 70 } else { 6 }) } else { 0 };
        let tab_end = !indented && s.chance(1, 8);
        self.push("<<");
        if indented {
            self.push("-");
        }
        self.push(&id);
        let crlf = match self.cfg.eol {
            0 => false,
            1 => true,
            _ => s.chance(1, 2),
        };
        let eol = if crlf { "\r\n" } else { "\n" };
        self.push(eol);
        let n = s.small(7);
        let rep = if self.cfg.big && s.chance(1, 6) { 1 + s.usize(600) } else { 1 };
        let mut lines: Vec<(String, String)> = Vec::new(); // (text, meaning)
        for _ in 0..n {
            let lead = match s.below(5) {
                0 => 0,
                1 => indent,
                2 => indent + s.usize(4),
                3 => s.usize(indent + 1),
                _ => indent,
            };
            let body = match s.weighted(&[6, 2, 2, if self.cfg.unicode { 3 } else { 0 }]) {
                0 => s.pick(&["line", "a = 1", "x", "foo bar ", "\"q\"", "\\n", "${x}", "-"]).to_string(),
                1 => String::new(),
                2 => {
                    // not quite the end marker
                    match s.below(5) {
                        0 => format!("{}x", id),
                        1 => format!("{} ", id),
                        2 => format!("x{}", id),
                        3 => format!("{} {}", id, id),
                        _ => format!("<<{}", id),
                    }
                }
                _ if self.cfg.wide => {
                    let n = *s.pick(&[3, 30, 300]);
                    (0..s.usize(n)).map(|_| any_char(s)).filter(|c| *c != '\r' && *c != '\n').collect()
                }
                _ => s.pick(&["é", "藏 x", "\u{a0}x", "𝒳", "\u{3000}y"]).to_string(),
            };
            // a carriage return that ends no line
            let body = match s.below(24) {
                0 => format!("{}\rx", body),
                1 if crlf => format!("{}\r", body),
                _ => body,
            };
            let tab = s.chance(1, 12);
            let mut text = format!("{}{}{}", " ".repeat(lead), if tab { "\t" } else { "" }, body);
            // with blanks before it, it is the end marker; with blanks behind it, it is not
            if text.trim_start_matches(|c| c == ' ' || c == '\t') == id {
                text.push('!');
            }
            let spaces = text.bytes().take_while(|b| *b == b' ').count();
            let strip = if indented { spaces.min(indent) } else { 0 };
            let meaning = text[strip..].to_string();
            lines.push((text, meaning));
        }
        let mut all = Vec::new();
        for _ in 0..rep {
            all.extend(lines.iter().cloned());
        }
        for (t, _) in &all {
            self.t.push_str(t);
            self.t.push_str(eol);
        }
        let end = self.t.len() - eol.len();
        self.t.push_str(&" ".repeat(indent));
        if tab_end {
            self.t.push('\t');
        }
        self.t.push_str(&id);
        self.mark(K::End, end);
        self.must_eol = true;
        all.iter().map(|x| x.1.as_str()).collect::<Vec<_>>().join(eol)
    }
}

fn hex(k: char, c: char, w: usize, s: &Src) -> String {
    if s.chance(1, 2) {
        format!("\\{}{:0w$x}", k, c as u32, w = w)
    } else {
        format!("\\{}{:0w$X}", k, c as u32, w = w)
    }
}

/// Text, escaped for a trace line
pub fn show(t: &str) -> String {
    if t.len() > 1500 {
        let mut a = 700;
        while !t.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = t.len() - 300;
        while !t.is_char_boundary(b) {
            b += 1;
        }
        format!("{:?} ...{} bytes... {:?}", &t[..a], b - a, &t[b..])
    } else {
        format!("{:?}", t)
    }
}

pub fn show_bytes(t: &[u8]) -> String {
    match std::str::from_utf8(t) {
        Ok(s) => show(s),
        Err(_) => {
            let mut o = String::from("b\"");
            for b in t.iter().take(1500) {
                o.extend(std::ascii::escape_default(*b).map(|c| c as char));
            }
            o.push('"');
            o
        }
    }
}

/// Text that makes a document long without saying much
pub struct Filler {
    pub text: String,
    /// The entries it holds, and the strings they are set to
    pub entries: Vec<(String, String)>,
}

/// `most`: about how many bytes at most
pub fn filler(s: &Src, most: usize) -> Filler {
    let sizes: Vec<usize> =
        [4_097usize, 8_190, 20_000, 66_000, 131_000, 270_000, 1_050_000, 2_200_000].iter().copied().filter(|n| *n <= most).collect();
    let n = (*s.pick(&sizes) + s.usize(64)).min(most);
    let c = *s.pick(&["x", "\u{e9}", "\u{20ac}", "\u{1f600}"]);
    let mut text = String::from("\n");
    let mut entries = Vec::new();
    match s.below(4) {
        0 => {
            text.push_str("# ");
            text.push_str(&c.repeat(n / c.len()));
            text.push('\n');
        }
        1 => {
            text.push_str("/* ");
            text.push_str(&c.repeat(n / c.len()));
            text.push_str(" */\n");
        }
        2 => {
            let v = c.repeat(n / c.len());
            text.push_str(&format!("zz_long = \"{}\"\n", v));
            entries.push(("zz_long".to_string(), v));
        }
        _ => {
            for i in 0..(n / 24).min(3000) {
                text.push_str(&format!("zz_{} = \"{}\"\n", i, c));
                entries.push((format!("zz_{}", i), c.to_string()));
            }
        }
    }
    text.push_str("zz_tail = \"the end\"\n");
    entries.push(("zz_tail".to_string(), "the end".to_string()));
    Filler { text, entries }
}
