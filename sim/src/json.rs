//! Just enough JSON
pub fn str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| str(s)).collect::<Vec<_>>().join(",\n  "))
}

/// The value of a string member written by `str`, unescaped only as far as ids need
pub fn get_str(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\": \"", key);
    let at = text.find(&k)? + k.len();
    let end = text[at..].find('"')?;
    Some(text[at..at + end].to_string())
}

pub fn get_nums(text: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{}\": [", key);
    let at = text.find(&k)? + k.len();
    let end = text[at..].find(']')?;
    text[at..at + end]
        .split(',')
        .map(|x| x.trim())
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().ok())
        .collect()
}

pub fn get_num(text: &str, key: &str) -> Option<u64> {
    let k = format!("\"{}\": ", key);
    let at = text.find(&k)? + k.len();
    let digits: String = text[at..].chars().take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}
