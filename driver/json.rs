pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn arr<I: IntoIterator<Item = String>>(xs: I) -> String {
    let v: Vec<String> = xs.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// Build an object from (key, already encoded value) pairs.
pub fn obj(xs: Vec<(&str, String)>) -> String {
    let v: Vec<String> = xs.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    format!("{{{}}}", v.join(","))
}

pub fn opt(x: Option<String>) -> String {
    x.unwrap_or("null".to_string())
}

pub fn boolean(b: bool) -> String {
    (if b { "true" } else { "false" }).to_string()
}
