//! Parsing of `llvm-objdump -d` text.

#[derive(Clone, Debug)]
pub struct TI {
    pub addr: u64,
    pub size: u64,
    pub mn: String,
    pub ops: String,
    pub raw: Vec<u8>,
}

/// Returns instructions in address order. Lines that are not instructions are skipped.
pub fn parse_objdump(txt: &str) -> Vec<TI> {
    let mut v: Vec<TI> = vec![];
    for line in txt.lines() {
        let l = line.trim_start();
        let Some(colon) = l.find(':') else { continue };
        if colon == 0 || colon > 16 || !l[..colon].bytes().all(|c| c.is_ascii_hexdigit()) {
            continue;
        }
        let addr = u64::from_str_radix(&l[..colon], 16).unwrap();
        let rest = &l[colon + 1..];
        let Some(tab) = rest.find('\t') else { continue };
        let mut raw = vec![];
        let hexs: String = rest[..tab].chars().filter(|c| c.is_ascii_hexdigit()).collect();
        for i in 0..hexs.len() / 2 {
            raw.push(u8::from_str_radix(&hexs[2 * i..2 * i + 2], 16).unwrap());
        }
        if raw.is_empty() {
            continue;
        }
        let mut text = rest[tab + 1..].to_string();
        // strip "# ..." and "// ..." comments and trailing "<sym+off>" annotations
        for pat in [" # ", "\t# ", "// ", " @ ", "\t@ ", "\t; ", " ; "] {
            if let Some(p) = text.find(pat) {
                text.truncate(p);
            }
        }
        if let Some(p) = text.find('<') {
            if text.trim_end().ends_with('>') {
                text.truncate(p);
            }
        }
        let text = text.trim();
        let (mn, ops) = match text.find(|c: char| c == '\t' || c == ' ') {
            Some(p) => (text[..p].to_string(), text[p..].trim().replace('\t', " ")),
            None => (text.to_string(), String::new()),
        };
        v.push(TI { addr, size: raw.len() as u64, mn, ops, raw });
    }
    v
}

/// Split operands at top-level commas (not within [] () {}).
pub fn split_ops(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in s.chars() {
        match c {
            '[' | '(' | '{' => depth += 1,
            ']' | ')' | '}' => depth -= 1,
            _ => {}
        }
        if c == ',' && depth == 0 {
            out.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

pub fn num(s: &str) -> Option<i64> {
    let s = s.trim();
    let s = s.strip_prefix('#').unwrap_or(s);
    let s = s.strip_prefix('$').unwrap_or(s);
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let v = if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        u64::from_str_radix(h, 16).ok()? as i64
    } else {
        s.parse::<u64>().ok()? as i64
    };
    Some(if neg { v.wrapping_neg() } else { v })
}
