//! C08 (value grammar) and C21 (string escapes).
use crate::util::*;
use figment::value::{Empty, Num, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum G { S(String), C(char), B(bool), U(u64), I(i64), F(u64), Unit, A(Vec<G>), D(BTreeMap<String, G>) }

impl G {
    pub fn same(&self, v: &Value) -> bool {
        match (self, v) {
            (G::S(a), Value::String(_, b)) => a == b,
            (G::C(a), Value::Char(_, b)) => a == b,
            (G::B(a), Value::Bool(_, b)) => a == b,
            (G::U(a), Value::Num(_, n)) => unsigned(n) == Some(*a as u128),
            (G::I(a), Value::Num(_, n)) => signed(n) == Some(*a as i128),
            (G::F(a), Value::Num(_, Num::F64(b))) => *a == b.to_bits(),
            (G::Unit, Value::Empty(_, Empty::Unit)) => true,
            (G::A(a), Value::Array(_, b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (G::D(a), Value::Dict(_, b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| x.same(y))),
            _ => false,
        }
    }
}
pub fn unsigned(n: &Num) -> Option<u128> {
    Some(match *n { Num::U8(n) => n as u128, Num::U16(n) => n as u128, Num::U32(n) => n as u128, Num::U64(n) => n as u128, Num::U128(n) => n, Num::USize(n) => n as u128, _ => return None })
}
pub fn signed(n: &Num) -> Option<i128> {
    Some(match *n { Num::I8(n) => n as i128, Num::I16(n) => n as i128, Num::I32(n) => n as i128, Num::I64(n) => n as i128, Num::I128(n) => n, Num::ISize(n) => n as i128, _ => return None })
}

/// the documented escapes; None: not a valid quoted string
pub fn decode(s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        let ch = c[i];
        i += 1;
        if ch != '\\' {
            if (ch < ' ' && ch != '\t') || ch == '\u{7f}' { return None; }
            out.push(ch);
            continue;
        }
        let e = *c.get(i)?;
        i += 1;
        out.push(match e {
            'b' => '\u{8}', 't' => '\t', 'n' => '\n', 'f' => '\u{c}', 'r' => '\r', '"' => '"', '\\' => '\\',
            'u' | 'U' => {
                let n = if e == 'u' { 4 } else { 8 };
                if i + n > c.len() { return None; }
                let mut v: u64 = 0;
                for k in 0..n { v = v * 16 + match c[i + k] { d @ '0'..='9' => d as u64 - '0' as u64, d @ 'a'..='f' => d as u64 - 'a' as u64 + 10, d @ 'A'..='F' => d as u64 - 'A' as u64 + 10, _ => return None }; }
                i += n;
                if v > 0x10ffff || (0xd800..0xe000).contains(&v) { return None; }
                char::from_u32(v as u32)?
            }
            _ => return None,
        });
    }
    Some(out)
}

struct P { c: Vec<char>, i: usize }
impl P {
    fn ws(&mut self) { while self.i < self.c.len() && self.c[self.i].is_whitespace() { self.i += 1; } }
    fn at(&self) -> Option<char> { self.c.get(self.i).cloned() }
    fn want(&mut self, ch: char) -> Option<()> { if self.at() == Some(ch) { self.i += 1; Some(()) } else { None } }
    fn quoted(&mut self) -> Option<String> {
        self.want('"')?;
        let start = self.i;
        loop { match self.at()? { '\\' => self.i += 2, '"' => break, _ => self.i += 1 } }
        let inner: String = self.c[start..self.i].iter().collect();
        self.i += 1;
        decode(&inner)
    }
    fn value(&mut self) -> Option<G> {
        self.ws();
        let v = match self.at() {
            None => G::Unit,
            Some('"') => G::S(self.quoted()?),
            Some('\'') => { self.i += 1; let c = self.at()?; self.i += 1; self.want('\'')?; G::C(c) }
            Some('[') => {
                self.i += 1;
                let mut out = vec![];
                self.ws();
                while self.at() != Some(']') { out.push(self.value()?); self.ws(); if self.want(',').is_none() { break; } self.ws(); }
                self.want(']')?;
                G::A(out)
            }
            Some('{') => {
                self.i += 1;
                let mut out = BTreeMap::new();
                self.ws();
                while self.at() != Some('}') {
                    let k = if self.at() == Some('"') { self.quoted()? } else {
                        let s = self.i;
                        while self.at().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { self.i += 1; }
                        self.c[s..self.i].iter().collect()
                    };
                    self.ws();
                    self.want('=')?;
                    self.ws();
                    let v = self.value()?;
                    out.insert(k, v);
                    self.ws();
                    if self.want(',').is_none() { break; }
                    self.ws();
                }
                self.want('}')?;
                G::D(out)
            }
            Some(_) => {
                let s = self.i;
                while self.at().map_or(false, |c| !matches!(c, ',' | '[' | ']' | '{' | '}')) { self.i += 1; }
                let t: String = self.c[s..self.i].iter().collect();
                scalar(t.trim())
            }
        };
        self.ws();
        Some(v)
    }
}
/// exact decimal: digits of s as an integer below 2^64
fn digits(s: &str) -> Option<u128> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in s.bytes() { v = v * 10 + (b - b'0') as u128; if v > u64::MAX as u128 { return None; } }
    Some(v)
}
fn scalar(t: &str) -> G {
    match t { "true" => return G::B(true), "false" => return G::B(false), _ => {} }
    if t.contains('.') { return match t.parse::<f64>() { Ok(f) => G::F(f.to_bits()), Err(_) => G::S(t.into()) }; }
    if let Some(n) = digits(t.strip_prefix('+').unwrap_or(t)) { return G::U(n as u64); }
    if let Some(n) = t.strip_prefix('-').and_then(digits) { if n <= 1u128 << 63 { return G::I((n as i128).wrapping_neg() as i64); } }
    G::S(t.into())
}
pub fn reference(text: &str) -> G {
    let t = text.trim();
    let mut p = P { c: t.chars().collect(), i: 0 };
    match p.value() { Some(v) if p.i == p.c.len() => v, _ => G::S(t.into()) }
}

fn check(c: &mut Ctx, text: &str, want: &G, nontrivial: bool) -> bool {
    c.case(format!("{:?}", text), nontrivial);
    let t = text.to_string();
    match guard(c, "parse", || t.parse::<Value>()) {
        Some(Ok(v)) => c.check("parsed value", want.same(&v), || format!("{:?}", want), || format!("{:?}", v)),
        Some(Err(_)) => false,
        None => false,
    }
}

fn ws(r: &mut Rng) -> &'static str { ["", "", "", " ", "  ", "\t", "\n ", "\u{a0}"][r.below(8)] }
fn quote(r: &mut Rng, s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\u{8}' => o.push_str("\\b"), '\u{c}' => o.push_str("\\f"),
            '\t' if r.chance(1, 2) => o.push_str("\\t"),
            ch if ch < ' ' || ch == '\u{7f}' => o.push_str(&format!("\\u{:04x}", ch as u32)),
            ch if r.chance(1, 6) => if (ch as u32) < 0x10000 && r.chance(1, 2) { o.push_str(&format!("\\u{:04X}", ch as u32)) } else { o.push_str(&format!("\\U{:08x}", ch as u32)) },
            ch => o.push(ch),
        }
    }
    o.push('"');
    o
}
const CH: [char; 22] = ['a', 'b', 'Z', '0', '9', ' ', '.', ',', '[', ']', '{', '}', '=', '"', '\'', '\\', '\t', '\n', 'é', '≡', '\u{1F600}', '\u{7}'];
fn gen_s(r: &mut Rng) -> String { if r.chance(1, 8) { return r.odd_text(); } let n = r.size(7, 40); (0..n).map(|_| gen_c(r)).collect() }
fn gen_c(r: &mut Rng) -> char { if r.chance(1, 8) { r.odd_char() } else { *r.pick(&CH) } }
/// the text of some value
pub fn gen_text(r: &mut Rng) -> String { gen_g(r, 2).1 }
/// a value and one way of writing it
fn gen_g(r: &mut Rng, depth: usize) -> (G, String) {
    let (g, t) = match r.below(if depth == 0 { 7 } else { 11 }) {
        0 => (G::B(true), "true".to_string()),
        1 => (G::B(false), "false".to_string()),
        2 => { let n = match r.below(4) { 0 => r.odd_int().map_or(r.below(10) as u64, |n| n as u64), 1 => u64::MAX, 2 => 1u64 << r.below(64), _ => r.next() }; (G::U(n), format!("{}{}{}", if r.chance(1, 8) { "+" } else { "" }, if r.chance(1, 8) { "00" } else { "" }, n)) }
        3 => { let n = match r.below(4) { 0 => r.odd_int().map_or(-(r.below(10) as i64), |n| -((n as u64 >> 1) as i64)), 1 => i64::MIN, 2 => -(1i64 << r.below(63)), _ => -((r.next() >> 1) as i64) }; (G::I(n), if n == 0 { "-0".into() } else { n.to_string() }) }
        4 => { let f = match r.below(3) { 0 => (r.next() as i32) as f64 / 64.0, 1 => f64::from_bits(r.next() & !(0x7ff << 52) | ((900 + r.below(300) as u64) << 52)), _ => 0.1 }; let s = format!("{:?}", f); let s = if s.contains('.') { s } else { s.replace('e', ".0e") }; (G::F(f.to_bits()), s) }
        5 => { let s = gen_s(r); let q = quote(r, &s); (G::S(s), q) }
        6 => { let ch = gen_c(r); (G::C(ch), format!("'{}'", ch)) }
        7 | 8 => {
            let n = r.below(4);
            let items: Vec<(G, String)> = (0..n).map(|_| gen_g(r, depth - 1)).collect();
            let mut t = format!("[{}", ws(r));
            for (i, (_, s)) in items.iter().enumerate() { if i > 0 { t.push_str(&format!("{},{}", ws(r), ws(r))); } t.push_str(s); }
            if n > 0 && r.chance(1, 6) { t.push_str(&format!("{},", ws(r))); }
            t.push_str(&format!("{}]", ws(r)));
            (G::A(items.into_iter().map(|i| i.0).collect()), t)
        }
        _ => {
            let n = r.below(4);
            let mut m = BTreeMap::new();
            let mut t = format!("{{{}", ws(r));
            for i in 0..n {
                let k = if r.chance(1, 8) { r.odd_text() } else if r.chance(1, 2) { ["a", "key", "k-1", "_x", "0"][r.below(5)].to_string() } else { gen_s(r) };
                let ident = !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-');
                let kt = if ident && r.chance(2, 3) { k.clone() } else { quote(r, &k) };
                let (g, s) = gen_g(r, depth - 1);
                if i > 0 { t.push_str(&format!("{},{}", ws(r), ws(r))); }
                t.push_str(&format!("{}{}={}{}", kt, ws(r), ws(r), s));
                m.insert(k, g);
            }
            t.push_str(&format!("{}}}", ws(r)));
            (G::D(m), t)
        }
    };
    (g, t)
}

fn all_strings(alpha: &[char], len: usize, f: &mut impl FnMut(&str) -> bool) -> bool {
    let n = alpha.len();
    for l in 0..=len {
        let mut idx = vec![0usize; l];
        loop {
            let s: String = idx.iter().map(|&i| alpha[i]).collect();
            if !f(&s) { return false; }
            let mut k = 0;
            while k < l { idx[k] += 1; if idx[k] < n { break; } idx[k] = 0; k += 1; }
            if k == l { break; }
        }
    }
    true
}

pub fn run8(c: &mut Ctx) {
    c.rule("values rendered in the documented grammar with random whitespace, escapes, nesting <= 3; every string of length <= 5 over 9 grammar characters, <= 4 over 14; random strings over 22 characters; deep nesting in a child process; compared with an independent parser; non-trivial: parses to something other than a string");
    let a9 = ['[', ']', '{', '}', ',', '=', '"', 'a', '1'];
    let a14 = ['[', ']', '{', '}', ',', '=', '"', '\'', '\\', ' ', '.', '-', '1', 't'];
    c.exh("all strings of length <= 5 over 9 characters and <= 4 over 14 characters");
    for (al, n) in [(&a9[..], 5), (&a14[..], 4)] {
        all_strings(al, n, &mut |s| { let w = reference(s); let nt = !matches!(w, G::S(_)); check(c, s, &w, nt); !c.full() });
        if c.full() { return; }
    }
    for _ in 0..c.scale(40000, 600000) {
        let mut r = Rng(c.rng.next());
        let (g, t) = gen_g(&mut r, 3);
        let t = format!("{}{}{}", ws(&mut r), t, ws(&mut r));
        check(c, &t, &g, true);
        if reference(&t) != g { c.violation("internal: the two references disagree", &t, &format!("{:?}", g), &format!("{:?}", reference(&t))); }
        if c.full() { return; }
        // damage it
        let mut ch: Vec<char> = t.chars().collect();
        if !ch.is_empty() {
            let i = r.below(ch.len());
            match r.below(4) { 0 => { ch.remove(i); } 1 => ch.insert(i, gen_c(&mut r)), 2 => { let s = r.odd_text(); for x in s.chars().rev() { ch.insert(i, x); } } _ => ch.truncate(i) }
            let t: String = ch.into_iter().collect();
            let w = reference(&t);
            check(c, &t, &w, !matches!(w, G::S(_)));
        }
        if c.full() { return; }
    }
    for t in ["18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "+", "-", "--1", "+-1", "1e5", "1.e5", ".5", "5.", ".", "-.5", "nan", "inf", "1_000", "0x10", "1.0.0", "+1.5", "99999999999999999999999999.0", "٣", "1٣", "TRUE", "True", "truefalse", "true false", "\u{feff}1", "\u{2003}7\u{2003}", "'", "''", "'''", "'ab'", "'\\n'", "'\"'", "\"\"\"", "\"a\" b", "[\"a\" b]", "{}", "[]", "[[]]", "{a}", "{=1}", "{\"\"=1}", "{a=1,a=2}", "{a = {b = [1,{c=d}]}}", "[,]", "[,,]", "[ ,1]", "{,}", "[1 2]", "[1;2]", "[1]]", "[1],", "{a=1}x"] {
        let w = reference(t);
        check(c, t, &w, true);
    }
    // deep nesting, in a child process: a crash there is a finding about the real code
    for depth in [1000usize, 100_000] {
        for (open, close, what) in [("[", "]", "arrays"), ("{a=", "}", "dictionaries"), ("[", "", "unclosed arrays")] {
            c.case(format!("deep-nesting-{} {} {}", if depth > 10_000 { "extreme" } else { "1000" }, depth, what), true);
            let exe = std::env::current_exe().unwrap();
            let o = std::process::Command::new(exe).args(["--parse-deep", open, close, &depth.to_string()]).output();
            let ok = o.as_ref().map_or(false, |o| o.status.success());
            c.check("parse of deeply nested text", ok, || "a value".into(), || format!("{:?}", o.as_ref().map(|o| o.status)));
        }
    }
}
/// child process of the deep nesting cases
pub fn deep(open: &str, close: &str, depth: usize) {
    let s = format!("{}1{}", open.repeat(depth), close.repeat(depth));
    let v: Value = s.parse().unwrap();
    let mut cur = &v;
    let mut n = 0;
    loop {
        match cur { Value::Array(_, a) if a.len() == 1 => cur = &a[0], Value::Dict(_, d) if d.len() == 1 => cur = d.get("a").unwrap(), _ => break }
        n += 1;
    }
    let ok = if close.is_empty() { v.as_str() == Some(&s) } else { n == depth };
    std::process::exit(if ok { 0 } else { 3 });
}

pub fn run21(c: &mut Ctx) {
    c.rule("quoted strings: every string of length <= 4 over 13 characters, every \\uXXXX, random \\UXXXXXXXX, every ASCII character escaped and raw, random mixes with multi-byte text, as values and as dictionary keys; compared with an independent decoder; non-trivial: contains an escape");
    let al = ['\\', 'n', 'u', 'U', '0', 'F', 'é', '\u{1F600}', '\u{1}', '\t', '\u{7f}', 'x', '\''];
    c.exh("all strings of length <= 4 over 13 characters; all 65536 \\uXXXX; all ASCII escapes; every char below U+0300 raw");
    let mut one = |c: &mut Ctx, inner: &str| -> bool {
        let text = format!("\"{}\"", inner);
        let want = reference(&text);
        check(c, &text, &want, inner.contains('\\'));
        // the reference itself, by definition
        let unescaped_quote = { let mut e = false; let mut q = false; for ch in inner.chars() { if e { e = false } else if ch == '\\' { e = true } else if ch == '"' { q = true } } q || e };
        if !unescaped_quote {
            let w = decode(inner).map_or(G::S(text.trim().into()), G::S);
            c.check("internal: reference", w == want, || format!("{:?}", w), || format!("{:?}", want));
            let key = format!("{{{}=1}}", text);
            let wk = match decode(inner) { Some(k) => G::D([(k, G::U(1))].into_iter().collect()), None => G::S(key.clone()) };
            check(c, &key, &wk, inner.contains('\\'));
            let arr = format!("[{}, {}]", text, text);
            let wa = match decode(inner) { Some(k) => G::A(vec![G::S(k.clone()), G::S(k)]), None => G::S(arr.clone()) };
            check(c, &arr, &wa, inner.contains('\\'));
        }
        !c.full()
    };
    if !all_strings(&al, 4, &mut |s| one(c, s)) { return; }
    for u in 0..0x10000u32 { if !one(c, &format!("\\u{:04x}", u)) { return; } }
    for u in (0..0x110000u32).step_by(97).chain(0x10fff0..0x110010).chain([0xffffffff, 0x7fffffff, 0xd800, 0xdfff, 0xe000]) { if !one(c, &format!("a\\U{:08X}b", u)) { return; } }
    for b in 0..128u8 { if !one(c, &format!("x\\{}y", b as char)) || !one(c, &format!("é\\{}", b as char)) { return; } }
    for u in 0..0x300u32 { if let Some(ch) = char::from_u32(u) { if !one(c, &format!("x{}y", ch)) || !one(c, &format!("\\t{}", ch)) { return; } } }
    for h in ["\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\u12é4", "\\U", "\\U0000004", "\\U00000041", "\\U0000004g", "\\u+123", "\\u 123", "\\u004 1", "\\ud83d\\ude00", "\\x41", "\\a", "\\0", "\\'", "\\/", "\\N", "\\B", "\\e"] { if !one(c, h) || !one(c, &format!("é{}é", h)) { return; } }
    // one character of a hexadecimal escape replaced, left out or put in
    for full in ["\\u0041", "\\U00000041", "\\u00e9", "\\U0001F600"] { for i in 2..=full.len() { for x in ["", "_", "+", "-", " ", "g", "G", "x", "é", "٣", "０", "\t", "\\", "'", ".", "{", "0", "f"] { for cut in [0, 1] {
        if i + cut > full.len() { continue; }
        let t = format!("{}{}{}", &full[..i], x, &full[i + cut..]);
        if !one(c, &t) || !one(c, &format!("é{}z", t)) { return; }
    } } } }
    for _ in 0..c.scale(20000, 400000) {
        let mut r = Rng(c.rng.next());
        let n = 1 + r.below(8);
        let mut s = String::new();
        for _ in 0..n {
            match r.below(10) {
                0 => s.push_str("\\n"), 1 => s.push_str("\\\\"), 2 => s.push_str("\\\""), 3 => s.push_str(&format!("\\u{:04x}", r.next() as u16)),
                4 => s.push_str(&format!("\\U{:08x}", r.next() as u32 % 0x120000)), 5 => s.push_str(["é", "≡", "\u{1F600}", "\u{10ffff}"][r.below(4)]),
                6 => s.push('\\'), 7 => s.push(gen_c(&mut r)), _ => s.push_str(["abc", "\\t", "\\b\\f\\r", "41", "u0041"][r.below(5)]),
            }
        }
        if !one(c, &s) { return; }
    }
}
