//! Deterministic random numbers, a JSON reader that keeps order and duplicates, and the failure report.
use std::cell::RefCell;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for b in prop.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h ^ case.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
        if self.chance(1, 2) { Some(f(self)) } else { None }
    }
    /// sizes are mostly small, sometimes a number the source mentions (±1), sometimes large
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(10) {
            0..=6 => self.below(4.min(max + 1)),
            7 => self.below(max + 1),
            _ => DICT.with(|d| {
                let d = d.borrow();
                if d.ints.is_empty() { return 1; }
                let n = d.ints[(self.next() % d.ints.len() as u64) as usize];
                let n = (n + self.below(3)).saturating_sub(1);
                n.min(max)
            }),
        }
    }
    pub fn string(&mut self) -> String {
        const ALPHA: &[&str] = &["a", "b", "A", "Z", "z9", "_", "-", "/", "{", "}", "{}", "$ref", "~", " ", "é", "ß", "Ж", "#", "\"", "\\", "\n", ".", ":", "null", "0", "x", "type"];
        match self.below(12) {
            0 => String::new(),
            1..=4 => DICT.with(|d| {
                let d = d.borrow();
                if d.strs.is_empty() { return "d".to_owned(); }
                let mut s = d.strs[(self.next() % d.strs.len() as u64) as usize].clone();
                match self.below(6) {
                    0 => s.push_str(self.pick(ALPHA)),
                    1 => s.insert_str(0, self.pick(ALPHA)),
                    2 => s = s.to_uppercase(),
                    _ => {}
                }
                s
            }),
            _ => {
                let n = 1 + self.size(12);
                (0..n).map(|_| *self.pick(ALPHA)).collect()
            }
        }
    }
    pub fn name(&mut self) -> String {
        const N: &[&str] = &["A", "B", "Cc", "a", "b", "id", "Item", "x y", "", "Ünï", "schemas", "#/components/schemas/A"];
        if self.chance(2, 3) { self.pick(N).to_string() } else { self.string() }
    }
}

#[derive(Default)]
pub struct Dict {
    pub strs: Vec<String>,
    pub ints: Vec<usize>,
}
thread_local!(pub static DICT: RefCell<Dict> = RefCell::new(Dict::default()));
pub fn load_dict(path: &str) {
    if let Ok(t) = std::fs::read_to_string(path) {
        let mut d = Dict::default();
        for l in t.lines() {
            if let Some(s) = l.strip_prefix("s ") {
                if let Ok(J::Str(s)) = parse(s) { d.strs.push(s); }
            } else if let Some(s) = l.strip_prefix("i ") {
                if let Ok(n) = s.parse() { d.ints.push(n); }
            }
        }
        DICT.with(|x| *x.borrow_mut() = d);
    }
}

/// JSON text as written: order and duplicates kept
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
pub fn s(x: &str) -> J { J::Str(x.to_owned()) }

pub fn parse(t: &str) -> Result<J, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let v = val(&c, &mut i)?;
    ws(&c, &mut i);
    if i != c.len() { return Err(format!("trailing text at {}", i)); }
    Ok(v)
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1; } }
fn val(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    let e = || "unexpected end".to_owned();
    match *c.get(*i).ok_or_else(e)? {
        '{' => {
            *i += 1; let mut v = vec![];
            loop {
                ws(c, i);
                if *c.get(*i).ok_or_else(e)? == '}' { *i += 1; return Ok(J::Obj(v)); }
                if !v.is_empty() { if c[*i] != ',' { return Err("expected ,".into()); } *i += 1; ws(c, i); }
                let k = match val(c, i)? { J::Str(s) => s, _ => return Err("key".into()) };
                ws(c, i);
                if *c.get(*i).ok_or_else(e)? != ':' { return Err("expected :".into()); }
                *i += 1;
                v.push((k, val(c, i)?));
            }
        }
        '[' => {
            *i += 1; let mut v = vec![];
            loop {
                ws(c, i);
                if *c.get(*i).ok_or_else(e)? == ']' { *i += 1; return Ok(J::Arr(v)); }
                if !v.is_empty() { if c[*i] != ',' { return Err("expected ,".into()); } *i += 1; }
                v.push(val(c, i)?);
            }
        }
        '"' => {
            *i += 1; let mut o = String::new();
            loop {
                let x = *c.get(*i).ok_or_else(e)?; *i += 1;
                match x {
                    '"' => return Ok(J::Str(o)),
                    '\\' => { let y = *c.get(*i).ok_or_else(e)?; *i += 1;
                        match y { 'n' => o.push('\n'), 't' => o.push('\t'), 'r' => o.push('\r'), 'b' => o.push('\u{8}'), 'f' => o.push('\u{c}'),
                            'u' => {
                                let h: String = c[*i..*i + 4].iter().collect(); *i += 4;
                                let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                let n = if (0xd800..0xdc00).contains(&n) {
                                    let h2: String = c[*i + 2..*i + 6].iter().collect(); *i += 6;
                                    0x10000 + ((n - 0xd800) << 10) + (u32::from_str_radix(&h2, 16).map_err(|e| e.to_string())? - 0xdc00)
                                } else { n };
                                o.push(char::from_u32(n).unwrap_or('?'));
                            }
                            z => o.push(z) } }
                    z => o.push(z),
                }
            }
        }
        _ => {
            let a = *i;
            while *i < c.len() && !matches!(c[*i], ',' | '}' | ']') && !c[*i].is_whitespace() { *i += 1; }
            let w: String = c[a..*i].iter().collect();
            Ok(match w.as_str() { "null" => J::Null, "true" => J::Bool(true), "false" => J::Bool(false), _ => J::Num(w) })
        }
    }
}
/// members as a set (JSON objects are unordered), duplicates are a difference
pub fn diff(got: &J, want: &J, at: &str) -> Option<String> {
    match (got, want) {
        (J::Obj(a), J::Obj(b)) => {
            for (i, (k, _)) in a.iter().enumerate() {
                if a[..i].iter().any(|(k2, _)| k2 == k) { return Some(format!("{}: member {:?} written twice", at, k)); }
                if !b.iter().any(|(k2, _)| k2 == k) { return Some(format!("{}: unexpected member {:?}", at, k)); }
            }
            for (k, v) in b {
                match a.iter().find(|(k2, _)| k2 == k) {
                    None => return Some(format!("{}: member {:?} is missing", at, k)),
                    Some((_, g)) => if let Some(d) = diff(g, v, &format!("{}/{}", at, k)) { return Some(d); },
                }
            }
            None
        }
        (J::Arr(a), J::Arr(b)) => {
            if a.len() != b.len() { return Some(format!("{}: {} elements, expected {}", at, a.len(), b.len())); }
            a.iter().zip(b).enumerate().find_map(|(i, (x, y))| diff(x, y, &format!("{}[{}]", at, i)))
        }
        _ if got == want => None,
        _ => Some(format!("{}: {:?}, expected {:?}", at, got, want)),
    }
}

pub struct Stats { pub cases: u64, pub distinct: std::collections::HashSet<u64>, pub samples: Vec<String> }
impl Stats {
    pub fn new() -> Self { Stats { cases: 0, distinct: Default::default(), samples: vec![] } }
    pub fn case(&mut self, text: &str, nontrivial: bool) {
        self.cases += 1;
        if nontrivial {
            let mut h = 0xcbf29ce484222325u64;
            for b in text.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
            self.distinct.insert(h);
            if self.samples.len() < 3 && text.len() < 600 { self.samples.push(text.to_owned()); }
        }
    }
}
