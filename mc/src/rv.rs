//! Reference model: JSON values, an RFC 8259 parser, the path language and the
//! document operations, written independently of the code under test and kept
//! deliberately boring.
use json::Json;
use std::collections::BTreeMap;

/// A reference JSON value. An object maps each key to all its values, oldest first
/// (the last one is the current one); the list is never empty.
#[derive(Clone, Debug)]
pub enum Rv {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Rv>),
    Obj(BTreeMap<String, Vec<Rv>>),
}
use Rv::*;

impl Rv {
    pub fn kind(&self) -> &'static str {
        match self {
            Null => "null",
            Bool(_) => "boolean",
            Num(_) => "number",
            Str(_) => "string",
            Arr(_) => "array",
            Obj(_) => "object",
        }
    }
    pub fn s(x: &str) -> Rv {
        Str(x.to_string())
    }
    pub fn obj(m: &[(&str, Rv)]) -> Rv {
        let mut b: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
        for (k, v) in m {
            b.entry(k.to_string()).or_default().push(v.clone());
        }
        Obj(b)
    }
    /// Canonical text; injective on models, used for state identity and messages.
    pub fn canon(&self) -> String {
        let mut o = String::new();
        self.canon_into(&mut o);
        o
    }
    pub fn canon_into(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Num(n) => o.push_str(&format!("{:?}", n)),
            Str(s) => canon_str(s, o),
            Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.canon_into(o);
                }
                o.push(']');
            }
            Obj(m) => {
                o.push('{');
                let mut first = true;
                for (k, vs) in m {
                    for v in vs {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        canon_str(k, o);
                        o.push(':');
                        v.canon_into(o);
                    }
                }
                o.push('}');
            }
        }
    }
    pub fn size(&self) -> usize {
        match self {
            Arr(v) => 1 + v.iter().map(|x| x.size()).sum::<usize>(),
            Obj(m) => 1 + m.values().flatten().map(|x| x.size()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Arr(v) => 1 + v.iter().map(|x| x.depth()).max().unwrap_or(0),
            Obj(m) => 1 + m.values().flatten().map(|x| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    /// Build the real value through the documented representation.
    pub fn build(&self) -> Json {
        match self {
            Null => Json::Null,
            Bool(b) => Json::Boolean(*b),
            Num(n) => Json::Number(*n),
            Str(s) => Json::String(s.clone()),
            Arr(v) => Json::Array(v.iter().map(|x| x.build()).collect()),
            Obj(m) => {
                let mut h = std::collections::HashMap::new();
                for (k, vs) in m {
                    let (cur, prev) = vs.split_last().expect("non-empty");
                    let mut l = std::collections::LinkedList::new();
                    for p in prev {
                        if newest_first() {
                            l.push_front(p.build());
                        } else {
                            l.push_back(p.build());
                        }
                    }
                    h.insert(k.clone(), (cur.build(), l));
                }
                Json::Object(h)
            }
        }
    }
    /// Plain rendering as JSON text (not the crate's format), duplicates in order.
    pub fn text(&self) -> String {
        let mut o = String::new();
        self.text_into(&mut o);
        o
    }
    fn text_into(&self, o: &mut String) {
        match self {
            Num(n) => o.push_str(&format!("{}", n)),
            Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.text_into(o);
                }
                o.push(']');
            }
            Obj(m) => {
                o.push('{');
                let mut first = true;
                for (k, vs) in m {
                    for v in vs {
                        if !first {
                            o.push(',');
                        }
                        first = false;
                        text_str(k, o);
                        o.push(':');
                        v.text_into(o);
                    }
                }
                o.push('}');
            }
            Str(s) => text_str(s, o),
            x => x.canon_into(o),
        }
    }
}

pub fn text_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn canon_str(s: &str, o: &mut String) {
    text_str(s, o)
}

/// Numbers compare by bits: -0 and 0 are different values, NaN equals itself.
pub fn same_num(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits()
}

impl PartialEq for Rv {
    fn eq(&self, o: &Rv) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Num(a), Num(b)) => same_num(*a, *b),
            (Str(a), Str(b)) => a == b,
            (Arr(a), Arr(b)) => a == b,
            (Obj(a), Obj(b)) => a == b,
            _ => false,
        }
    }
}

/// How the list of previous values of a key is laid out is the library's own business.
/// It keeps the newest first; if all three readers (index_and_merge, encoding, decoding
/// into pairs) agree that a hand-made object is laid out the other way round, the layout has
/// been changed consistently and is followed.
pub fn newest_first() -> bool {
    static N: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *N.get_or_init(|| {
        let probe = || {
            let mut l = std::collections::LinkedList::new();
            l.push_back(Json::Number(1.0));
            l.push_back(Json::Number(2.0));
            let mut h = std::collections::HashMap::new();
            h.insert("k".to_string(), (Json::Number(3.0), l));
            let j = Json::Object(h);
            let a = j.index_and_merge("k").map(|v| format!("{:?}", v)).unwrap_or_default();
            let b: String = j.to_string().chars().filter(|c| c.is_ascii_digit()).collect();
            let c = j.convert::<Vec<(String, u8)>>().map(|v| v.iter().map(|x| x.1.to_string()).collect::<String>()).unwrap_or_default();
            let a: String = a.chars().filter(|c| "123".contains(*c)).collect();
            a == "123" && b == "123" && c == "123"
        };
        !crate::engine::guarded(probe).unwrap_or(false)
    })
}

/// Structural comparison of a real value with the model.
pub fn same(j: &Json, r: &Rv) -> bool {
    match (j, r) {
        (Json::Null, Null) => true,
        (Json::Boolean(a), Bool(b)) => a == b,
        (Json::Number(a), Num(b)) => same_num(*a, *b),
        (Json::String(a), Str(b)) => a == b,
        (Json::Array(a), Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (Json::Object(a), Obj(b)) => {
            a.len() == b.len()
                && b.iter().all(|(k, vs)| match a.get(k) {
                    None => false,
                    Some((cur, list)) => {
                        list.len() + 1 == vs.len() && same(cur, &vs[list.len()]) && {
                            if newest_first() {
                                list.iter().rev().zip(vs).all(|(x, y)| same(x, y))
                            } else {
                                list.iter().zip(vs).all(|(x, y)| same(x, y))
                            }
                        }
                    }
                })
        }
        _ => false,
    }
}

/// Read a real value back into the model.
pub fn read(j: &Json) -> Rv {
    match j {
        Json::Null => Null,
        Json::Boolean(b) => Bool(*b),
        Json::Number(n) => Num(*n),
        Json::String(s) => Str(s.clone()),
        Json::Array(v) => Arr(v.iter().map(read).collect()),
        Json::Object(m) => Obj(m
            .iter()
            .map(|(k, (cur, list))| {
                let mut v: Vec<Rv> = list.iter().map(read).collect();
                if newest_first() {
                    v.reverse();
                }
                v.push(read(cur));
                (k.clone(), v)
            })
            .collect()),
    }
}

// ---------------------------------------------------------------- RFC 8259

struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}

/// The value a text denotes, or None if it is not a JSON text (or holds a number
/// beyond the double range, or an unpaired surrogate escape).
pub fn parse(s: &str) -> Option<Rv> {
    let mut p = P { b: s.as_bytes(), s, i: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i == p.b.len() {
        Some(v)
    } else {
        None
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).copied()
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.peek() == Some(c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(0x20) | Some(0x09) | Some(0x0A) | Some(0x0D)) {
            self.i += 1;
        }
    }
    fn lit(&mut self, l: &str) -> Option<()> {
        if self.s[self.i..].starts_with(l) {
            self.i += l.len();
            Some(())
        } else {
            None
        }
    }
    fn value(&mut self) -> Option<Rv> {
        match self.peek()? {
            b'n' => self.lit("null").map(|_| Null),
            b't' => self.lit("true").map(|_| Bool(true)),
            b'f' => self.lit("false").map(|_| Bool(false)),
            b'"' => self.string().map(Str),
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Some(Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Some(Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut m: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
                self.ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Some(Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let v = self.value()?;
                    m.entry(k).or_default().push(v);
                    self.ws();
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(Obj(m));
                        }
                        _ => return None,
                    }
                }
            }
            b'-' | b'0'..=b'9' => self.number(),
            _ => None,
        }
    }
    fn digits(&mut self) -> Option<()> {
        let st = self.i;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.i += 1;
        }
        if self.i > st {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<Rv> {
        let st = self.i;
        let _ = self.eat(b'-');
        if self.eat(b'0').is_none() {
            self.digits()?;
        }
        if self.eat(b'.').is_some() {
            self.digits()?;
        }
        if matches!(self.peek(), Some(b'e') | Some(b'E')) {
            self.i += 1;
            if matches!(self.peek(), Some(b'+') | Some(b'-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        let f: f64 = self.s[st..self.i].parse().ok()?;
        if f.is_finite() {
            Some(Num(f))
        } else {
            None
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut u = 0;
        for _ in 0..4 {
            let d = (self.peek()? as char).to_digit(16)?;
            self.i += 1;
            u = u * 16 + d;
        }
        Some(u)
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut o = String::new();
        loop {
            let c = self.s[self.i..].chars().next()?;
            self.i += c.len_utf8();
            match c {
                '"' => return Some(o),
                c if (c as u32) < 0x20 => return None,
                '\\' => {
                    let e = self.peek()?;
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'),
                        b'\\' => o.push('\\'),
                        b'/' => o.push('/'),
                        b'b' => o.push('\u{8}'),
                        b'f' => o.push('\u{c}'),
                        b'n' => o.push('\n'),
                        b'r' => o.push('\r'),
                        b't' => o.push('\t'),
                        b'u' => {
                            let u = self.hex4()?;
                            let cp = if (0xD800..0xDC00).contains(&u) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return None;
                                }
                                0x10000 + (u - 0xD800) * 0x400 + (l - 0xDC00)
                            } else {
                                u
                            };
                            o.push(char::from_u32(cp)?);
                        }
                        _ => return None,
                    }
                }
                c => o.push(c),
            }
        }
    }
}

// ---------------------------------------------------------------- paths

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Key(String),
    Idx(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum PathRef {
    Segs(Vec<Seg>),
    Syntax,
    /// `#` followed by an explicit plus sign: not covered by the documented syntax
    Unspecified,
}

pub fn parse_path(s: &str) -> PathRef {
    if s.is_empty() {
        return PathRef::Syntax;
    }
    // split at dots that no backslash precedes
    let mut segs: Vec<String> = vec![String::new()];
    let mut prev = '\0';
    for c in s.chars() {
        if c == '.' {
            if prev == '\\' {
                let l = segs.last_mut().unwrap();
                l.pop();
                l.push('.');
            } else {
                segs.push(String::new());
            }
        } else {
            segs.last_mut().unwrap().push(c);
        }
        prev = c;
    }
    let mut out = Vec::new();
    let mut unspec = false;
    for g in segs {
        if let Some(r) = g.strip_prefix('#') {
            if r.starts_with('+') {
                unspec = true;
                continue;
            }
            if r.is_empty() || !r.bytes().all(|b| b.is_ascii_digit()) {
                return if unspec { PathRef::Unspecified } else { PathRef::Syntax };
            }
            let mut n: u128 = 0;
            for b in r.bytes() {
                n = (n * 10 + (b - b'0') as u128).min(1 << 100);
            }
            if n > usize::MAX as u128 {
                return if unspec { PathRef::Unspecified } else { PathRef::Syntax };
            }
            out.push(Seg::Idx(n as usize));
        } else if let Some(r) = g.strip_prefix('\\') {
            out.push(Seg::Key(r.to_string()));
        } else {
            out.push(Seg::Key(g));
        }
    }
    if unspec {
        PathRef::Unspecified
    } else {
        PathRef::Segs(out)
    }
}

/// The documented way to write a key as a path segment.
pub fn enc_key(k: &str) -> String {
    let e = k.replace('.', "\\.");
    if k.starts_with('#') || k.starts_with('\\') {
        format!("\\{}", e)
    } else {
        e
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    MissingKey,
    IndexOutOfRange,
    InvalidValueKind,
    PathSyntax,
    Convert,
}

impl E {
    pub fn of(k: &json::ErrorKind) -> Option<E> {
        use json::ErrorKind as K;
        match k {
            K::MissingKey => Some(E::MissingKey),
            K::IndexOutOfRange => Some(E::IndexOutOfRange),
            K::InvalidValueKind => Some(E::InvalidValueKind),
            K::PathSyntaxError => Some(E::PathSyntax),
            K::ConvertError => Some(E::Convert),
            _ => None,
        }
    }
}

pub fn find<'a>(v: &'a Rv, path: &[Seg]) -> Result<&'a Rv, E> {
    let mut cur = v;
    for s in path {
        cur = match (s, cur) {
            (Seg::Key(k), Obj(m)) => m.get(k).ok_or(E::MissingKey)?.last().unwrap(),
            (Seg::Idx(i), Arr(a)) => a.get(*i).ok_or(E::IndexOutOfRange)?,
            _ => return Err(E::InvalidValueKind),
        };
    }
    Ok(cur)
}

pub fn find_mut<'a>(v: &'a mut Rv, path: &[Seg]) -> Result<&'a mut Rv, E> {
    let mut cur = v;
    for s in path {
        cur = match (s, cur) {
            (Seg::Key(k), Obj(m)) => m.get_mut(k).ok_or(E::MissingKey)?.last_mut().unwrap(),
            (Seg::Idx(i), Arr(a)) => a.get_mut(*i).ok_or(E::IndexOutOfRange)?,
            _ => return Err(E::InvalidValueKind),
        };
    }
    Ok(cur)
}

pub fn del(v: &mut Rv, path: &[Seg]) -> Result<Rv, E> {
    let (last, init) = path.split_last().expect("non-empty path");
    match (last, find_mut(v, init)?) {
        (Seg::Key(k), Obj(m)) => m.remove(k).map(|mut x| x.pop().unwrap()).ok_or(E::MissingKey),
        (Seg::Idx(i), Arr(a)) => {
            if *i < a.len() {
                Ok(a.remove(*i))
            } else {
                Err(E::IndexOutOfRange)
            }
        }
        _ => Err(E::InvalidValueKind),
    }
}

/// set never fails: missing containers are created, wrong kinds are replaced, arrays padded.
pub fn set(v: &mut Rv, path: &[Seg], x: Rv) {
    match path.split_first() {
        None => *v = x,
        Some((Seg::Key(k), rest)) => {
            if !matches!(v, Obj(_)) {
                *v = Obj(BTreeMap::new());
            }
            if let Obj(m) = v {
                if rest.is_empty() {
                    // the key ends up with this single value
                    m.insert(k.clone(), vec![x]);
                } else {
                    let e = m.entry(k.clone()).or_insert_with(|| vec![Null]);
                    set(e.last_mut().unwrap(), rest, x);
                }
            }
        }
        Some((Seg::Idx(i), rest)) => {
            if !matches!(v, Arr(_)) {
                *v = Arr(vec![]);
            }
            if let Arr(a) = v {
                while a.len() <= *i {
                    a.push(Null);
                }
                set(&mut a[*i], rest, x);
            }
        }
    }
}
