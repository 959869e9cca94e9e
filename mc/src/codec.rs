//! C04 encoded form, C05 round trip, C06 strings, C24 determinism, C25 numbers.
use crate::engine::*;
use crate::gen::*;
use crate::ops::{apply_real, Op};
use crate::paths::docs_level;
use crate::rv::{self, Rv, Seg};
use json::Json;
use std::collections::{BTreeMap, HashMap, HashSet, LinkedList};

// ---------------------------------------------------------------- the encoded form

struct F<'a> {
    s: &'a [u8],
    i: usize,
}

/// Read the encoded text strictly, led by the document it should denote.
pub fn format_ok(text: &str, m: &Rv) -> Result<(), String> {
    if let Some(c) = text.bytes().find(|c| !(0x20..=0x7e).contains(c)) {
        return Err(format!("byte {:#x} is not printable ASCII", c));
    }
    let mut f = F { s: text.as_bytes(), i: 0 };
    f.value(m)?;
    if f.i != f.s.len() {
        return Err(format!("text goes on after the document: {:?}", &text[f.i..]));
    }
    Ok(())
}

impl<'a> F<'a> {
    fn lit(&mut self, l: &str) -> Result<(), String> {
        if self.s[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(())
        } else {
            let e = (self.i + 20).min(self.s.len());
            Err(format!("expected {:?} at offset {}, found {:?}", l, self.i, String::from_utf8_lossy(&self.s[self.i..e])))
        }
    }
    fn string(&mut self, w: &str) -> Result<(), String> {
        let st = self.i;
        self.lit("\"")?;
        loop {
            match self.s.get(self.i) {
                None => return Err("unfinished string".into()),
                Some(b'"') => {
                    self.i += 1;
                    break;
                }
                Some(b'\\') => self.i += 2,
                Some(_) => self.i += 1,
            }
        }
        if self.i > self.s.len() {
            return Err("unfinished escape".into());
        }
        let raw = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        match rv::parse(raw) {
            Some(Rv::Str(g)) if g == w => Ok(()),
            _ => Err(format!("string {} does not denote {:?}", raw, w)),
        }
    }
    fn value(&mut self, m: &Rv) -> Result<(), String> {
        match m {
            Rv::Null => self.lit("null"),
            Rv::Bool(b) => self.lit(if *b { "true" } else { "false" }),
            Rv::Num(n) if !n.is_finite() => self.lit("null"),
            Rv::Num(n) => {
                let st = self.i;
                while self.i < self.s.len() && b"+-.eE0123456789".contains(&self.s[self.i]) {
                    self.i += 1;
                }
                let raw = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                match rv::parse(raw) {
                    Some(Rv::Num(g)) if rv::same_num(g, *n) => Ok(()),
                    _ => Err(format!("number {:?} does not denote {:?}", raw, n)),
                }
            }
            Rv::Str(s) => self.string(s),
            Rv::Arr(v) => {
                self.lit("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.lit(", ")?;
                    }
                    self.value(x)?;
                }
                self.lit("]")
            }
            Rv::Obj(o) => {
                self.lit("{")?;
                let mut first = true;
                // BTreeMap order is the ascending order of the keys
                for (k, vs) in o {
                    for v in vs {
                        if !first {
                            self.lit(", ")?;
                        }
                        first = false;
                        self.string(k)?;
                        self.lit(": ")?;
                        self.value(v)?;
                    }
                }
                self.lit("}")
            }
        }
    }
}

fn c04_doc(j: &Json, m: &Rv, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 2;
    t.validated += 1;
    let s = json::encode(j);
    if let Err(e) = format_ok(&s, m) {
        return fail(e, m.canon(), s);
    }
    let s2 = j.to_string();
    if s != s2 {
        return fail("encode and to_string differ", s, s2);
    }
    t.out(m.kind());
    Ok(())
}

fn c05_doc(j: &Json, m: &Rv, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 3;
    t.validated += 1;
    let s = j.to_string();
    match Json::parse(&s) {
        Err(e) => fail("the encoded text does not parse", s, e.to_string()),
        Ok(b) => {
            if !rv::same(&b, m) {
                return fail(format!("the text {} parses to another document", shorten(&s)), m.canon(), rv::read(&b).canon());
            }
            if b != *j {
                return fail("the parsed document is not == the original", s, format!("{:?}", b));
            }
            let s2 = b.to_string();
            if s2 != s {
                return fail("encoding again gives another text", s, s2);
            }
            t.out(m.kind());
            Ok(())
        }
    }
}

type DocCase = fn(&Json, &Rv, &mut Tally) -> Result<(), Fail>;

pub fn rich_leaves(finite: bool) -> Vec<Rv> {
    let mut v: Vec<Rv> = vec![
        Rv::Null,
        Rv::Bool(true),
        Rv::Bool(false),
        Rv::Num(0.0),
        Rv::Num(-0.0),
        Rv::Num(1e21),
        Rv::Num(-2.5e-7),
        Rv::s(""),
        Rv::s("a"),
        Rv::s("]}\",\\:{["),
        Rv::s("\u{e9}\u{1f600}\n/"),
    ];
    if !finite {
        v.push(Rv::Num(f64::NAN));
        v.push(Rv::Num(f64::NEG_INFINITY));
    }
    v
}

fn doc_families(run: &mut Run, case: DocCase, finite: bool) {
    let th = run.thorough;
    let leaves = rich_leaves(finite);
    let keys = ["", "a\"]", "\u{1f600}\u{ffff}"];
    let mut l1: Vec<Rv> = leaves.clone();
    l1.extend(arrays(&leaves, 3));
    l1.extend(objects(&keys[..2], &leaves, 2, 3));
    run.family(
        "documents-1",
        "all arrays of up to three and all objects of up to three members (two keys, repeats) over all leaf kinds",
        l1.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| l1[idx(p)[0]].canon(),
        |p, t| {
            let m = &l1[idx(p)[0]];
            case(&m.build(), m, t)
        },
    );
    let few = vec![Rv::Num(1.5), Rv::s("]\"")];
    let a1 = docs(&few, &["a", "B:"], 1, 2, 2, 3);
    let small: Vec<Rv> = a1.iter().filter(|d| d.size() <= if th { 4 } else { 3 }).cloned().collect();
    let mut l2 = vec![];
    l2.extend(arrays(&small, if th { 3 } else { 2 }));
    l2.extend(objects(&keys, &small, 2, 2));
    let tiny: Vec<Rv> = a1.iter().filter(|d| d.size() <= 2).cloned().collect();
    let l3s: Vec<Rv> = arrays(&tiny, 2).into_iter().chain(objects(&["k", "K"], &tiny, 2, 2)).filter(|d| d.size() <= 5).collect();
    l2.extend(arrays(&l3s, 2));
    l2.extend(objects(&["z", "\\"], &l3s, 2, 2));
    run.family(
        "documents-2",
        "documents of nesting 3 and 4: arrays and objects (three keys, repeats) over all documents of nesting 1 and 2 of bounded size",
        l2.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| l2[idx(p)[0]].canon(),
        |p, t| {
            let m = &l2[idx(p)[0]];
            case(&m.build(), m, t)
        },
    );
    // every character
    run.family(
        "characters",
        "every Unicode scalar value alone, first, last, doubled, and between quotes/backslashes, as a string, an element, a key and a member value",
        SCALARS,
        |i, o| {
            chr(o, scalar(i));
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let c = st(p);
            let v = [c.to_string(), format!("{}a", c), format!("a{}", c), format!("{}{}", c, c), format!("\"{}\\", c), format!("\\{}u0041", c)];
            let m = Rv::Arr(v.iter().map(|x| Rv::s(x)).collect());
            case(&m.build(), &m, t)?;
            let mut o: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
            for (i, x) in v.iter().enumerate() {
                o.insert(x.clone(), vec![Rv::s(x), Rv::Num(i as f64)]);
            }
            o.insert("a".into(), vec![Rv::Null]);
            let m = Rv::Obj(o);
            case(&m.build(), &m, t)?;
            case(&Json::String(c.to_string()), &Rv::s(c), t)
        },
    );
    // strings over the classes
    let cl: &[&str] = &["a", "\"", "\\", "/", "\u{8}", "\n", "\0", "\u{1f}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "u", "0", "]", ",", " "];
    let n = upto(cl.len() as u64, if th { 5 } else { 4 });
    run.family(
        "strings",
        "every string over 21 character classes up to length 4 (thorough 5), as a value and as a key",
        n,
        |i, o| {
            push_word(cl, i, o);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let m = Rv::obj(&[(st(p), Rv::s(st(p)))]);
            case(&m.build(), &m, t)
        },
    );
    let cc = class_chars();
    run.family(
        "character-triples",
        "every string of up to three of 62 characters (all controls, specials, edges of every encoding length), as a value and as a key",
        upto(cc.len() as u64, 3),
        |i, o| {
            class_word(&cc, i, o);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let m = Rv::obj(&[(st(p), Rv::s(st(p)))]);
            case(&m.build(), &m, t)
        },
    );
    let mx = mixed_chars();
    run.family(
        "character-pairs",
        "every ordered pair of about 570 characters that combine with, cancel or look like one another, as a value and as a key",
        product(&[mx.len(), mx.len()]),
        |i, o| {
            let d = digits(i, &[mx.len(), mx.len()]);
            chr(o, mx[d[0]]);
            chr(o, mx[d[1]]);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let m = Rv::obj(&[(st(p), Rv::s(st(p)))]);
            case(&m.build(), &m, t)
        },
    );
    // key order
    let mut ks: Vec<&str> = vec!["!", "AA", "B", "Z", "/", "9", "\u{7f}", "\u{80}", "\u{fffd}", "\u{10000}", "z"];
    ks.extend(crate::related::REL);
    let nk = ks.len();
    run.family(
        "key-order",
        "every triple of 59 related keys (prefixes, cases, trimming, digits, escapes, normal forms, long common prefixes, astral versus high BMP), repeated",
        (nk * nk * nk) as u64,
        |i, o| {
            put_idx(&digits(i, &[nk, nk, nk]), o);
            true
        },
        |p| format!("{:?}", idx(p).iter().map(|x| ks[*x]).collect::<Vec<_>>()),
        |p, t| {
            let d = idx(p);
            let m = Rv::obj(&[(ks[d[0]], Rv::Num(1.0)), (ks[d[1]], Rv::Num(2.0)), (ks[d[2]], Rv::Num(3.0)), (ks[d[0]], Rv::Num(4.0))]);
            case(&m.build(), &m, t)
        },
    );
    let vk = crate::related::kinds();
    let nv = vk.len();
    run.family(
        "value-kinds",
        "every pair of 22 values of every kind as members, as two values of one key and as elements",
        (nv * nv) as u64,
        |i, o| {
            put_idx(&digits(i, &[nv, nv]), o);
            true
        },
        |p| format!("{:?}", idx(p).iter().map(|x| vk[*x].canon()).collect::<Vec<_>>()),
        |p, t| {
            let d = idx(p);
            let (a, b) = (&vk[d[0]], &vk[d[1]]);
            for m in [Rv::Arr(vec![a.clone(), b.clone()]), Rv::obj(&[("k", a.clone()), ("k", b.clone())]), Rv::obj(&[("k", a.clone()), ("j", b.clone()), ("k", b.clone()), ("k", a.clone())]), Rv::obj(&[("o", Rv::Arr(vec![a.clone(), Rv::obj(&[("p", b.clone())])]))])] {
                case(&m.build(), &m, t)?;
            }
            Ok(())
        },
    );
    // numbers
    let ms = mantissas(if th { 52 } else { 12 });
    let nm = ms.len();
    run.family(
        "numbers",
        "every exponent and sign with structured mantissas, as a document, an element and a member",
        (2048 * 2 * nm) as u64,
        |i, o| {
            let d = digits(i, &[nm, 2048, 2]);
            let bits = (d[2] as u64) << 63 | (d[1] as u64) << 52 | ms[d[0]];
            let f = f64::from_bits(bits);
            if finite && !f.is_finite() {
                return false;
            }
            o.extend_from_slice(&bits.to_le_bytes());
            true
        },
        |p| format!("{:?}", f64::from_bits(u64::from_le_bytes(p.try_into().unwrap()))),
        |p, t| {
            let f = f64::from_bits(u64::from_le_bytes(p.try_into().unwrap()));
            case(&Json::Number(f), &Rv::Num(f), t)?;
            let m = Rv::obj(&[("n", Rv::Num(f)), ("n", Rv::Arr(vec![Rv::Num(f), Rv::Num(f)]))]);
            case(&m.build(), &m, t)
        },
    );
    crate::beside::odd_family(run, "", |_, o, t| {
        let m = o.doc();
        case(&m.build(), &m, t)
    });
    // sizes
    let ladder: Vec<usize> = (0..=130).chain([200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10000, 10001, 16384, 32768, 65535, 65536, 65537]).collect();
    type G = fn(usize) -> Rv;
    let shapes: &[(&str, G, usize)] = &[
        ("n elements", |n| Rv::Arr((0..n).map(|x| Rv::Num(x as f64)).collect()), 99999),
        ("n members", |n| Rv::Obj((0..n).map(|x| (format!("k{}", x), vec![Rv::Num(x as f64)])).collect()), 99999),
        ("n values", |n| Rv::Obj([("k".to_string(), (0..=n).map(|x| Rv::Num(x as f64)).collect())].into_iter().collect()), 99999),
        ("n levels of array", |n| (0..n).fold(Rv::Null, |d, _| Rv::Arr(vec![d])), 600),
        ("n levels of object", |n| (0..n).fold(Rv::s("x"), |d, _| Rv::obj(&[("k", d)])), 600),
        ("n mixed levels", |n| (0..n).fold(Rv::Bool(true), |d, i| if i % 2 == 0 { Rv::Arr(vec![Rv::Num(0.5), d]) } else { Rv::obj(&[("a", Rv::s("]")), ("b", d)]) }), 600),
        ("n empty arrays", |n| Rv::Arr(vec![Rv::Arr(vec![]); n]), 99999),
        ("n empty objects", |n| Rv::Arr(vec![Rv::Obj(BTreeMap::new()); n]), 99999),
        ("n plain characters", |n| Rv::s(&"x".repeat(n)), 99999),
        ("n quotes", |n| Rv::s(&"\"".repeat(n)), 99999),
        ("n backslashes", |n| Rv::s(&"\\".repeat(n)), 99999),
        ("n astral characters", |n| Rv::s(&"\u{1f600}".repeat(n)), 99999),
        ("n controls in key", |n| Rv::obj(&[(&"\u{1}\u{e9}".repeat(n), Rv::Null)]), 99999),
    ];
    run.family(
        "sizes",
        "thirteen parametric documents at every size 0..130 and a ladder to 65537 (nesting to 513)",
        (shapes.len() * ladder.len()) as u64,
        |i, o| {
            let d = digits(i, &[shapes.len(), ladder.len()]);
            if ladder[d[1]] > shapes[d[0]].2 {
                return false;
            }
            put_idx(&d, o);
            true
        },
        |p| {
            let d = idx(p);
            format!("{}: {}", shapes[d[0]].0, ladder[d[1]])
        },
        |p, t| {
            let d = idx(p);
            let m = (shapes[d[0]].1)(ladder[d[1]]);
            case(&m.build(), &m, t)
        },
    );
}

/// mantissas with structure: low, high, single bits, runs, powers of ten neighbourhoods
fn mantissas(bits: u32) -> Vec<u64> {
    let full = (1u64 << 52) - 1;
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 5, full, full - 1, full - 2, full / 3, full / 3 * 2, full / 5, 0x8000000000000, 0x7ffffffffffff, 0x8000000000001, 0x999999999999a & full, 0x243f6a8885a30, 0xb17217f7d1cf7 & full];
    for i in 0..52 {
        if i < bits as usize / 2 || i + bits as usize / 2 >= 52 {
            v.push(1 << i);
            v.push(full ^ (1 << i));
            v.push((1u64 << i) - 1);
            v.push(full & !((1u64 << i) - 1));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn c04(run: &mut Run) {
    doc_families(run, c04_doc, false);
    // every typed way to encode goes through the same text
    run.family(
        "typed-values",
        "encode of typed values: floats that JSON cannot express inside every container",
        3 * 8,
        |i, o| {
            o.push(i as u8);
            true
        },
        |p| format!("{:?}", p),
        |p, t| {
            let f = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][(p[0] % 3) as usize];
            t.calls += 1;
            t.validated += 1;
            let (g, w) = match p[0] / 3 {
                0 => (json::encode(&f), "null"),
                1 => (json::encode(&(f as f32)), "null"),
                2 => (json::encode(&vec![f, 1.0]), "[null, 1]"),
                3 => (json::encode(&Some(f)), "null"),
                4 => (json::encode(&vec![("a", f)]), "{\"a\": null}"),
                5 => (json::encode(&[("k".to_string(), f)].into_iter().collect::<HashMap<String, f64>>()), "{\"k\": null}"),
                6 => (json::encode(&json::array![f, "x"]), "[null, \"x\"]"),
                _ => (json::encode(&json::object! {"a" => f, "a" => &f}), "{\"a\": null, \"a\": null}"),
            };
            if g == w {
                Ok(())
            } else {
                fail("encode", w, g)
            }
        },
    );
}

pub fn c05(run: &mut Run) {
    doc_families(run, c05_doc, true);
}

// ---------------------------------------------------------------- C06

fn survive(s: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 6;
    t.validated += 1;
    let e = json::encode(s);
    match json::decode::<String>(&e) {
        Ok(b) if b == s => {}
        other => return fail(format!("string value {:?} encoded as {}", shorten(s), shorten(&e)), s, format!("{:?}", other)),
    }
    let m: HashMap<String, u8> = [(s.to_string(), 1)].into_iter().collect();
    let e = json::encode(&m);
    match json::decode::<HashMap<String, u8>>(&e) {
        Ok(b) if b == m => {}
        other => return fail(format!("key {:?} encoded as {}", shorten(s), shorten(&e)), s, format!("{:?}", other)),
    }
    let l = vec![(s.to_string(), vec![s.to_string(), "]".into()]), (s.to_string(), vec![])];
    let e = json::encode(&l);
    match json::decode::<Vec<(String, Vec<String>)>>(&e) {
        Ok(b) if b == l => {}
        other => return fail(format!("repeated key {:?} encoded as {}", shorten(s), shorten(&e)), s, format!("{:?}", other)),
    }
    Ok(())
}

fn u_forms(c: char) -> Vec<String> {
    let mut b = [0u16; 2];
    let us = c.encode_utf16(&mut b);
    let mut v: Vec<String> = vec![String::new()];
    for u in us.iter() {
        let d: Vec<char> = format!("{:04x}", u).chars().collect();
        let letters: Vec<usize> = d.iter().enumerate().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
        let mut n = vec![];
        for pre in &v {
            for mask in 0..(1u32 << letters.len()) {
                let mut e = d.clone();
                for (k, i) in letters.iter().enumerate() {
                    if mask >> k & 1 == 1 {
                        e[*i] = e[*i].to_ascii_uppercase();
                    }
                }
                n.push(format!("{}\\u{}", pre, e.iter().collect::<String>()));
            }
        }
        v = n;
    }
    v
}

pub fn c06(run: &mut Run) {
    let th = run.thorough;
    run.family(
        "characters",
        "every Unicode scalar value alone, doubled, before and after an ASCII letter, a quote, a backslash, an astral character and a control, encoded and decoded as value, key and repeated key",
        SCALARS,
        |i, o| {
            chr(o, scalar(i));
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let c = st(p);
            survive(c, t)?;
            survive(&format!("{}{}", c, c), t)?;
            survive(&format!("a{}b", c), t)?;
            survive(&format!("\"{}\"", c), t)?;
            survive(&format!("\\{}\\", c), t)?;
            survive(&format!("{}\u{1f600}{}\u{1}{}", c, c, c), t)
        },
    );
    run.family(
        "written-forms",
        "every Unicode scalar value written raw, as a short escape and as \\u escapes with every combination of digit cases, as value and as key, alone and between other characters",
        SCALARS,
        |i, o| {
            chr(o, scalar(i));
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let c = st(p).chars().next().unwrap();
            let mut forms = u_forms(c);
            if (c as u32) >= 0x20 && c != '"' && c != '\\' {
                forms.push(c.to_string());
            }
            if let Some(e) = [('"', "\\\""), ('\\', "\\\\"), ('/', "\\/"), ('\u{8}', "\\b"), ('\u{c}', "\\f"), ('\n', "\\n"), ('\r', "\\r"), ('\t', "\\t")].iter().find(|x| x.0 == c) {
                forms.push(e.1.to_string());
            }
            // the full product of cases of a pair is in the family below; here one of 16 for astral characters
            let step = if c as u32 > 0xffff && !th { (forms.len() / 6).max(1) } else { 1 };
            for f in forms.iter().step_by(step).chain(forms.last()) {
                t.calls += 3;
                t.validated += 1;
                match json::decode::<String>(&format!("\"{}\"", f)) {
                    Ok(s) if s.chars().eq([c]) => {}
                    other => return fail(format!("the text \"{}\"", f), c.to_string(), format!("{:?}", other)),
                }
                match json::decode::<Vec<String>>(&format!("[\"x{}{}0\", \"\"]", f, f)) {
                    Ok(s) if s.len() == 2 && s[0] == format!("x{}{}0", c, c) => {}
                    other => return fail(format!("the text \"x{}{}0\"", f, f), format!("x{}{}0", c, c), format!("{:?}", other)),
                }
                match Json::parse(&format!("{{\"{}\":1,\"a{}\":2}}", f, f)) {
                    Ok(j) if j.index_and_merge(&c.to_string()).map(|v| v.len()).unwrap_or(0) == 1 && j.index_and_merge(&format!("a{}", c)).is_ok() => {}
                    other => return fail(format!("the key \"{}\"", f), c.to_string(), format!("{:?}", other)),
                }
            }
            Ok(())
        },
    );
    let cl: &[&str] = &["a", "\"", "\\", "/", "\u{8}", "\n", "\0", "\u{1f}", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "u", "{"];
    run.family(
        "strings",
        "every string over 17 character classes up to length 5 (thorough 6)",
        upto(cl.len() as u64, if th { 6 } else { 5 }),
        |i, o| {
            push_word(cl, i, o);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| survive(st(p), t),
    );
    let cc = class_chars();
    run.family(
        "character-triples",
        "every string of up to three of 62 characters (all controls, specials, edges of every encoding length)",
        upto(cc.len() as u64, 3),
        |i, o| {
            class_word(&cc, i, o);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| survive(st(p), t),
    );
    let mx = mixed_chars();
    run.family(
        "character-pairs",
        "every ordered pair of about 570 characters that combine with, cancel or look like one another, between two letters too",
        product(&[mx.len(), mx.len()]),
        |i, o| {
            let d = digits(i, &[mx.len(), mx.len()]);
            chr(o, mx[d[0]]);
            chr(o, mx[d[1]]);
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            survive(st(p), t)?;
            survive(&format!("x{}y", st(p)), t)
        },
    );
    // mixed written forms: every sequence of up to 5 tokens, decoded
    let tk: [(&str, &str); 12] = [
        ("a", "a"), ("\\n", "\n"), ("\\/", "/"), ("\\\\", "\\"), ("\\\"", "\""), ("\\u0041", "A"), ("\\u00E9", "\u{e9}"), ("\\uD83D\\uDe00", "\u{1f600}"), ("\u{1f600}", "\u{1f600}"), ("\\u0000", "\0"), ("0", "0"), ("]", "]"),
    ];
    run.family(
        "token-strings",
        "every sequence of up to 5 (thorough 6) of twelve written forms, as value and as key",
        upto(12, if th { 6 } else { 5 }),
        |i, o| {
            let mut w = vec![];
            word(12, i, &mut w);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| p.iter().map(|x| tk[*x as usize].0).collect::<String>(),
        |p, t| {
            t.calls += 2;
            t.validated += 1;
            let a: String = p.iter().map(|x| tk[*x as usize].0).collect();
            let w: String = p.iter().map(|x| tk[*x as usize].1).collect();
            match json::decode::<String>(&format!("\"{}\"", a)) {
                Ok(s) if s == w => {}
                other => return fail(format!("the text \"{}\"", a), w, format!("{:?}", other)),
            }
            match json::decode::<HashMap<String, Vec<String>>>(&format!("{{\"{}\" : [\"{}\"]}}", a, a)) {
                Ok(m) if m.len() == 1 && m.get(&w) == Some(&vec![w.clone()]) => Ok(()),
                other => fail(format!("the key \"{}\"", a), w, format!("{:?}", other)),
            }
        },
    );
    // lengths
    let ladder: Vec<usize> = (0..=600).chain([1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    let units = ["a", "\"", "\\", "\u{e9}", "\u{1f600}", "\0", "ab\n\u{ffff}", "\\\"", "/"];
    run.family(
        "lengths",
        "nine kinds of strings at every length 0..600 and a ladder to 65537",
        (units.len() * ladder.len()) as u64,
        |i, o| {
            put_idx(&digits(i, &[units.len(), ladder.len()]), o);
            true
        },
        |p| format!("{:?} x {}", units[idx(p)[0]], ladder[idx(p)[1]]),
        |p, t| {
            let d = idx(p);
            let s = units[d[0]].repeat(ladder[d[1]]);
            survive(&s, t)?;
            survive(&format!("{}z", s), t)
        },
    );
}

// ---------------------------------------------------------------- C24

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

pub fn c24(run: &mut Run) {
    let th = run.thorough;
    // all hash iteration orders
    let kmax = if th { 7 } else { 6 };
    let names = ["a", "B", "", "aa", "\u{1f600}", "\u{ffff}", "a\""];
    run.family(
        "hash-orders",
        "objects of k <= 6 (thorough 7) members: fresh hash maps are drawn until every one of the k! iteration orders has been seen; the text must be the same for all (alone, nested in an array, as a member; with one or several values per key)",
        (kmax as u64 + 1) * 2,
        |i, o| {
            put_idx(&[(i / 2) as usize, (i % 2) as usize], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let (n, rep) = (d[0], d[1]);
            let fact: usize = (1..=n).product();
            let mut seen: HashSet<Vec<usize>> = HashSet::new();
            let mut first: Option<String> = None;
            let mut tries = 0u64;
            while seen.len() < fact {
                tries += 1;
                if tries > 2_000_000 {
                    return fail("harness: not every iteration order was reached", fact.to_string(), seen.len().to_string());
                }
                let mut h: HashMap<String, (Json, LinkedList<Json>)> = HashMap::new();
                for (i, k) in names.iter().take(n).enumerate() {
                    let mut l = LinkedList::new();
                    if rep == 1 {
                        l.push_back(Json::Number(0.5));
                        l.push_back(Json::Number(i as f64 + 10.0));
                    }
                    h.insert(k.to_string(), (Json::Number(i as f64), l));
                }
                let order: Vec<usize> = h.keys().map(|k| names.iter().position(|x| x == k).unwrap()).collect();
                if !seen.insert(order) {
                    continue;
                }
                t.calls += 3;
                let j = Json::Object(h);
                let a = j.to_string();
                let b = json::encode(&j);
                let c = json::encode(&json::array![j, 1]);
                let all = format!("{}|{}|{}", a, b, c);
                t.validated += 1;
                match &first {
                    None => first = Some(all),
                    Some(f) if *f == all => {}
                    Some(f) => return fail("equal objects encode differently (they differ in hash iteration order)", f.clone(), all),
                }
            }
            Ok(())
        },
    );
    // typed maps
    run.family(
        "typed-maps",
        "HashMap<String, i32>, HashMap<i64, _> and Vec<(K, V)> of k <= 5 entries: encoded for every hash iteration order respectively every order of the list (distinct keys)",
        6 * 3,
        |i, o| {
            o.push(i as u8);
            true
        },
        |p| format!("{:?}", p),
        |p, t| {
            let n = (p[0] % 6) as usize;
            let fact: usize = (1..=n).product();
            let mut seen: HashSet<Vec<usize>> = HashSet::new();
            let mut first: Option<String> = None;
            let perms = permutations(n);
            let mut tries = 0;
            while seen.len() < fact {
                tries += 1;
                if tries > 1_000_000 {
                    return fail("harness: not every iteration order was reached", fact.to_string(), seen.len().to_string());
                }
                let (order, s) = match p[0] / 6 {
                    0 => {
                        let h: HashMap<String, i32> = (0..n).map(|i| (names[i].to_string(), i as i32)).collect();
                        (h.keys().map(|k| names.iter().position(|x| x == k).unwrap()).collect::<Vec<_>>(), json::encode(&h))
                    }
                    1 => {
                        let h: HashMap<i64, Vec<u8>> = (0..n).map(|i| (i as i64 * 7 - 9, vec![i as u8])).collect();
                        (h.keys().map(|k| ((k + 9) / 7) as usize).collect(), json::encode(&h))
                    }
                    _ => {
                        let o = perms[tries as usize - 1].clone();
                        let l: Vec<(String, i32)> = o.iter().map(|i| (names[*i].to_string(), *i as i32)).collect();
                        let s = json::encode(&l);
                        (o, s)
                    }
                };
                t.calls += 1;
                if seen.insert(order) {
                    t.validated += 1;
                }
                match &first {
                    None => first = Some(s),
                    Some(f) if *f == s => {}
                    Some(f) => return fail("equal maps encode differently", f.clone(), s),
                }
            }
            Ok(())
        },
    );
    // histories leading to the same object
    let n = if th { 6 } else { 5 };
    let perms = permutations(n);
    let decoy = ["q", "zz", "\0"];
    let grow = [0usize, 1, 3, 50, 2000];
    run.family(
        "histories",
        "an object of five (thorough six) members built in every order, by append, insert, set, parse, with 0..2000 decoy members added and removed before, between or after, overwritten first or not, cloned or not",
        (perms.len() * 4 * grow.len() * 3 * 2) as u64,
        |i, o| {
            put_idx(&digits(i, &[perms.len(), 4, grow.len(), 3, 2]), o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let perm = &perms[d[0]];
            let (how, g, place, over) = (d[1], grow[d[2]], d[3], d[4] == 1);
            if g == 2000 && d[0] % 7 != 0 {
                return Ok(());
            }
            let keys = ["a", "b", "B", "\u{e9}", "\u{10000}", "ab"];
            let val = |i: usize| if i == 0 { Rv::obj(&[("y", Rv::Null), ("x", Rv::Num(1.0))]) } else { Rv::Num(i as f64) };
            let mut w: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
            for i in 0..n {
                w.insert(keys[i].into(), vec![val(i)]);
            }
            let canon = Rv::Obj(w);
            let want = canon.build().to_string();
            t.calls += 2;
            t.validated += 1;
            let decoys = |j: &mut Json| {
                for i in 0..g {
                    let _ = j.insert(format!("{}{}", decoy[i % 3], i), i);
                }
                for i in 0..g {
                    let _ = j.delete(&format!("{}{}", decoy[i % 3], i));
                }
            };
            let mut j = if how == 3 {
                let text = format!("{{{}}}", perm.iter().map(|i| format!("{}:{}", Rv::s(keys[*i]).text(), val(*i).text())).collect::<Vec<_>>().join(","));
                match Json::parse(&text) {
                    Ok(j) => j,
                    Err(e) => return fail("parse", text, e.to_string()),
                }
            } else {
                json::object! {}
            };
            if place == 0 {
                decoys(&mut j);
            }
            if how < 3 {
                for (n_, i) in perm.iter().enumerate() {
                    if over {
                        let _ = j.insert(keys[*i], "old");
                        if how == 0 {
                            let _ = j.delete(keys[*i]);
                        }
                    }
                    let v = val(*i).build();
                    let ok = match how {
                        0 => j.append(keys[*i], v).is_ok(),
                        1 => j.insert(keys[*i], v).is_ok(),
                        _ => j.set(keys[*i], v).is_ok(),
                    };
                    if !ok {
                        return fail("building the object", "Ok", "Err");
                    }
                    if place == 1 && n_ == 2 {
                        decoys(&mut j);
                    }
                }
            }
            if place == 2 {
                decoys(&mut j);
            }
            let j2 = j.clone();
            let s = j.to_string();
            if !rv::same(&j, &canon) {
                return fail("the object built is not the intended one", canon.canon(), rv::read(&j).canon());
            }
            if j != canon.build() {
                return fail("equal objects are not ==", want, s);
            }
            if s != want || j2.to_string() != want || j.to_string() != s {
                return fail("equal objects encode differently (histories differ)", want, s);
            }
            Ok(())
        },
    );
    // two related keys in either order, by every way in
    run.family(
        "related-keys",
        "every ordered pair of related keys: the object with both, built in either order by append, insert, list of pairs, parsed text, with a third key removed in between: one text",
        crate::related::PAIRS,
        |i, o| match crate::related::pair(i) {
            Some((x, y)) if x < y => {
                put_idx(&[x, y], o);
                true
            }
            _ => false,
        },
        |p| format!("{:?}", idx(p).iter().map(|x| crate::related::REL[*x]).collect::<Vec<_>>()),
        |p, t| {
            use json::ToJson;
            let d = idx(p);
            let (x, y) = (crate::related::REL[d[0]], crate::related::REL[d[1]]);
            let m = Rv::obj(&[(x, Rv::Num(1.0)), (x, Rv::Num(2.0)), (y, Rv::Num(3.0))]);
            let want = m.build().to_string();
            t.calls += 8;
            t.validated += 1;
            let q = |k: &str| Rv::s(k).text();
            for j in [
                json::object! { x => 1, x => 2, y => 3 },
                json::object! { y => 3, x => 1, x => 2 },
                json::object! { x => 1, y => 3, x => 2 },
                vec![(x, 1), (y, 3), (x, 2)].to_json(),
                vec![(y, 3), (x, 1), (x, 2)].to_json(),
            ] {
                if j.to_string() != want || !rv::same(&j, &m) {
                    return fail("equal objects encode differently", want, j.to_string());
                }
            }
            for text in [format!("{{{}:1,{}:2,{}:3}}", q(x), q(x), q(y)), format!("{{{}:3,{}:1,{}:2}}", q(y), q(x), q(x))] {
                match Json::parse(&text) {
                    Ok(j) if j.to_string() == want => {}
                    other => return fail(format!("parsed {}", text), want, format!("{:?}", other)),
                }
            }
            for z in crate::related::REL {
                if *z == x || *z == y {
                    continue;
                }
                let mut j = json::object! { y => 3, *z => 0, x => 1 };
                let _ = j.append(x, 2);
                let _ = j.delete(z);
                if j.to_string() != want {
                    return fail(format!("after adding and deleting {:?}", z), want, j.to_string());
                }
            }
            Ok(())
        },
    );
    // small universe of histories: all words of operations; group by document, one text per document
    let k = |s: &str| Seg::Key(s.into());
    let ops: Vec<Op> = vec![
        Op::Insert("a".into(), Rv::Num(1.0)),
        Op::Append("a".into(), Rv::Num(2.0)),
        Op::Delete("a".into()),
        Op::Insert("b".into(), Rv::Num(1.0)),
        Op::Append("b".into(), Rv::Num(2.0)),
        Op::Del(vec![k("b")]),
        Op::Set(vec![k("c"), k("a")], Rv::Num(1.0)),
        Op::Append("c".into(), Rv::Null),
        Op::Delete("c".into()),
    ];
    let nw = upto(ops.len() as u64, if th { 7 } else { 6 });
    let seen: Vec<std::sync::Mutex<HashMap<u128, u128>>> = (0..64).map(|_| Default::default()).collect();
    run.family(
        "operation-words",
        "every word of up to six (thorough seven) operations over three keys; all histories reaching the same document must give the same text",
        nw,
        |i, o| {
            let mut w = vec![];
            word(ops.len() as u64, i, &mut w);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| p.iter().map(|x| format!("{:?}", ops[*x as usize])).collect::<Vec<_>>().join("; "),
        |p, t| {
            let mut j = json::object! {};
            for o in p {
                let _ = apply_real(&mut j, &ops[*o as usize]).is_ok();
            }
            t.calls += p.len() as u64 + 1;
            t.validated += 1;
            let m = rv::read(&j);
            let s = j.to_string();
            let (a, b) = (h128(m.canon().as_bytes()), h128(s.as_bytes()));
            let mut g = seen[(a % 64) as usize].lock().unwrap();
            match g.get(&a) {
                None => {
                    drop(g);
                    // the reference text: the same document made from scratch
                    let w = m.build().to_string();
                    if w != s {
                        return fail("equal documents encode differently", w, s);
                    }
                    seen[(a % 64) as usize].lock().unwrap().insert(a, b);
                    Ok(())
                }
                Some(x) if *x == b => Ok(()),
                Some(_) => {
                    drop(std::mem::take(&mut *g));
                    fail("equal documents encode differently", m.build().to_string(), s)
                }
            }
        },
    );
    // nested documents: text of clone, of reparse, of rebuild
    let leaves = [Rv::Num(1.0), Rv::s("x")];
    let l1 = docs_level(&leaves, 1);
    let small: Vec<Rv> = l1.iter().filter(|d| d.size() <= 3).cloned().collect();
    let mut all: Vec<Rv> = arrays(&small, 2);
    all.extend(objects(&["b", "a", "c"], &small, 2, 2));
    run.family(
        "ways",
        "all documents of nesting 2: built, cloned, reparsed, rebuilt through set of every member, encoded twice: one text",
        all.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| all[idx(p)[0]].canon(),
        |p, t| {
            let m = &all[idx(p)[0]];
            t.calls += 6;
            t.validated += 1;
            let j = m.build();
            let s = j.to_string();
            let mut texts = vec![j.to_string(), j.clone().to_string(), m.build().to_string(), json::encode(&j)];
            match Json::parse(&s) {
                Ok(j) => texts.push(j.to_string()),
                Err(e) => return fail("parse", s, e.to_string()),
            }
            if let Rv::Obj(o) = m {
                // add the members in descending key order
                let mut r = json::object! {};
                for (k, vs) in o.iter().rev() {
                    for v in vs {
                        let _ = r.append(k, v.build());
                    }
                }
                texts.push(r.to_string());
            }
            match texts.iter().find(|x| **x != s) {
                None => Ok(()),
                Some(x) => fail("equal documents encode differently", s, x.clone()),
            }
        },
    );
}

// ---------------------------------------------------------------- C25

fn f64_ok(f: f64, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 2;
    t.validated += 1;
    let s = json::encode(&f);
    if !matches!(rv::parse(&s), Some(Rv::Num(_))) {
        return fail("the encoded text is not a JSON number", format!("{:?}", f), s);
    }
    match json::decode::<f64>(&s) {
        Ok(g) if rv::same_num(g, f) => Ok(()),
        other => fail(format!("{:?} encoded as {}", f, s), format!("{:#x}", f.to_bits()), format!("{:?}", other)),
    }
}

/// Non-negative big integers, base 1e9, least significant first.
#[derive(Clone)]
struct Big(Vec<u32>);
impl Big {
    fn from(mut n: u64) -> Big {
        let mut v = vec![];
        while n > 0 {
            v.push((n % 1_000_000_000) as u32);
            n /= 1_000_000_000;
        }
        Big(v)
    }
    fn mul(&mut self, k: u32) {
        let mut c = 0u64;
        for d in self.0.iter_mut() {
            let x = *d as u64 * k as u64 + c;
            *d = (x % 1_000_000_000) as u32;
            c = x / 1_000_000_000;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    fn dec(&self) -> String {
        let mut s = String::new();
        for (i, d) in self.0.iter().rev().enumerate() {
            s.push_str(&if i == 0 { format!("{}", d) } else { format!("{:09}", d) });
        }
        if s.is_empty() {
            s.push('0');
        }
        s
    }
}

/// the exact decimal expansion of m * 2^e as (digits, number of digits after the point)
fn exact(m: u64, e: i32) -> (String, usize) {
    let mut b = Big::from(m);
    if e >= 0 {
        for _ in 0..e {
            b.mul(2);
        }
        (b.dec(), 0)
    } else {
        // m * 2^e = m * 5^-e / 10^-e
        for _ in 0..-e {
            b.mul(5);
        }
        (b.dec(), (-e) as usize)
    }
}

fn plain(d: &str, frac: usize) -> String {
    if frac == 0 {
        return d.to_string();
    }
    let p = if d.len() <= frac { format!("{}{}", "0".repeat(frac + 1 - d.len()), d) } else { d.to_string() };
    format!("{}.{}", &p[..p.len() - frac], &p[p.len() - frac..])
}
fn scientific(d: &str, frac: usize) -> String {
    let e = d.len() as i64 - 1 - frac as i64;
    if d.len() == 1 {
        format!("{}e{}", d, e)
    } else {
        format!("{}.{}E{}", &d[..1], &d[1..], e)
    }
}
/// d - 1 for a digit string > 0
fn minus1(d: &str) -> String {
    let mut v: Vec<u8> = d.bytes().collect();
    let mut i = v.len() - 1;
    loop {
        if v[i] == b'0' {
            v[i] = b'9';
            i -= 1;
        } else {
            v[i] -= 1;
            break;
        }
    }
    let s = String::from_utf8(v).unwrap();
    let s = s.trim_start_matches('0');
    if s.is_empty() { "0".into() } else { s.into() }
}

fn decoded(text: &str, want: f64, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 1;
    t.validated += 1;
    match json::decode::<f64>(text) {
        Ok(g) if rv::same_num(g, want) => Ok(()),
        other => fail(format!("the text {}", shorten(text)), format!("{:?} ({:#x})", want, want.to_bits()), format!("{:?}", other)),
    }
}

/// Exact decimal expansions around the double m*2^e (m the full significand): the double itself, and the
/// midpoint to the next double, exactly, just below and just above.
fn around(bits: u64, t: &mut Tally) -> Result<(), Fail> {
    let f = f64::from_bits(bits);
    let next = f64::from_bits(bits + 1);
    let ex = (bits >> 52) as i32;
    let (m, e) = if ex == 0 { (bits, -1074) } else { (bits & ((1 << 52) - 1) | 1 << 52, ex - 1075) };
    if bits > 0 {
        let (d, fr) = exact(m, e);
        decoded(&plain(&d, fr), f, t)?;
        decoded(&scientific(&d, fr), f, t)?;
        decoded(&format!("-{}", scientific(&d, fr)), -f, t)?;
    }
    // midpoint: (2m+1) * 2^(e-1)
    let (d, fr) = exact(2 * m + 1, e - 1);
    let even = if m % 2 == 0 { f } else { next };
    let forms: [(String, usize, f64); 3] = [
        (d.clone(), fr, even),
        // one more digit: just above
        (format!("{}1", d), fr + 1, next),
        // just below: the last digit of the midpoint with one more digit, minus one
        (minus1(&format!("{}0", d)), fr + 1, f),
    ];
    for (d, fr, w) in forms {
        if w.is_infinite() {
            t.calls += 1;
            if let Ok(g) = json::decode::<f64>(&scientific(&d, fr)) {
                return fail(format!("the text {}", shorten(&scientific(&d, fr))), "an error: beyond the largest double", format!("{:?}", g));
            }
            continue;
        }
        decoded(&scientific(&d, fr), w, t)?;
        if fr > 0 || d.len() < 400 {
            decoded(&plain(&d, fr), w, t)?;
        }
        if fr == 0 {
            decoded(&format!("{}.000", d), w, t)?;
        }
        decoded(&format!("-{}", scientific(&d, fr)), -w, t)?;
    }
    Ok(())
}

pub fn c25(run: &mut Run) {
    let th = run.thorough;
    run.assumptions.push("the harness reads encoded numbers back with Rust's standard f64 parser only to see that they are JSON numbers; correct rounding is checked against exact big-integer decimal expansions".into());
    let ms = mantissas(52);
    let nm = ms.len();
    run.family(
        "doubles",
        "every sign and exponent with about 200 structured mantissas (all single bits, runs, complements)",
        (2046 * 2 * nm + 2 * nm) as u64,
        |i, o| {
            let d = digits(i, &[nm, 2, 2047]);
            o.extend_from_slice(&((d[1] as u64) << 63 | (d[2] as u64) << 52 | ms[d[0]]).to_le_bytes());
            true
        },
        |p| format!("{:?}", f64::from_bits(u64::from_le_bytes(p.try_into().unwrap()))),
        |p, t| f64_ok(f64::from_bits(u64::from_le_bytes(p.try_into().unwrap())), t),
    );
    let mbits = if th { 16 } else { 9 };
    run.family(
        "doubles-top-bits",
        "every sign and exponent with every pattern of the top 9 (thorough 16) mantissa bits",
        (2 * 2047u64) << mbits,
        |i, o| {
            let b = i & ((1 << mbits) - 1);
            let r = i >> mbits;
            o.extend_from_slice(&((r % 2) << 63 | (r / 2) << 52 | b << (52 - mbits)).to_le_bytes());
            true
        },
        |p| format!("{:?}", f64::from_bits(u64::from_le_bytes(p.try_into().unwrap()))),
        |p, t| f64_ok(f64::from_bits(u64::from_le_bytes(p.try_into().unwrap())), t),
    );
    // short decimals: d * 10^e
    let nd = if th { 100_000 } else { 10_000 };
    run.family(
        "short-decimals",
        "every decimal of up to four (thorough five) significant digits at every power of ten: shortest texts and their doubles",
        nd * 660,
        |i, o| {
            let s = format!("{}e{}", i % nd, (i / nd) as i64 - 340);
            o.extend_from_slice(s.as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| {
            let f: f64 = st(p).parse().unwrap();
            t.calls += 1;
            match (json::decode::<f64>(st(p)), f.is_finite()) {
                (Ok(g), true) if rv::same_num(f, g) => {}
                (Err(_), false) => return Ok(()),
                (other, _) => return fail(format!("the text {}", st(p)), format!("{:?}", f), format!("{:?}", other)),
            }
            f64_ok(f, t)
        },
    );
    // exact expansions
    let mut around_bits: Vec<u64> = vec![];
    for e in 0..2047u64 {
        if !th && !(e < 40 || e > 2030 || (960..1140).contains(&e) || e % 8 == 0) {
            continue;
        }
        for m in [0u64, 1, 2, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, 0x5555555555555, 0xaaaaaaaaaaaaa] {
            around_bits.push(e << 52 | m);
        }
    }
    run.family(
        "nearest-double",
        "for eight mantissas at every exponent (quick: every eighth, all near 1, the subnormals and the largest): the exact decimal expansion of the double, of the midpoint to its neighbour, and the decimals just below and above it, written plainly and with exponent; ties to even, beyond the largest refused",
        around_bits.len() as u64,
        |i, o| {
            o.extend_from_slice(&around_bits[i as usize].to_le_bytes());
            true
        },
        |p| format!("around {:?}", f64::from_bits(u64::from_le_bytes(p.try_into().unwrap()))),
        |p, t| around(u64::from_le_bytes(p.try_into().unwrap()), t),
    );
    // f32
    let f32n: u64 = if th { 1 << 32 } else { 1 << 24 };
    run.family(
        "f32",
        "f32: every sign and exponent with every pattern of the top 15 mantissa bits, low bits set from the index (thorough: all 2^32 patterns)",
        f32n,
        |i, o| {
            let b: u32 = if th { i as u32 } else { ((i as u32) << 8) | ((i as u32).wrapping_mul(0x9d) & 0xff) };
            if !f32::from_bits(b).is_finite() {
                return false;
            }
            o.extend_from_slice(&b.to_le_bytes());
            true
        },
        |p| format!("{:?}", f32::from_bits(u32::from_le_bytes(p.try_into().unwrap()))),
        |p, t| {
            let f = f32::from_bits(u32::from_le_bytes(p.try_into().unwrap()));
            t.calls += 2;
            t.validated += 1;
            let s = json::encode(&f);
            match json::decode::<f32>(&s) {
                Ok(g) if g.to_bits() == f.to_bits() => Ok(()),
                other => fail(format!("{:?} encoded as {}", f, s), format!("{:?}", f), format!("{:?}", other)),
            }
        },
    );
    // integers
    fn int<T: json::ToJson + json::FromJson + PartialEq + std::fmt::Debug + Copy + TryFrom<i128>>(n: i128, t: &mut Tally) -> Result<(), Fail> {
        if let Ok(x) = T::try_from(n) {
            t.calls += 2;
            t.validated += 1;
            let s = json::encode(&x);
            if s != n.to_string() {
                // any JSON number with that value will do
                match rv::parse(&s) {
                    Some(Rv::Num(f)) if f == n as f64 => {}
                    _ => return fail("integer text", n.to_string(), s),
                }
            }
            for text in [s.clone(), n.to_string(), format!("{}.0", n), format!("{}e0", n), format!("{}0E-1", n)] {
                if n == 0 && text.starts_with("00") {
                    continue;
                }
                match json::decode::<T>(&text) {
                    Ok(y) if y == x => {}
                    other => return fail(format!("decoding {} as an integer", text), n.to_string(), format!("{:?}", other)),
                }
            }
        }
        Ok(())
    }
    let mut edge: Vec<i128> = vec![];
    for b in 0..=53 {
        for d in -40i128..=40 {
            edge.push((1i128 << b) + d);
        }
    }
    for p in 0..16 {
        for k in 1..10 {
            for d in -2i128..=2 {
                edge.push(k * 10i128.pow(p) + d);
            }
        }
    }
    let mut v: Vec<i128> = edge.into_iter().flat_map(|x| [x, -x]).chain(-70000..=70000).filter(|x| x.abs() <= 1 << 53).collect();
    v.sort();
    v.dedup();
    run.family(
        "integers",
        "every integer of magnitude up to 70000, and all neighbourhoods of powers of two and multiples of powers of ten up to 2^53, in all twelve integer types, written in five ways",
        v.len() as u64,
        |i, o| {
            o.extend_from_slice(&v[i as usize].to_le_bytes());
            true
        },
        |p| i128::from_le_bytes(p.try_into().unwrap()).to_string(),
        |p, t| {
            let n = i128::from_le_bytes(p.try_into().unwrap());
            int::<u8>(n, t)?;
            int::<u16>(n, t)?;
            int::<u32>(n, t)?;
            int::<u64>(n, t)?;
            int::<u128>(n, t)?;
            int::<usize>(n, t)?;
            int::<i8>(n, t)?;
            int::<i16>(n, t)?;
            int::<i32>(n, t)?;
            int::<i64>(n, t)?;
            int::<i128>(n, t)?;
            int::<isize>(n, t)
        },
    );
}
