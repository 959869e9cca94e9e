//! C28: what an error says: its kind's name, and the key, index, kind of value or text it is about.
use crate::engine::*;
use crate::gen::*;
use crate::ops::to_path;
use crate::paths::{self, path_text, target_docs};
use crate::rc::{self, Kit, Pool};
use crate::rv::{self, PathRef, Rv, Seg, E};
use json::{Error, ErrorKind, FromJson, Json};
use std::collections::HashMap;
use std::process::Command;

const KINDS: &[&str] = &["object", "array", "string", "number", "boolean", "null"];

fn kind_name(k: &ErrorKind) -> &'static str {
    match k {
        ErrorKind::InvalidJson => "InvalidJson",
        ErrorKind::ParseObjectError => "ParseObjectError",
        ErrorKind::ParseArrayError => "ParseArrayError",
        ErrorKind::ParseStringError => "ParseStringError",
        ErrorKind::ParseNumberError => "ParseNumberError",
        ErrorKind::ParseBooleanError => "ParseBooleanError",
        ErrorKind::ParseNullError => "ParseNullError",
        ErrorKind::MissingKey => "MissingKey",
        ErrorKind::IndexOutOfRange => "IndexOutOfRange",
        ErrorKind::InvalidValueKind => "InvalidValueKind",
        ErrorKind::PathSyntaxError => "PathSyntaxError",
        ErrorKind::ConvertError => "ConvertError",
    }
}
fn kinds() -> Vec<ErrorKind> {
    use ErrorKind::*;
    vec![InvalidJson, ParseObjectError, ParseArrayError, ParseStringError, ParseNumberError, ParseBooleanError, ParseNullError, MissingKey, IndexOutOfRange, InvalidValueKind, PathSyntaxError, ConvertError]
}

/// How an error prints.
fn prints(e: &Error) -> Result<(), Fail> {
    let want = format!("{}: {}", kind_name(&e.kind), e.msg);
    let b: &dyn std::error::Error = e;
    if e.to_string() != want || b.to_string() != want {
        return fail("an error prints otherwise than its kind, a colon and its message", want, format!("{} / {}", e, b));
    }
    if e.kind.to_string() != kind_name(&e.kind) {
        return fail("a kind prints otherwise than its name", kind_name(&e.kind), e.kind.to_string());
    }
    if e.msg.is_empty() {
        return fail("an error has no message", "a message", want);
    }
    Ok(())
}

/// The words of a message: runs of letters and digits.
fn words(m: &str) -> Vec<&str> {
    m.split(|c: char| !c.is_alphanumeric()).filter(|x| !x.is_empty()).collect()
}
fn kind_words(m: &str) -> Vec<&str> {
    words(m).into_iter().filter(|w| KINDS.contains(w)).collect()
}
/// the message without the key it quotes
fn without<'a>(m: &str, k: &str) -> String {
    m.replacen(&format!("\"{}\"", k), " ", 1)
}

/// What went wrong.
#[derive(Clone, Debug, PartialEq)]
enum Wrong {
    Missing(String),
    Range(usize),
    /// needed, met, and the step of the path
    Kind(&'static str, &'static str, Option<Seg>),
    Syntax(Option<String>),
}

fn first_wrong(d: &Rv, p: &[Seg]) -> Option<Wrong> {
    let mut cur = d;
    for s in p {
        cur = match (s, cur) {
            (Seg::Key(k), Rv::Obj(m)) => match m.get(k) {
                Some(v) => v.last().unwrap(),
                None => return Some(Wrong::Missing(k.clone())),
            },
            (Seg::Idx(i), Rv::Arr(a)) => match a.get(*i) {
                Some(v) => v,
                None => return Some(Wrong::Range(*i)),
            },
            (Seg::Key(_), o) => return Some(Wrong::Kind("object", o.kind(), Some(s.clone()))),
            (Seg::Idx(_), o) => return Some(Wrong::Kind("array", o.kind(), Some(s.clone()))),
        };
    }
    None
}

fn says(what: &str, e: &Error, w: &Wrong, t: &mut Tally) -> Result<(), Fail> {
    prints(e)?;
    t.validated += 1;
    let kind = E::of(&e.kind);
    let (ok, need) = match w {
        Wrong::Missing(k) => {
            t.out("missing key");
            (kind == Some(E::MissingKey) && e.msg.contains(&format!("\"{}\"", k)), format!("MissingKey naming {:?}", k))
        }
        Wrong::Range(i) => {
            t.out("index out of range");
            (kind == Some(E::IndexOutOfRange) && words(&e.msg).contains(&&i.to_string()[..]), format!("IndexOutOfRange naming {}", i))
        }
        Wrong::Kind(need, met, step) => {
            t.out("invalid kind");
            let names = match step {
                None => true,
                Some(Seg::Key(k)) => e.msg.contains(&format!("\"{}\"", k)),
                Some(Seg::Idx(i)) => words(&e.msg).contains(&&i.to_string()[..]),
            };
            let rest = match step {
                Some(Seg::Key(k)) => without(&e.msg, k),
                _ => e.msg.clone(),
            };
            (kind == Some(E::InvalidValueKind) && names && kind_words(&rest) == [*need, *met], format!("InvalidValueKind naming {} as needed and {} as met{}", need, met, match step { Some(s) => format!(", at {:?}", s), None => String::new() }))
        }
        Wrong::Syntax(x) => {
            t.out("path syntax");
            (kind == Some(E::PathSyntax) && x.as_ref().map_or(true, |x| e.msg.contains(&format!("\"{}\"", x))), format!("PathSyntaxError naming {:?}", x))
        }
    };
    if ok {
        Ok(())
    } else {
        fail(format!("the error of {} does not say what is wrong", what), need, e.to_string())
    }
}

/// The first segment that is no index although it starts with #, if there is no doubt about it.
fn syntax_text(p: &str) -> Option<String> {
    if p.contains('\\') {
        return None;
    }
    p.split('.').filter_map(|s| s.strip_prefix('#')).find(|r| r.parse::<usize>().is_err()).map(|x| x.to_string())
}

fn path_case(d: &Rv, j: &Json, p: &str, text: Option<&str>, t: &mut Tally) -> Result<(), Fail> {
    let (w, segs) = match rv::parse_path(p) {
        PathRef::Unspecified => return Ok(()),
        PathRef::Syntax => (Some(Wrong::Syntax(syntax_text(p))), None),
        PathRef::Segs(s) => (first_wrong(d, &s), Some(s)),
    };
    let Some(w) = w else {
        t.out("found");
        return Ok(());
    };
    let mut see = |what: &str, r: Result<(), Error>| -> Result<(), Fail> {
        t.calls += 1;
        match r {
            Ok(()) => fail(format!("{} succeeds", what), format!("{:?}", w), "Ok"),
            Err(e) => says(what, &e, &w, t),
        }
    };
    see("get", j.get(p).map(|_| ()))?;
    see("del", j.clone().del(p).map(|_| ()))?;
    if segs.is_none() {
        see("set", j.clone().set(p, 1).map(|_| ()))?;
    }
    if let Some(s) = &segs {
        see("find", j.find(to_path(s)).map(|_| ()))?;
        see("find_mut", j.clone().find_mut(to_path(s)).map(|_| ()))?;
        see("discard", j.clone().discard(to_path(s)).map(|_| ()))?;
    }
    if let Some(x) = text {
        see("get of a text", json::get::<Json>(x, p).map(|_| ()))?;
        see("del of a text", json::del(x, p).map(|_| ()))?;
        if segs.is_none() {
            see("set of a text", json::set(x, p, 1).map(|_| ()))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- conversions

#[derive(Clone, Debug)]
enum T {
    Leaf(String, &'static str),
    Doc,
    Opt(Box<T>),
    List(Box<T>),
    Pairs(fn(&str) -> bool, Box<T>),
    Map(fn(&str) -> bool, Box<T>),
}
/// Read the source of a type.
fn read_type(s: &str) -> T {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    let arg = |h: &str| s.strip_prefix(h).and_then(|x| x.strip_suffix('>')).map(|x| x.to_string());
    let split = |x: &str| -> (String, String) {
        let i = x.find(',').unwrap();
        (x[..i].to_string(), x[i + 1..].to_string())
    };
    let key = |k: &str| -> fn(&str) -> bool {
        match k {
            "String" => |_| true,
            "i32" => |x| x.parse::<i32>().is_ok(),
            "u8" => |x| x.parse::<u8>().is_ok(),
            "bool" => |x| x.parse::<bool>().is_ok(),
            "char" => |x| x.parse::<char>().is_ok(),
            _ => panic!("key type"),
        }
    };
    if let Some(x) = arg("Option<") {
        T::Opt(Box::new(read_type(&x)))
    } else if let Some(x) = arg("Vec<(") {
        let (k, v) = split(x.strip_suffix(')').unwrap());
        T::Pairs(key(&k), Box::new(read_type(&v)))
    } else if let Some(x) = arg("Vec<") {
        T::List(Box::new(read_type(&x)))
    } else if let Some(x) = arg("HashMap<") {
        let (k, v) = split(&x);
        T::Map(key(&k), Box::new(read_type(&v)))
    } else {
        match &s[..] {
            "Json" => T::Doc,
            "bool" => T::Leaf(s, "boolean"),
            "String" => T::Leaf(s, "string"),
            _ => T::Leaf(s, "number"),
        }
    }
}
#[derive(Debug)]
enum Culprit {
    /// kind met, type asked for
    Value(&'static str, String),
    Key(String),
}
fn culprits(d: &Rv, ty: &T, o: &mut Vec<Culprit>) {
    match (ty, d) {
        (T::Doc, _) | (T::Opt(_), Rv::Null) => {}
        (T::Opt(x), d) => culprits(d, x, o),
        (T::Leaf(_, k), d) if d.kind() == *k => {}
        (T::Leaf(n, _), d) => o.push(Culprit::Value(d.kind(), n.clone())),
        (T::List(x), Rv::Arr(a)) => a.iter().for_each(|v| culprits(v, x, o)),
        (T::List(_) | T::Pairs(..), d) if !matches!(d, Rv::Obj(_)) || matches!(ty, T::List(_)) => o.push(Culprit::Value(d.kind(), "Vec".into())),
        (T::Pairs(k, x), Rv::Obj(m)) => {
            for (kk, vs) in m {
                if !k(kk) {
                    o.push(Culprit::Key(kk.clone()));
                }
                vs.iter().for_each(|v| culprits(v, x, o));
            }
        }
        (T::Map(k, x), Rv::Obj(m)) => {
            for (kk, vs) in m {
                if !k(kk) {
                    o.push(Culprit::Key(kk.clone()));
                }
                culprits(vs.last().unwrap(), x, o);
            }
        }
        (_, d) => o.push(Culprit::Value(d.kind(), "HashMap".into())),
    }
}
struct Row {
    name: &'static str,
    ty: T,
    conv: fn(&Json) -> Option<Error>,
    dec: fn(&str) -> Option<Error>,
}
fn conv<X: FromJson>(j: &Json) -> Option<Error> {
    j.convert::<X>().err()
}
fn dec<X: FromJson>(s: &str) -> Option<Error> {
    json::decode::<X>(s).err()
}
macro_rules! rows {
    ($($ty:ty),* $(,)?) => { vec![$( Row { name: stringify!($ty), ty: read_type(stringify!($ty)), conv: conv::<$ty>, dec: dec::<$ty> } ),*] };
}
fn types() -> Vec<Row> {
    rows!(
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String, Json, Option<u8>, Option<String>, Option<Json>, Vec<u8>, Vec<bool>, Vec<String>, Vec<f64>, Vec<Json>, Vec<Option<bool>>, Vec<Vec<i64>>,
        Vec<HashMap<String, u8>>, HashMap<String, u8>, HashMap<String, bool>, HashMap<i32, String>, HashMap<bool, Vec<u8>>, HashMap<char, Option<f32>>, HashMap<String, HashMap<u8, bool>>, Vec<(String, u8)>, Vec<(i32, bool)>, Vec<(u8, Json)>,
        Vec<(bool, Vec<String>)>, Vec<(char, Option<String>)>, Vec<(String, Vec<(i32, u8)>)>, Option<Vec<(String, bool)>>, Option<HashMap<String, Vec<Option<u8>>>>,
    )
}
fn convert_says(what: &str, e: &Error, cs: &[Culprit], t: &mut Tally) -> Result<(), Fail> {
    prints(e)?;
    t.validated += 1;
    let ok = E::of(&e.kind) == Some(E::Convert)
        && cs.iter().any(|c| match c {
            Culprit::Value(k, n) => kind_words(&e.msg) == [*k] && words(&e.msg).contains(&&n[..]),
            Culprit::Key(k) => e.msg.contains(&k[..]) && words(&e.msg).contains(&"key"),
        });
    t.out(if cs.len() > 1 { "several wrong" } else { "one wrong" });
    if ok {
        Ok(())
    } else {
        fail(format!("the error of {} names nothing that is wrong", what), format!("one of {:?}", cs), e.to_string())
    }
}

// ---------------------------------------------------------------- derived structs

const STRUCTS: &[(&str, &[&str], &str)] = &[
    ("A", &["a"], "struct A { a: u8 }"),
    ("Two", &["first", "second"], "struct Two { first: u8, second: Option<bool> }"),
    ("Keyed", &["the key", "k{}\u{e9}"], "struct Keyed { #[key = \"the key\"] a: u8, #[key = \"k{}\u{e9}\"] b: String, #[ignore] c: u8 }"),
    ("Raw", &["type", "x"], "struct Raw { r#type: u8, x: Vec<u8> }"),
    ("LongName42", &["one", "two", "three", "four"], "struct LongName42 { one: u8, two: u8, three: u8, four: u8 }"),
    ("Nest", &["a", "b"], "struct Nest { #[key = \"n\"] n: A, b: u8 }"),
];
fn derive_program() -> String {
    let mut s = String::from("use json::*;\nuse std::io::BufRead;\n");
    for (_, _, src) in STRUCTS {
        s.push_str(&format!("#[derive(JsonDecode)] #[allow(dead_code)]\n{}\n", src));
    }
    s.push_str("fn show<T: FromJson>(d: &str) -> String { match json::decode::<T>(d) { Ok(_) => String::from(\"ok\"), Err(e) => format!(\"{}\\u{1}{}\", e, e.msg) } }\nfn main() { for l in std::io::stdin().lock().lines() { let l = l.unwrap().replace(\"\\\\\\\\\", \"\\\\\"); let (n, d) = l.split_once(' ').unwrap(); let r = match n {\n");
    for (n, _, _) in STRUCTS {
        s.push_str(&format!("\"{}\" => show::<{}>(d),\n", n, n));
    }
    s.push_str("_ => panic!() }; println!(\">{}\", r.replace('\\\\', \"\\\\\\\\\").replace('\\n', \"\\\\n\")); } }\n");
    s
}

pub fn c28(run: &mut Run) {
    run.assumptions.push("where several things are wrong at once (decoding), an error about any of them is accepted".into());
    let th = run.thorough;
    // errors as values
    let msgs: Vec<String> = {
        let a = ["a", " ", ":", "{}", "\"", "\\", "\n", "\u{1f600}"];
        let mut v = vec![];
        for i in 1..upto(8, if th { 4 } else { 3 }) {
            let mut o = vec![];
            push_word(&a, i, &mut o);
            v.push(String::from_utf8(o).unwrap());
        }
        v
    };
    run.family(
        "kinds",
        "every kind x messages over eight pieces: the error prints as kind, colon, message, and keeps both",
        msgs.len() as u64 * 12,
        |i, o| {
            put_idx(&[(i % 12) as usize, (i / 12) as usize], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let k = kinds().remove(d[0]);
            t.calls += 1;
            t.validated += 1;
            let e = Error::new(k, msgs[d[1]].clone());
            if kind_name(&e.kind) != kind_name(&kinds()[d[0]]) || e.msg != msgs[d[1]] {
                return fail("Error::new keeps something else", format!("{} {:?}", kind_name(&kinds()[d[0]]), msgs[d[1]]), format!("{:?}", e));
            }
            prints(&e)
        },
    );
    // operations on the wrong kind, absent keys, indices beyond the end
    let docs: Vec<String> = ["null", "true", "7", "\"s\"", "[]", "[1,[2],{}]", "{}", "{\"a\":1,\"a\":[2]}"].iter().map(|x| x.to_string()).collect();
    let ka: &[&str] = &["a", "", "\"", "\\", "{", "}", "0", "\u{e9}", "\n", ".", "#"];
    let nk = upto(11, if th { 3 } else { 2 });
    let idxs: Vec<usize> = (0..40).chain([99, 100, 101, 255, 256, 65535, 65536, 1 << 32, (1 << 53) + 1, usize::MAX - 1, usize::MAX]).collect();
    run.family(
        "operations",
        "documents of every kind x insert, append, delete and index_and_merge with every key of up to two (thorough three) of eleven pieces, push, and replace and remove at indices 0..39 and eleven large ones",
        docs.len() as u64 * (nk * 5 + idxs.len() as u64 * 2 + 1),
        |i, o| {
            put_idx(&[(i % docs.len() as u64) as usize, (i / docs.len() as u64) as usize], o);
            true
        },
        |p| {
            let d = idx(p);
            format!("operation {} on {}", d[1], docs[d[0]])
        },
        |p, t| {
            let d = idx(p);
            let m = rv::parse(&docs[d[0]]).unwrap();
            let mut j = m.build();
            let n = d[1] as u64;
            let (what, got, want) = if n < nk * 5 {
                let mut b = vec![];
                push_word(ka, n / 5, &mut b);
                let k = st(&b);
                let wrong = match &m {
                    Rv::Obj(o) if n % 5 == 4 && !o.contains_key(k) => Some(Wrong::Missing(k.into())),
                    Rv::Obj(_) => None,
                    o => Some(Wrong::Kind("object", o.kind(), None)),
                };
                match n % 5 {
                    0 => ("insert", j.insert(k, 1).err(), wrong),
                    1 => ("append", j.append(k, 1).err(), wrong),
                    2 => ("delete", j.delete(k).err(), wrong),
                    3 => ("add_option", j.add_option(k.to_string(), Json::Number(1.0), true).err(), wrong),
                    _ => ("index_and_merge", j.index_and_merge(k).err(), wrong),
                }
            } else {
                let k = (n - nk * 5) as usize;
                let i = idxs.get(k / 2).cloned();
                let wrong = match (&m, i) {
                    (Rv::Arr(a), Some(i)) if i >= a.len() => Some(Wrong::Range(i)),
                    (Rv::Arr(_), _) => None,
                    (o, _) => Some(Wrong::Kind("array", o.kind(), None)),
                };
                match (i, k % 2) {
                    (Some(i), 0) => ("replace", j.replace(i, 1).err(), wrong),
                    (Some(i), _) => ("remove", j.remove(i).err(), wrong),
                    _ => ("push", j.push(1).err(), wrong),
                }
            };
            t.calls += 1;
            match (got, want) {
                (None, None) => {
                    t.out("ok");
                    Ok(())
                }
                (Some(e), Some(w)) => says(what, &e, &w, t),
                (Some(e), None) => fail(format!("{} fails", what), "Ok", e.to_string()),
                (None, Some(w)) => fail(format!("{} succeeds", what), format!("{:?}", w), "Ok"),
            }
        },
    );
    // paths
    let tdocs = target_docs();
    let ttexts: Vec<String> = tdocs.iter().map(|d| d.text()).collect();
    let built: Vec<Json> = tdocs.iter().map(|d| d.build()).collect();
    let len = if th { 6 } else { 5 };
    run.family(
        "path-strings",
        "every path string of up to five (thorough six) of ten characters on fifteen documents: get, set, del, find, find_mut, discard and the functions on texts",
        upto(paths::ALPHA.len() as u64, len),
        |i, o| {
            push_word(paths::ALPHA, i, o);
            true
        },
        |p| format!("path {:?} on 15 documents", st(p)),
        |p, t| {
            for (i, d) in tdocs.iter().enumerate() {
                path_case(d, &built[i], st(p), if p.len() <= 3 { Some(&ttexts[i]) } else { None }, t).map_err(|f| Fail { what: format!("{} (document {})", f.what, ttexts[i]), ..f })?;
            }
            Ok(())
        },
    );
    let leaves: Vec<Rv> = ["null", "true", "7", "\"s\""].iter().map(|x| rv::parse(x).unwrap()).collect();
    let mut sdocs = leaves.clone();
    sdocs.extend(arrays(&leaves, 2));
    sdocs.extend(objects(&["a", "b"], &leaves, 2, 2));
    let small: Vec<Rv> = sdocs.iter().filter(|d| d.size() <= if th { 3 } else { 2 }).cloned().collect();
    sdocs.extend(arrays(&small, 2));
    sdocs.extend(objects(&["a", "c d"], &small, 1, 2));
    let segs: Vec<Seg> = vec![Seg::Key("a".into()), Seg::Key("b".into()), Seg::Key("c d".into()), Seg::Key("no such.key".into()), Seg::Idx(0), Seg::Idx(1), Seg::Idx(7), Seg::Idx(1234567890123)];
    let mut ps: Vec<String> = vec![];
    let mut w = vec![];
    for i in 1..upto(8, 3) {
        word(8, i, &mut w);
        ps.push(path_text(&w.iter().map(|x| segs[*x].clone()).collect::<Vec<_>>()));
    }
    let stexts: Vec<String> = sdocs.iter().map(|d| d.text()).collect();
    run.family(
        "documents-x-paths",
        "documents of nesting 2 over a leaf of each kind x every path of up to three of eight segments: the error names the first segment that leads nowhere",
        stexts.len() as u64 * ps.len() as u64,
        |i, o| {
            pack(&[stexts[(i / ps.len() as u64) as usize].as_bytes(), ps[(i % ps.len() as u64) as usize].as_bytes()], o);
            true
        },
        |p| {
            let v = unpack(p);
            format!("path {} on {}", st(v[1]), st(v[0]))
        },
        |p, t| {
            let v = unpack(p);
            let d = rv::parse(st(v[0])).unwrap();
            path_case(&d, &d.build(), st(v[1]), None, t)
        },
    );
    let big = crate::big::cases();
    run.family(
        "sizes",
        crate::big::ABOUT,
        big.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| shorten(&format!("{:?} on {}", big[idx(p)[0]].1, big[idx(p)[0]].0.canon())),
        |p, t| {
            let (m, q) = &big[idx(p)[0]];
            if !paths::expressible(q) {
                return Ok(());
            }
            let text = m.text();
            path_case(m, &m.build(), &path_text(q), if text.len() < 2000 { Some(&text) } else { None }, t)?;
            path_case(m, &m.build(), &format!("{}.#x", path_text(q)), None, t)
        },
    );
    // conversions
    let rows = types();
    let mut cdocs = leaves.clone();
    cdocs.extend(arrays(&leaves, 2));
    cdocs.extend(objects(&["1", "ab"], &leaves, 2, 2));
    cdocs.extend(objects(&["x y", "true", "-7", "256", "q"], &leaves[1..3], 1, 2));
    let tiny: Vec<Rv> = cdocs.iter().filter(|d| d.size() <= if th { 3 } else { 2 }).cloned().collect();
    cdocs.extend(arrays(&tiny, 2));
    cdocs.extend(objects(&["1", "k"], &tiny, if th { 2 } else { 1 }, 2));
    let ctexts: Vec<String> = cdocs.iter().map(|d| d.text()).collect();
    run.family(
        "conversions",
        &format!("documents of nesting 2 over a leaf of each kind, keys that do and do not convert x {} types: the error names the kind of a value that does not fit and the type it does not fit, or a key that does not convert", rows.len()),
        ctexts.len() as u64,
        |i, o| {
            o.extend_from_slice(ctexts[i as usize].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| {
            let d = rv::parse(st(p)).unwrap();
            let j = d.build();
            for r in &rows {
                let mut cs = vec![];
                culprits(&d, &r.ty, &mut cs);
                for (how, e) in [("convert", (r.conv)(&j)), ("decode", (r.dec)(st(p)))] {
                    t.calls += 1;
                    match (e, cs.is_empty()) {
                        (None, true) => {}
                        (Some(e), false) => convert_says(&format!("{} at {}", how, r.name), &e, &cs, t)?,
                        (Some(e), true) => return fail(format!("{} at {} fails", how, r.name), "Ok", e.to_string()),
                        (None, false) => return fail(format!("{} at {} succeeds", how, r.name), format!("{:?}", cs), "Ok"),
                    }
                }
            }
            Ok(())
        },
    );
    parse_kinds(run);
    derived(run);
}

/// The constructs open at the end of a text that breaks off: kinds an error may have.
fn open_at_end(s: &str) -> Vec<&'static str> {
    let (mut stack, mut lit, mut string, mut esc) = (vec![], None, false, false);
    for c in s.chars() {
        if string {
            match c {
                _ if esc => esc = false,
                '\\' => esc = true,
                '"' => string = false,
                _ => {}
            }
            continue;
        }
        lit = match (lit, c) {
            (None, 'n') => Some("ParseNullError"),
            (None, 't' | 'f') => Some("ParseBooleanError"),
            (None, '-' | '0'..='9') => Some("ParseNumberError"),
            (l, 'a'..='z' | 'E' | '+' | '-' | '.' | '0'..='9') => l,
            _ => None,
        };
        match c {
            '"' => string = true,
            '[' => stack.push("ParseArrayError"),
            '{' => stack.push("ParseObjectError"),
            ']' | '}' => drop(stack.pop()),
            _ => {}
        }
    }
    stack.extend(lit);
    if string {
        stack.push("ParseStringError");
    }
    if stack.is_empty() {
        stack.push("InvalidJson");
    }
    stack
}
fn parse_error(s: &str, may: &[&str], t: &mut Tally) -> Result<(), Fail> {
    t.calls += 3;
    for (how, r) in [("parse", Json::parse(s).map(|_| ())), ("str::parse", s.parse::<Json>().map(|_| ())), ("decode", json::decode::<Json>(s).map(|_| ()))] {
        t.validated += 1;
        match r {
            Ok(()) => return fail(format!("{} accepts a broken text", how), "an error", s),
            Err(e) => {
                prints(&e)?;
                if !may.contains(&kind_name(&e.kind)) {
                    return fail(format!("the error of {} is about another construct than the broken ones", how), format!("one of {:?}", may), e.to_string());
                }
            }
        }
    }
    t.out(if may.len() > 1 { "nested" } else { "alone" });
    Ok(())
}
fn parse_kinds(run: &mut Run) {
    let th = run.thorough;
    let leaves: Vec<Rv> = ["null", "true", "false", "-1.5e2", "\"s\\\"\\u00e9]}\""].iter().map(|x| rv::parse(x).unwrap()).collect();
    let mut docs = leaves.clone();
    docs.extend(arrays(&leaves, 2));
    docs.extend(objects(&["a", "{["], &leaves, 2, 2));
    let small: Vec<Rv> = docs.iter().filter(|d| d.size() <= if th { 3 } else { 2 }).cloned().collect();
    docs.extend(arrays(&small, 2));
    docs.extend(objects(&["a", "b"], &small, 1, 2));
    let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
    let most = texts.iter().map(|x| x.len()).max().unwrap() as u64;
    run.family(
        "texts-broken-off",
        "every proper prefix that is no text itself of every document of nesting 2 over a leaf of each kind: the kind of the error is that of a construct left open",
        texts.len() as u64 * most,
        |i, o| {
            let (x, n) = (&texts[(i / most) as usize], (i % most) as usize);
            if n >= x.len() || !x.is_char_boundary(n) || rv::parse(&x[..n]).is_some() {
                return false;
            }
            o.extend_from_slice(x[..n].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| parse_error(st(p), &open_at_end(st(p)), t),
    );
    const BROKEN: &[(&str, &str)] = &[
        ("nulL", "ParseNullError"), ("nul", "ParseNullError"), ("nullx", "ParseNullError"), ("tru", "ParseBooleanError"), ("True", "InvalidJson"), ("falsy", "ParseBooleanError"), ("01", "ParseNumberError"), ("-", "ParseNumberError"), ("1.", "ParseNumberError"), ("1e", "ParseNumberError"), ("1e999", "ParseNumberError"), ("0x1", "ParseNumberError"), ("+1", "InvalidJson"), (".5", "InvalidJson"), ("NaN", "InvalidJson"), ("x", "InvalidJson"), ("'s'", "InvalidJson"),
        ("\"\\q\"", "ParseStringError"), ("\"\\u12\"", "ParseStringError"), ("\"\\ud800\"", "ParseStringError"), ("\"\\u12g4\"", "ParseStringError"), ("\"\t\"", "ParseStringError"), ("\"a\"b", "ParseStringError"),
    ];
    const AROUND: &[(&str, &str)] = &[("", ""), ("[", "]"), ("[1,", "]"), ("[", ",\"]\"]"), ("[[],", ",{}]"), ("{\"a\":", "}"), ("{\"a\":null,\"a\":", "}"), ("{\"}\":", ",\"b\":[]}"), (" ", "\n")];
    let na = AROUND.len() as u64;
    run.family(
        "one-broken-value",
        "23 broken literals alone and in every pair of eight surroundings: the kind of the error is that of the literal or of what encloses it",
        BROKEN.len() as u64 * na * na,
        |i, o| {
            let (b, x, y) = (BROKEN[(i / na / na) as usize], AROUND[(i / na % na) as usize], AROUND[(i % na) as usize]);
            let mut may = vec![];
            for a in [x, y] {
                if a.0.starts_with('[') {
                    may.push("ParseArrayError");
                } else if a.0.starts_with('{') {
                    may.push("ParseObjectError");
                }
            }
            may.push(b.1);
            pack(&[format!("{}{}{}{}{}", x.0, y.0, b.0, y.1, x.1).as_bytes(), may.join(" ").as_bytes()], o);
            true
        },
        |p| st(unpack(p)[0]).to_string(),
        |p, t| {
            let v = unpack(p);
            let may: Vec<&str> = st(v[1]).split(' ').collect();
            parse_error(st(v[0]), &may, t)
        },
    );
}

fn derived(run: &mut Run) {
    let kit = Kit::new();
    let ext = vec![kit.art("json"), kit.art("json_derive")];
    let bin = match kit.compile("errs", &derive_program(), "bin", &ext) {
        Ok((_, b)) => Some(b),
        Err(_) => None,
    };
    let Some(bin) = bin else {
        // C19's business
        eprintln!("the derives do not compile ordinary structs: derived errors not explored");
        return;
    };
    let pool = Pool::new(|| Command::new(&bin));
    // every member absent, good, or wrong
    let vals: &[&str] = &["", "1", "\"s\"", "null", "[]"];
    let mut cases: Vec<String> = vec![];
    for (n, _, _) in STRUCTS {
        let ks = keys(n);
        let mut i = 0;
        while i < vals.len().pow(ks.len() as u32) {
            let mut r = i;
            let mut m = vec![];
            for k in &ks {
                let v = vals[r % vals.len()];
                r /= vals.len();
                if !v.is_empty() {
                    m.push(format!("{}:{}", js(k), if *k == "n" && v == "1" { "{\"a\":1}" } else { v }));
                }
            }
            cases.push(format!("{} {{{}}}", n, m.join(",")));
            i += 1;
        }
        for d in ["null", "true", "7", "\"s\"", "[]", "[{}]"] {
            cases.push(format!("{} {}", n, d));
        }
        cases.push(format!("{} {{\"n\":{{}},\"b\":1}}", n));
        cases.push(format!("{} {{\"n\":{{\"b\":1}},\"b\":1}}", n));
    }
    run.family(
        "derived",
        "six structs that derive JsonDecode x every object in which each member is absent, a number, a string, null or an array, and documents of every other kind: MissingKey names an absent key, ConvertError the kind met and the type",
        cases.len() as u64,
        |i, o| {
            o.extend_from_slice(cases[i as usize].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| {
            let (n, d) = st(p).split_once(' ').unwrap();
            let got = pool.ask(st(p))?;
            t.calls += 1;
            t.validated += 1;
            let doc = rv::parse(d).unwrap();
            let want = wrong_struct(n, &doc);
            let ok = match got.split_once('\u{1}') {
                None => got == "ok" && want.is_empty(),
                Some((text, msg)) => want.iter().any(|(kind, k, n)| {
                    text == format!("{}: {}", kind, msg) && if *kind == "MissingKey" { msg.contains(&format!("\"{}\"", k)) } else { kind_words(msg) == [&k[..]] && words(msg).contains(&&n[..]) }
                }),
            };
            t.out(want.first().map_or("ok", |w| w.0));
            if ok {
                Ok(())
            } else {
                fail("decoding a derived struct reports something that is not wrong", format!("one of {:?}", want), got)
            }
        },
    );
    let _ = rc::exists(&kit.dir);
}
fn keys(n: &str) -> Vec<&'static str> {
    if n == "Nest" {
        vec!["n", "b"]
    } else {
        STRUCTS.iter().find(|s| s.0 == n).unwrap().1.to_vec()
    }
}
/// (kind of error, key or kind met, type)
fn wrong_struct(n: &str, d: &Rv) -> Vec<(&'static str, String, String)> {
    let Rv::Obj(m) = d else { return vec![("ConvertError", d.kind().into(), n.into())] };
    let mut o = vec![];
    for k in keys(n) {
        let Some(v) = m.get(k) else {
            o.push(("MissingKey", k.to_string(), String::new()));
            continue;
        };
        let v = v.last().unwrap();
        match (n, k) {
            ("Nest", "n") => o.extend(wrong_struct("A", v)),
            ("Two", "second") => {
                if !matches!(v, Rv::Null | Rv::Bool(_)) {
                    o.push(("ConvertError", v.kind().into(), "bool".into()))
                }
            }
            ("Keyed", "k{}\u{e9}") => {
                if !matches!(v, Rv::Str(_)) {
                    o.push(("ConvertError", v.kind().into(), "String".into()))
                }
            }
            ("Raw", "x") => match v {
                Rv::Arr(a) => {
                    for x in a.iter().filter(|x| !matches!(x, Rv::Num(_))) {
                        o.push(("ConvertError", x.kind().into(), "u8".into()))
                    }
                }
                _ => o.push(("ConvertError", v.kind().into(), "Vec".into())),
            },
            _ => {
                if !matches!(v, Rv::Num(_)) {
                    o.push(("ConvertError", v.kind().into(), "u8".into()))
                }
            }
        }
    }
    o
}
