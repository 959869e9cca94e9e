//! C22, C23: items built from every combination of the supported syntax, parsed by
//! json_parse inside rustc; every part, the printed source and every attribute lookup
//! compared with what the generator wrote.
use crate::engine::{fail, Mode, Run, Tally};
use crate::quote::PRELUDE;
use crate::rc::{Kit, Pool};
use std::process::Command;

/// A piece of source, the parts it must be parsed into, and how it is printed.
/// Parts are `tag \x03 text \x02`; the text of a tag starting with '~' is compared by tokens.
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    src: String,
    dump: String,
    print: String,
}
fn en(tag: &str, text: impl ToString) -> String {
    format!("{}\x03{}\x02", tag, text.to_string())
}
fn same(src: impl ToString, dump: String) -> P {
    P { src: src.to_string(), dump, print: src.to_string() }
}

// ---------------------------------------------------------------- types

#[derive(Clone, Debug)]
pub struct Ty {
    pub src: String,
    /// reference, lifetime, mut, dyn, impl
    flags: (bool, &'static str, bool, bool, bool),
    names: Vec<String>,
}
fn name(prefixes: &[&str], ident: &str, args: &[String]) -> String {
    let mut o = en("name", prefixes.len());
    for p in prefixes {
        o.push_str(&en("~prefix", p));
    }
    o.push_str(&en("~ident", ident));
    o.push_str(&en("args", args.len()));
    o.push_str(&args.concat());
    o
}
fn ty_dump(assoc: &str, t: &Ty) -> String {
    let f = &t.flags;
    format!("{}{}{}{}{}", en("~assoc", assoc), en("type", format!("{} {} {} {}", f.0, f.2, f.3, f.4)), en("~lifetime", f.1), en("names", t.names.len()), t.names.concat())
}
impl Ty {
    fn d(&self) -> String {
        ty_dump("", self)
    }
    fn path(prefixes: &[&str], ident: &str, args: &[(&str, String)]) -> Ty {
        let mut src = String::new();
        for p in prefixes {
            src.push_str(p);
            src.push_str("::");
        }
        src.push_str(ident);
        if !args.is_empty() {
            src.push_str(&format!("<{}>", args.iter().map(|x| x.0).collect::<Vec<_>>().join(", ")));
        }
        Ty { src, flags: (false, "", false, false, false), names: vec![name(prefixes, ident, &args.iter().map(|x| x.1.clone()).collect::<Vec<_>>())] }
    }
    /// a type that is one name made of its tokens: tuples, arrays, slices, functions
    pub fn text(s: String) -> Ty {
        Ty { names: vec![name(&[], &s, &[])], src: s, flags: (false, "", false, false, false) }
    }
    fn plain(&self) -> bool {
        !self.flags.0 && !self.flags.3 && !self.flags.4
    }
}
fn lifetime(l: &str) -> String {
    ty_dump("", &Ty { src: l.into(), flags: (false, "", false, false, false), names: vec![name(&[], l, &[])] })
}

fn leaves() -> Vec<Ty> {
    vec![
        Ty::path(&[], "u8", &[]),
        Ty::path(&["a"], "B", &[]),
        Ty::path(&[], "Self", &[]),
        Ty::path(&["Self"], "Item", &[]),
        Ty::path(&["", "std", "string"], "String", &[]),
        Ty::path(&["crate", "x"], "r#type", &[]),
        Ty::text("()".into()),
        Ty::path(&[], "\u{e9}t", &[]),
    ]
}
const WRAPS: usize = 48;
/// Type form number `i` around `t`, if it applies.
fn wrap(i: usize, t: &Ty) -> Option<Ty> {
    let s = &t.src;
    // several bounds in a return type need parentheses
    let r = &if t.names.len() > 1 { format!("({})", s) } else { s.clone() };
    let u8d = || ("u8", Ty::path(&[], "u8", &[]).d());
    let lit = |x: &'static str| (x, Ty::text(x.into()).d());
    let arg = || (&s[..], t.d());
    let lt = |x: &'static str| (x, lifetime(x));
    let re = |l: &'static str, m: bool| {
        if !t.plain() {
            return None;
        }
        Some(Ty { src: format!("&{} {}{}", l, if m { "mut " } else { "" }, s), flags: (true, l, m, false, false), names: t.names.clone() })
    };
    let many = |dy: bool, names: Vec<(String, String)>| {
        let src = format!("{} {}", if dy { "dyn" } else { "impl" }, names.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(" + "));
        Some(Ty { src, flags: (false, "", false, dy, !dy), names: names.into_iter().map(|x| x.1).collect() })
    };
    let tr = |p: &[&str], n: &str, a: &[(&str, String)]| {
        let t = Ty::path(p, n, a);
        (t.src.clone(), t.names[0].clone())
    };
    let text = |x: String| (x.clone(), name(&[], &x, &[]));
    Some(match i {
        0 => Ty::path(&[], "Vec", &[arg()]),
        1 => Ty::path(&[], "Map", &[u8d(), arg()]),
        2 => Ty::path(&[], "Map", &[arg(), u8d()]),
        3 => Ty::path(&[], "R", &[lt("'a"), arg()]),
        4 => Ty::path(&[], "R", &[lt("'a"), lt("'_"), lt("'static")]),
        5 => {
            let src = format!("It<Item = {}>", s);
            Ty { names: vec![name(&[], "It", &[ty_dump("Item", t)])], src, flags: (false, "", false, false, false) }
        }
        6 => {
            let src = format!("a::It<{}, Item = {}, r#type=u8>", s, s);
            Ty { names: vec![name(&["a"], "It", &[t.d(), ty_dump("Item", t), ty_dump("r#type", &Ty::path(&[], "u8", &[]))])], src, flags: (false, "", false, false, false) }
        }
        7 => Ty::path(&["a", "b"], "C", &[arg()]),
        8 => return re("", false),
        9 => return re("", true),
        10 => return re("'a", false),
        11 => return re("'a", true),
        12 => return re("'static", false),
        13 => return re("'_", true),
        14 => Ty::text(format!("({},)", s)),
        15 => Ty::text(format!("({}, u8)", s)),
        16 => Ty::text(format!("(u8, {}, {})", s, s)),
        17 => Ty::text(format!("[{}; 3]", s)),
        18 => Ty::text(format!("[{}]", s)),
        19 => Ty::text(format!("[{}; N + {{ 1 }}]", s)),
        20 => Ty::text(format!("fn({})", s)),
        21 => Ty::text(format!("fn({}) -> {}", s, r)),
        22 => Ty::text(format!("fn(x: {}, u8) -> u8", s)),
        23 => Ty::text("fn()".to_string()),
        24 => return many(true, vec![tr(&[], "Tr", &[arg()])]),
        25 => return many(true, vec![tr(&["a"], "Tr", &[arg()]), text("'a".into()), tr(&[], "Send", &[])]),
        26 => return many(true, vec![text(format!("Fn({}) -> {}", s, r)), tr(&[], "Send", &[])]),
        27 => return many(true, vec![text(format!("FnMut({})", s)), text("'static".into())]),
        28 => return many(false, vec![tr(&[], "Tr", &[arg()])]),
        29 => return many(false, vec![tr(&[], "Tr", &[u8d()]), tr(&["b", "c"], "Tr", &[arg()]), text("'a".into())]),
        30 => return many(false, vec![text(format!("FnOnce({}, u8) -> {}", s, r))]),
        31 => return many(false, vec![tr(&[], "Sync", &[]), text(format!("Fn() -> {}", r)), tr(&[], "Send", &[])]),
        32 => Ty::path(&[], "G", &[arg(), lit("3")]),
        33 => Ty::path(&[], "G", &[lit("'c'"), arg()]),
        34 => Ty::path(&[], "G", &[lit("true"), arg(), lit("\"s\"")]),
        35 => Ty::path(&[&format!("V<{}>", s)], "Item", &[]),
        36 => Ty::path(&[&format!("V<{}>", s), "m"], "Item", &[arg()]),
        37 => Ty::text(format!("(&'a dyn X, *const {})", s)),
        38 => Ty::text(format!("[&&{}]", s)),
        39 => Ty::path(&[], "Option", &[("&'a u8", re_dump("'a", false)), arg()]),
        40 => Ty::path(&["", "std"], "Result", &[arg(), ("&mut u8", re_dump("", true))]),
        41 => Ty::path(&[], "Box", &[("dyn X + 'a", many(true, vec![tr(&[], "X", &[]), text("'a".into())]).unwrap().d()), arg()]),
        42 => Ty::path(&[], "Box", &[("dyn Fn(u8) -> u8", many(true, vec![text("Fn(u8) -> u8".into())]).unwrap().d()), arg()]),
        43 => Ty::text(format!("(({}),)", s)),
        44 => Ty::path(&[], "fn_", &[arg()]),
        45 => Ty::path(&[], "dyn_", &[arg(), arg(), arg()]),
        46 => many(true, vec![tr(&[], "It", &[arg()]), text("FnMut(u8) -> (u8, u8)".into())]).unwrap(),
        47 => Ty::path(&["std", "ops"], "X", &[("fn(u8) -> u8", Ty::text("fn(u8) -> u8".into()).d()), arg()]),
        _ => return None,
    })
}
fn re_dump(l: &'static str, m: bool) -> String {
    ty_dump("", &Ty { src: String::new(), flags: (true, l, m, false, false), names: vec![name(&[], "u8", &[])] })
}
pub fn wrapped(over: &[Ty]) -> Vec<Ty> {
    let mut v: Vec<Ty> = vec![];
    for t in over {
        for i in 0..WRAPS {
            if let Some(w) = wrap(i, t) {
                // forms that do not depend on t appear once
                if (i != 4 && i != 23) || t.src == over[0].src {
                    v.push(w);
                }
            }
        }
    }
    v
}
fn tp(t: &Ty) -> P {
    same(&t.src, t.d())
}

// ---------------------------------------------------------------- attributes

#[derive(Clone, Debug, PartialEq)]
pub struct Li {
    src: &'static str,
    kind: &'static str,
    val: &'static str,
}
pub const LITS: &[Li] = &[
    Li { src: "\"s\"", kind: "string", val: "s" },
    Li { src: "1", kind: "int", val: "1" },
    Li { src: "1.5", kind: "float", val: "1.5" },
    Li { src: "true", kind: "bool", val: "true" },
    Li { src: "b\"by\"", kind: "bytes", val: "[98, 121]" },
    Li { src: "-2", kind: "int", val: "-2" },
    Li { src: "-1.5", kind: "float", val: "-1.5" },
    Li { src: "\"\"", kind: "string", val: "" },
    Li { src: "\"a b\"", kind: "string", val: "a b" },
    Li { src: "\"\\\"\"", kind: "string", val: "\\\"" },
    Li { src: "\"a\\\"b\\\"\"", kind: "string", val: "a\\\"b\\\"" },
    Li { src: "\"\u{e9}\u{1f600}\"", kind: "string", val: "\u{e9}\u{1f600}" },
    Li { src: "\"r#\"", kind: "string", val: "r#" },
    Li { src: "\"'\"", kind: "string", val: "'" },
    Li { src: "\"b'\"", kind: "string", val: "b'" },
    Li { src: "\"1u8\"", kind: "string", val: "1u8" },
    Li { src: "\"true\"", kind: "string", val: "true" },
    Li { src: "r\"raw\"", kind: "string", val: "raw" },
    Li { src: "r\"\"", kind: "string", val: "" },
    Li { src: "r\"a\\\"", kind: "string", val: "a\\" },
    Li { src: "r#\"q\"q\"#", kind: "string", val: "q\"q" },
    Li { src: "r#\"\"\"#", kind: "string", val: "\"" },
    Li { src: "r#\"\"#", kind: "string", val: "" },
    Li { src: "r##\"x\"#y\"##", kind: "string", val: "x\"#y" },
    Li { src: "r##\"\"#\"##", kind: "string", val: "\"#" },
    Li { src: "b\"\"", kind: "bytes", val: "[]" },
    Li { src: "b\"\\\"\"", kind: "bytes", val: "[92, 34]" },
    Li { src: "b'x'", kind: "bytes", val: "[120]" },
    Li { src: "b'\\''", kind: "bytes", val: "[92, 39]" },
    Li { src: "br\"a\"", kind: "bytes", val: "[97]" },
    Li { src: "br#\"a\"b\"#", kind: "bytes", val: "[97, 34, 98]" },
    Li { src: "br##\"\"#\"##", kind: "bytes", val: "[34, 35]" },
    Li { src: "0", kind: "int", val: "0" },
    Li { src: "00", kind: "int", val: "0" },
    Li { src: "2147483647", kind: "int", val: "2147483647" },
    Li { src: "-2147483647", kind: "int", val: "-2147483647" },
    Li { src: "7u8", kind: "int", val: "7" },
    Li { src: "8i8", kind: "int", val: "8" },
    Li { src: "16u16", kind: "int", val: "16" },
    Li { src: "16i16", kind: "int", val: "16" },
    Li { src: "32u32", kind: "int", val: "32" },
    Li { src: "32i32", kind: "int", val: "32" },
    Li { src: "-64i64", kind: "int", val: "-64" },
    Li { src: "64u64", kind: "int", val: "64" },
    Li { src: "128i128", kind: "int", val: "128" },
    Li { src: "128u128", kind: "int", val: "128" },
    Li { src: "3usize", kind: "int", val: "3" },
    Li { src: "-3isize", kind: "int", val: "-3" },
    Li { src: "0.0", kind: "float", val: "0.0" },
    Li { src: "-0.0", kind: "float", val: "-0.0" },
    Li { src: "2.", kind: "float", val: "2.0" },
    Li { src: "1e3", kind: "float", val: "1000.0" },
    Li { src: "1.25E-2", kind: "float", val: "0.0125" },
    Li { src: "3.5f32", kind: "float", val: "3.5" },
    Li { src: "-3.5f64", kind: "float", val: "-3.5" },
    Li { src: "4f32", kind: "float", val: "4.0" },
    Li { src: "4f64", kind: "float", val: "4.0" },
    Li { src: "1e400", kind: "float", val: "inf" },
    Li { src: "4294967296", kind: "float", val: "4294967296.0" },
    Li { src: "false", kind: "bool", val: "false" },
    Li { src: "0x1F", kind: "int", val: "31" },
    Li { src: "0xfFu8", kind: "int", val: "255" },
    Li { src: "-0x8_0i8", kind: "int", val: "-128" },
    Li { src: "0x1f32", kind: "int", val: "7986" },
    Li { src: "0b1_01usize", kind: "int", val: "5" },
    Li { src: "-0o17", kind: "int", val: "-15" },
    Li { src: "0o7_7_isize", kind: "int", val: "63" },
    Li { src: "1_000", kind: "int", val: "1000" },
    Li { src: "-1__0_u64", kind: "int", val: "-10" },
    Li { src: "1_0.2_5", kind: "float", val: "10.25" },
    Li { src: "1e1_0f64", kind: "float", val: "10000000000.0" },
    Li { src: "-2_f32", kind: "float", val: "-2.0" },
    Li { src: "'c'", kind: "other", val: "'c'" },
    Li { src: "'\\''", kind: "other", val: "'\\''" },
    Li { src: "'\"'", kind: "other", val: "'\"'" },
    Li { src: "c\"x\"", kind: "other", val: "c\"x\"" },
    Li { src: "5000000000u64", kind: "other", val: "5000000000u64" },
    Li { src: "-5000000000i64", kind: "other", val: "-5000000000i64" },
    Li { src: "0xFFFF_FFFF", kind: "other", val: "0xFFFF_FFFF" },
    Li { src: "-0xFFFF_FFFF", kind: "other", val: "-0xFFFF_FFFF" },
];
impl Li {
    fn dump(&self) -> String {
        format!("{}{}", en("lit", format!("{}={}", self.kind, self.val)), en("~raw", self.src))
    }
}

/// Integers and floats: base, size, underscores, sign, suffix.
fn number_forms() -> Vec<&'static Li> {
    let mut out: Vec<(String, &'static str, String)> = vec![];
    let ints: Vec<i64> = {
        let mut v: Vec<i64> = (0..17).collect();
        for k in 4..32 {
            v.extend([(1i64 << k) - 1, 1 << k, (1 << k) + 1]);
        }
        v.extend([99, 100, 999, 1000, 1000000, 1999999999]);
        v.retain(|x| *x <= i32::MAX as i64);
        v.sort();
        v.dedup();
        v
    };
    let kinds = ["", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize"];
    for (i, n) in ints.iter().enumerate() {
        for (b, digits) in [format!("{}", n), format!("0x{:x}", n), format!("0x{:X}", n), format!("0o{:o}", n), format!("0b{:b}", n)].into_iter().enumerate() {
            // every suffix on the small ones, one in turn on the rest
            for (j, k) in kinds.iter().enumerate() {
                if i > 20 && j != 0 && j != (i + b) % kinds.len() {
                    continue;
                }
                for (neg, gap) in [("", 0), ("-", 0), ("", 1), ("-", 2)] {
                    let d = match gap {
                        0 => digits.clone(),
                        1 => format!("{}_", digits),
                        _ => {
                            let at = if b == 0 { 1 } else { 3 };
                            format!("{}__{}", &digits[..at], &digits[at..])
                        }
                    };
                    out.push((format!("{}{}{}", neg, d, k), "int", if neg == "-" { -n } else { *n }.to_string()));
                }
            }
        }
    }
    for whole in ["0", "1", "7", "10", "007", "1_0", "123456789", "4294967296"] {
        for frac in ["", ".0", ".5", ".25", ".000001", ".1_2"] {
            for exp in ["", "e0", "e3", "E+2", "e-2", "E1_0", "e-1_0"] {
                for suffix in ["", "f32", "f64"] {
                    if frac.is_empty() && exp.is_empty() && suffix.is_empty() {
                        continue;
                    }
                    let text = format!("{}{}{}", whole, frac, exp);
                    let v: f64 = text.replace('_', "").parse().unwrap();
                    out.push((format!("{}{}", text, suffix), "float", format!("{:?}", v)));
                    out.push((format!("-{}{}", text, suffix), "float", format!("{:?}", -v)));
                }
            }
        }
    }
    out.into_iter().map(|(a, k, v)| &*Box::leak(Box::new(Li { src: leak(a), kind: k, val: leak(v) }))).collect()
}
/// Strings and byte strings: every ASCII character, alone, first, last and doubled; lengths.
fn text_forms() -> Vec<&'static Li> {
    let mut out: Vec<(String, &'static str, String)> = vec![];
    let bytes = |s: &str| format!("{:?}", s.as_bytes());
    let mut add = |plain: &str, escaped: &str| {
        out.push((format!("\"{}\"", escaped), "string", escaped.to_string()));
        out.push((format!("r##\"{}\"##", plain), "string", plain.to_string()));
        if plain.is_ascii() {
            out.push((format!("b\"{}\"", escaped), "bytes", bytes(escaped)));
            out.push((format!("br##\"{}\"##", plain), "bytes", bytes(plain)));
            if plain.len() == 1 {
                out.push((format!("b'{}'", escaped.replace('\'', "\\'").replace("\\\"", "\"")), "bytes", bytes(&escaped.replace('\'', "\\'").replace("\\\"", "\""))));
            }
        }
    };
    for c in ' '..='~' {
        let e = if c == '"' || c == '\\' { format!("\\{}", c) } else { c.to_string() };
        add(&c.to_string(), &e);
        add(&format!("{}{}", c, c), &format!("{}{}", e, e));
        add(&format!("{}x", c), &format!("{}x", e));
        add(&format!("x{}", c), &format!("x{}", e));
    }
    for n in (2..70).chain([127, 128, 129, 255, 256, 257, 300]) {
        for unit in ["k", "\u{e9}", "k "] {
            add(&unit.repeat(n), &unit.repeat(n));
        }
    }
    for e in ["\\n", "\\t", "\\0", "\\\\", "\\'", "\\x41", "\\u{41}"] {
        for s in [e.to_string(), format!("a{}b", e), format!("{}{}", e, e)] {
            out.push((format!("\"{}\"", s), "string", s.clone()));
        }
    }
    out.into_iter().map(|(a, k, v)| &*Box::leak(Box::new(Li { src: leak(a), kind: k, val: leak(v) }))).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum At {
    W(&'static str),
    L(&'static Li),
    /// name, '=' or ':', value
    Kv(&'static str, char, &'static Li),
    G(&'static str, Vec<At>),
}
use At::*;
fn at_src(a: &At, o: &mut String) {
    match a {
        W(n) => o.push_str(n),
        L(l) => o.push_str(l.src),
        Kv(n, e, l) => o.push_str(&format!("{} {} {}", n, e, l.src)),
        G(n, v) => {
            o.push_str(n);
            o.push('(');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                at_src(x, o);
            }
            o.push(')');
        }
    }
}
fn at_dump(a: &At) -> String {
    match a {
        W(n) => en("word", n),
        L(l) => format!("{}{}", en("literal", ""), l.dump()),
        Kv(n, e, l) => format!("{}{}", en("pair", format!("{} {}", n, e)), l.dump()),
        G(n, v) => format!("{}{}", en("group", n), meta_dump(v)),
    }
}
fn meta_dump(v: &[At]) -> String {
    let mut o = en("meta", v.len());
    for x in v {
        o.push_str(&at_dump(x));
    }
    o
}
fn attrs(v: &[At]) -> P {
    let mut src = String::new();
    for a in v {
        src.push_str("#[");
        at_src(a, &mut src);
        src.push_str("] ");
    }
    same(src, if v.is_empty() { en("meta", "none") } else { meta_dump(v) })
}
fn lit(s: &str) -> &'static Li {
    LITS.iter().find(|l| l.src == s).unwrap()
}

// ---------------------------------------------------------------- the parts of items

fn vises() -> Vec<P> {
    let mut v = vec![same("", en("vis", "none")), same("pub", en("vis", "pub"))];
    for s in ["crate", "self", "super", "in a", "in crate::b::c"] {
        v.push(same(format!("pub({})", s), format!("{}{}", en("vis", "scoped"), en("~scope", s))));
    }
    v
}
fn idents() -> Vec<P> {
    ["A", "r#type", "_a1", "\u{e9}", "structx", "pubb", "wherever", "fn_"].iter().map(|x| same(x, en("ident", x))).collect()
}

/// bounds: source, kind, name
fn bounds(full: bool) -> Vec<(String, char, String)> {
    let t = |p: &[&str], n: &str, a: &[(&str, String)]| {
        let t = Ty::path(p, n, a);
        (t.src.clone(), 't', t.names[0].clone())
    };
    let u = || ("u8", Ty::path(&[], "u8", &[]).d());
    let mut v = vec![t(&[], "X", &[]), ("'a".to_string(), 'l', name(&[], "'a", &[])), ("?Sized".into(), 's', String::new()), t(&["a", "b"], "Y", &[u()]), ("Fn(u8, T) -> u8".into(), 't', name(&[], "Fn(u8, T) -> u8", &[]))];
    if full {
        v.push(("'static".into(), 'l', name(&[], "'static", &[])));
        v.push((" It<Item = u8>".into(), 't', name(&[], "It", &[ty_dump("Item", &Ty::path(&[], "u8", &[]))])));
        v.push(("FnOnce()".into(), 't', name(&[], "FnOnce()", &[])));
        v.push(t(&["", "std", "fmt"], "Debug", &[]));
        v.push(t(&[], "Z", &[u(), ("'b", lifetime("'b"))]));
        v.push(("std::ops::FnMut(&'a u8)".into(), 't', name(&["std", "ops"], "FnMut(&'a u8)", &[])));
    }
    v
}
/// One generic parameter (or where predicate): name, bounds, default.
fn param(id: &str, bs: &[&(String, char, String)], default: Option<&Ty>) -> P {
    let pick = |k: char| bs.iter().filter(|b| b.1 == k).map(|b| b.0.clone()).collect::<Vec<_>>();
    let mut p = P { src: id.to_string(), dump: String::new(), print: id.to_string() };
    if !bs.is_empty() {
        p.src.push_str(": ");
        p.src.push_str(&bs.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join(" + "));
        p.print.push_str(": ");
        p.print.push_str(&[pick('t'), pick('l'), pick('s')].concat().join(" + "));
    }
    p.dump = en("~param", id);
    p.dump.push_str(&en("is lifetime", id.starts_with('\'')));
    for k in ['t', 'l'] {
        p.dump.push_str(&en("bounds", pick(k).len()));
        for b in bs.iter().filter(|b| b.1 == k) {
            p.dump.push_str(&b.2);
        }
    }
    p.dump.push_str(&en("sized", pick('s').is_empty()));
    match default {
        Some(t) => {
            p.src.push_str(&format!(" = {}", t.src));
            p.print.push_str(&format!(" = {}", t.src));
            p.dump.push_str(&en("default", "some"));
            p.dump.push_str(&t.d());
        }
        None => p.dump.push_str(&en("default", "none")),
    }
    p
}
fn join(ps: &[&P], sep: &str, f: impl Fn(&P) -> &String) -> String {
    ps.iter().map(|x| f(x).clone()).collect::<Vec<_>>().join(sep)
}
/// `<...>` or `where ...` of some parameters
fn generics(ps: &[&P], whr: bool, trailing: bool) -> P {
    let (a, b) = if whr { ("where ", "") } else { ("<", ">") };
    let ids: Vec<String> = ps.iter().map(|p| p.dump.split('\x02').next().unwrap().trim_start_matches("~param\x03").trim_start_matches("const ").to_string()).collect();
    P {
        src: format!("{}{}{}{}", a, join(ps, ", ", |x| &x.src), if trailing { "," } else { "" }, b),
        dump: format!("{}{}{}", en(if whr { "where" } else { "generics" }, ps.len()), join(ps, "", |x| &x.dump), if whr { String::new() } else { en("~idents", format!("<{}>", ids.join(", "))) }),
        print: format!("{}{}{}", a, join(ps, ", ", |x| &x.print), b),
    }
}
fn params_of(full: bool, whr: bool) -> Vec<P> {
    let bs = bounds(full);
    let ls: Vec<(String, char, String)> = [("'b", 'l'), ("'c", 'l')].iter().map(|x| (x.0.to_string(), x.1, name(&[], x.0, &[]))).collect();
    let mut v = vec![];
    if !whr {
        v.push(param("'a", &[], None));
        v.push(param("T", &[], None));
        for n in [Ty::path(&[], "usize", &[]), Ty::path(&["a"], "B", &[]), Ty::text("(u8, u8)".into())] {
            v.push(param("const N", &[&(n.src.clone(), 't', n.names[0].clone())], None));
            v.push(param("const N", &[&(n.src.clone(), 't', n.names[0].clone())], Some(&Ty::text("3".into()))));
        }
        v.push(param("T", &[], Some(&leaves()[4])));
        v.push(param("r#T", &[], Some(&wrap(0, &leaves()[0]).unwrap())));
    }
    v.push(param("'a", &[&ls[0]], None));
    v.push(param("'a", &[&ls[0], &ls[1]], None));
    v.push(param("'static", &[&ls[0]], None));
    // ?Sized, a lifetime or a trait with arguments anywhere among n simple traits
    let plain: Vec<(String, char, String)> = ["P", "Q", "R", "S", "V"].iter().map(|n| (n.to_string(), 't', Ty::path(&[], n, &[]).names[0].clone())).collect();
    for n in 2..=5 {
        for at in 0..=n {
            for odd in &bs {
                let mut l: Vec<&(String, char, String)> = plain.iter().take(n).collect();
                l.insert(at, odd);
                v.push(param("T", &l, None));
                for at2 in 0..l.len() + 1 {
                    let mut m = l.clone();
                    m.insert(at2, &ls[0]);
                    v.push(param("T", &m, None));
                }
            }
        }
    }
    for a in &bs {
        v.push(param("T", &[a], None));
        if !whr {
            v.push(param("T", &[a], Some(&leaves()[1])));
        }
        for b in &bs {
            if a.1 == 's' && b.1 == 's' {
                continue;
            }
            v.push(param("T", &[a, b], None));
            if full {
                v.push(param("U", &[a, b], (!whr).then(|| leaves()[6].clone()).as_ref()));
                for c in bs[..5].iter().filter(|c| c.1 != 's' || (a.1 != 's' && b.1 != 's')) {
                    v.push(param("T", &[a, b, c], None));
                }
            }
        }
    }
    v
}

fn typed_field(meta: &P, vis: &P, id: &P, t: &P) -> P {
    let f = |m: &String, v: &String, i: &String, t: &String| format!("{} {} {}: {}", m, v, i, t);
    P { src: f(&meta.src, &vis.src, &id.src, &t.src), dump: [&meta.dump[..], &vis.dump, &id.dump, &t.dump].concat(), print: f(&meta.print, &vis.print, &id.print, &t.print) }
}
fn tuple_field(meta: &P, vis: &P, t: &P) -> P {
    let f = |m: &String, v: &String, t: &String| format!("{} {} {}", m, v, t);
    P { src: f(&meta.src, &vis.src, &t.src), dump: [&meta.dump[..], &vis.dump, &t.dump].concat(), print: f(&meta.print, &vis.print, &t.print) }
}
fn variant(meta: &P, id: &P, fields: &P, disc: Option<&str>) -> P {
    let d = |x: &String| format!("{} {} {}{}", meta.src, id.src, x, disc.map_or(String::new(), |d| format!(" = {}", d)));
    P { src: d(&fields.src), dump: format!("{}{}{}{}", meta.dump, id.dump, fields.dump, en("disc", disc.unwrap_or("none"))), print: d(&fields.print) }
}
/// `(...)`, `{...}` of some items
fn list(tag: &str, br: (&str, &str), ps: &[&P], trailing: bool, positions: bool) -> P {
    let t = if trailing { "," } else { "" };
    let mut dump = en(tag, ps.len());
    for (i, p) in ps.iter().enumerate() {
        if positions {
            dump.push_str(&en("pos", i));
        }
        dump.push_str(&p.dump);
    }
    P { src: format!("{} {}{} {}", br.0, join(ps, ", ", |x| &x.src), t, br.1), dump, print: format!("{} {} {}", br.0, join(ps, ", ", |x| &x.print), br.1) }
}
fn none_fields() -> P {
    P { src: String::new(), dump: en("no fields", ""), print: String::new() }
}
fn named(ps: &[&P], t: bool) -> P {
    list("named fields", ("{", "}"), ps, t, false)
}
fn tuple(ps: &[&P], t: bool) -> P {
    list("tuple fields", ("(", ")"), ps, t, true)
}
fn fn_param(id: Option<&str>, t: &P, text: &str) -> P {
    P { src: text.to_string(), dump: format!("{}{}", en("~fn param", id.unwrap_or("-")), t.dump), print: text.to_string() }
}
fn fn_params(ps: &[&P], t: bool) -> P {
    list("params", ("(", ")"), ps, t, false)
}

/// The lists of up to `n` of `v`, with and without a trailing comma.
fn lists(v: &[P], n: usize, mk: &dyn Fn(&[&P], bool) -> P, min: usize) -> Vec<P> {
    let mut out = vec![];
    for k in min..=n {
        for i in 0..v.len().pow(k as u32) {
            let mut r = i;
            let mut ps = vec![];
            for _ in 0..k {
                ps.push(&v[r % v.len()]);
                r /= v.len();
            }
            out.push(mk(&ps, false));
            if k > 0 {
                out.push(mk(&ps, true));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- items

/// A kind of item: its slots and how they make an item.
struct Kind {
    tag: &'static str,
    slots: Vec<Vec<P>>,
    build: fn(&[&P]) -> P,
}
fn b_struct(s: &[&P]) -> P {
    let f = |g: &dyn Fn(&P) -> String, tuple: bool, unit: bool| {
        let (w, fs) = (g(s[4]), g(s[5]));
        let tail = if unit { format!("{} ;", w) } else if tuple { format!("{} {} ;", fs, w) } else { format!("{} {}", w, fs) };
        format!("{} {} struct {} {} {}", g(s[0]), g(s[1]), g(s[2]), g(s[3]), tail)
    };
    let (tuple, unit) = (s[5].dump.starts_with("tuple"), s[5].dump.starts_with("no "));
    P { src: f(&|p| p.src.clone(), tuple, unit), dump: format!("{}{}", en("item", "struct"), join(s, "", |p| &p.dump)), print: f(&|p| p.print.clone(), tuple, unit) }
}
fn b_enum(s: &[&P]) -> P {
    let f = |g: &dyn Fn(&P) -> String| format!("{} {} enum {} {} {} {}", g(s[0]), g(s[1]), g(s[2]), g(s[3]), g(s[4]), g(s[5]));
    P { src: f(&|p| p.src.clone()), dump: format!("{}{}", en("item", "enum"), join(s, "", |p| &p.dump)), print: f(&|p| p.print.clone()) }
}
fn b_fn(s: &[&P]) -> P {
    // meta vis quals ident generics params ret where body
    let f = |g: &dyn Fn(&P) -> String| format!("{} {} {} fn {} {} {} {} {} {}", g(s[0]), g(s[1]), g(s[2]), g(s[3]), g(s[4]), g(s[5]), g(s[6]), g(s[7]), g(s[8]));
    P { src: f(&|p| p.src.clone()), dump: format!("{}{}", en("item", "fn"), join(s, "", |p| &p.dump)), print: f(&|p| p.print.clone()) }
}
fn no_generics() -> P {
    same("", en("generics", "none"))
}
fn no_where() -> P {
    same("", en("where", "none"))
}

fn attr_items(full: bool) -> Vec<At> {
    let mut v = vec![
        W("a"), Kv("key", '=', lit("\"s\"")), G("g", vec![W("x"), Kv("k", '=', lit("1")), L(lit("\"s\"")), G("h", vec![W("y")])]),
        W("a::b"), Kv("x::y", '=', lit("-2")), G("p::q", vec![W("a::b"), Kv("c::d", ':', lit("true"))]), L(lit("-1.5")), G("cfg", vec![]),
    ];
    if full {
        v.extend([W("r#type"), L(lit("true")), Kv("key", ':', lit("r#\"q\"q\"#")), G("g", vec![G("h", vec![G("i", vec![L(lit("-2"))])]), W("z")])]);
        v.extend(LITS.iter().map(|l| Kv("k", '=', l)));
        v.extend(LITS.iter().map(L));
        v.extend(LITS.iter().map(|l| G("g", vec![W("a"), Kv("k", ':', l), L(l)])));
    }
    v
}
fn metas(full: bool) -> Vec<P> {
    let one = attr_items(full);
    let two = attr_items(false);
    let mut v = vec![attrs(&[])];
    v.extend(one.iter().map(|a| attrs(std::slice::from_ref(a))));
    for a in &two {
        for b in &two {
            v.push(attrs(&[a.clone(), b.clone()]));
            if full {
                for c in &two[..4] {
                    v.push(attrs(&[a.clone(), b.clone(), c.clone()]));
                }
            }
        }
    }
    // doc comments are attributes
    for (s, n) in [("/// d\n", 1), ("/** e */", 1), ("/// d\n/// e\n", 2)] {
        let one = |t: &str| format!("{}{}{}", en("pair", "doc ="), en("lit", format!("string={}", t)), en("skip", ""));
        let body = if n == 2 { format!("{}{}", one(" d"), one(" e")) } else if s.starts_with("///") { one(" d") } else { one(" e ") };
        v.push(P { src: s.into(), dump: format!("{}{}", en("meta", n), body), print: s.into() });
    }
    v
}

fn fields_of(full: bool) -> Vec<P> {
    let ms = metas(false);
    let vs = vises();
    let ids = idents();
    let ts: Vec<P> = leaves().iter().chain(&wrapped(&leaves()[..2])).map(tp).collect();
    let ms1: Vec<P> = ms.iter().take(9).cloned().chain(ms.iter().rev().take(3).cloned()).collect();
    let mut small: Vec<P> = vec![];
    let mut tsmall: Vec<P> = vec![];
    let mut v = vec![none_fields(), named(&[], false), tuple(&[], false)];
    for m in &ms1 {
        for vis in &vs {
            for id in &ids {
                v.push(named(&[&typed_field(m, vis, id, &ts[0])], false));
            }
            for t in &ts {
                v.push(tuple(&[&tuple_field(m, vis, t)], true));
            }
        }
        for t in &ts {
            v.push(named(&[&typed_field(m, &vs[0], &ids[1], t)], true));
        }
    }
    for vis in &vs {
        for t in &ts {
            v.push(named(&[&typed_field(&ms[1], vis, &ids[0], t)], false));
        }
    }
    for (m, vi, id, t) in [(0, 0, 0, 0), (2, 1, 1, 8), (8, 2, 2, 15), (3, 5, 3, 24), (0, 1, 4, 32), (5, 0, 5, 22)] {
        small.push(typed_field(&ms[m], &vs[vi], &ids[id], &ts[t]));
        tsmall.push(tuple_field(&ms[m], &vs[vi], &ts[t]));
    }
    let n = if full { 4 } else { 3 };
    v.extend(lists(&small, n, &named, 2));
    v.extend(lists(&tsmall, n, &tuple, 2));
    v
}
fn variants_of(full: bool) -> Vec<P> {
    let mk = |ps: &[&P], t: bool| list("variants", ("{", "}"), ps, t, false);
    let ms = metas(false);
    let ids = idents();
    let u8t = tp(&leaves()[0]);
    let vt = tp(&wrap(1, &leaves()[1]).unwrap());
    let f1 = typed_field(&ms[2], &vises()[0], &ids[0], &vt);
    let f2 = typed_field(&ms[0], &vises()[0], &ids[1], &u8t);
    let t1 = tuple_field(&ms[1], &vises()[0], &vt);
    let t2 = tuple_field(&ms[0], &vises()[0], &u8t);
    let fs = vec![none_fields(), named(&[], false), named(&[&f1], false), named(&[&f1, &f2], true), tuple(&[], false), tuple(&[&t1], true), tuple(&[&t2, &t1], false)];
    let mut v = vec![mk(&[], false)];
    let discs = [None, Some("0"), Some("1"), Some("255"), Some("9223372036854775807"), Some("-1"), Some("-9223372036854775807")];
    for m in ms.iter().take(12).chain(ms.iter().rev().take(3)) {
        for id in &ids {
            for f in &fs {
                for d in discs {
                    v.push(mk(&[&variant(m, id, f, d)], false));
                }
            }
        }
    }
    // discriminants of every size
    for k in 0..64u32 {
        for n in [(1i128 << k) - 1, 1 << k, (1 << k) + 1] {
            for d in [n, -n] {
                if d > i64::MAX as i128 || d < -(i64::MAX as i128) {
                    continue;
                }
                let t = if n == 0 && d == 0 { "0".to_string() } else { d.to_string() };
                v.push(mk(&[&variant(&ms[0], &ids[0], &fs[0], Some(&t)), &variant(&ms[0], &ids[1], &fs[3], None)], false));
                v.push(mk(&[&variant(&ms[0], &ids[0], &fs[5], None), &variant(&ms[0], &ids[1], &fs[0], Some(&t))], true));
            }
        }
    }
    let mut small = vec![];
    for (m, i, f, d) in [(0, 0, 0, 0), (1, 1, 5, 0), (2, 2, 3, 0), (3, 3, 0, 2), (0, 4, 6, 0), (0, 5, 2, 1), (8, 6, 0, 5)] {
        small.push(variant(&ms[m], &ids[i], &fs[f], discs[d]));
    }
    v.extend(lists(&small, if full { 4 } else { 3 }, &mk, 2));
    v
}
fn fn_params_of(full: bool) -> Vec<P> {
    let mut ps = vec![];
    let ts: Vec<Ty> = leaves().into_iter().chain(wrapped(&leaves()[..2])).collect();
    let selfs = [("self", (false, "", false)), ("&self", (true, "", false)), ("&mut self", (true, "", true)), ("&'a self", (true, "'a", false)), ("&'a mut self", (true, "'a", true))];
    for (s, f) in selfs {
        let t = Ty { src: s.into(), flags: (f.0, f.1, f.2, false, false), names: vec![name(&[], "self", &[])] };
        ps.push(fn_param(None, &tp(&t), s));
    }
    let typed = |id: &str, t: &Ty| fn_param(Some(id), &tp(t), &format!("{}: {}", id, t.src));
    ps.push(typed("self", &wrap(0, &leaves()[2]).unwrap()));
    let mut out = vec![fn_params(&[], false)];
    for t in &ts {
        for id in ["x", "mut x", "_", "r#in", "mut r#in"] {
            out.push(fn_params(&[&typed(id, t)], false));
        }
        out.push(fn_params(&[&ps[1], &typed("x", t), &typed("y", &ts[3])], true));
    }
    let mut small = vec![typed("x", &ts[0]), typed("mut y", &ts[10]), typed("z", &ts[30]), typed("_", &ts[1])];
    small.extend(ps.iter().cloned());
    out.extend(lists(&small, if full { 3 } else { 2 }, &fn_params, 1));
    out.extend(lists(&small[..4], 3, &fn_params, 3));
    out
}

fn kinds(run: &Run) -> Vec<Kind> {
    let full = run.thorough;
    let gp = params_of(true, false);
    let wp = params_of(true, true);
    let g = |ps: &[&P], t: bool| generics(ps, false, t);
    let w = |ps: &[&P], t: bool| generics(ps, true, t);
    let some = |v: &[P], k: usize| v.iter().step_by((v.len() / k).max(1)).cloned().collect::<Vec<P>>();
    let mut gs = vec![no_generics()];
    gs.extend(lists(&gp, 1, &g, 1));
    gs.extend(lists(&some(&gp, 14), 2, &g, 2));
    gs.extend(lists(&some(&gp, 6), 3, &g, 3));
    let mut ws = vec![no_where()];
    ws.extend(lists(&wp, 1, &w, 1));
    ws.extend(lists(&some(&wp, 12), 2, &w, 2));
    ws.extend(lists(&some(&wp, 5), 3, &w, 3));
    let ms = metas(true);
    let quals: Vec<P> = (0..24)
        .filter_map(|i| {
            let (a, c, u, e) = (i & 1 > 0, i & 2 > 0, i & 4 > 0, i / 8);
            let abi = ["", "extern \"C\"", "extern \"system\""][e];
            if a && c {
                return None;
            }
            let s = [if a { "async" } else { "" }, if c { "const" } else { "" }, if u { "unsafe" } else { "" }, abi].join(" ");
            Some(same(&s, format!("{}{}", en("quals", format!("{} {} {}", a, c, u)), en("~abi", abi.trim_start_matches("extern ")))))
        })
        .collect();
    let mut rets = vec![same("", en("ret", "none"))];
    rets.extend(leaves().iter().chain(&wrapped(&leaves()[..2])).map(|t| P { src: format!("-> {}", t.src), dump: format!("{}{}", en("ret", "some"), t.d()), print: format!("-> {}", t.src) }));
    let bodies: Vec<P> = ["{ }", "{ a; b }", "{ x -> { y } , < ( z ) [ w ] where }", "{ struct S; fn f() {} }"].iter().map(|b| same(b, en("~body", b))).collect();
    vec![
        Kind { tag: "struct", slots: vec![ms.clone(), vises(), idents(), gs.clone(), ws.clone(), fields_of(full)], build: b_struct },
        Kind { tag: "enum", slots: vec![ms.clone(), vises(), idents(), gs.clone(), ws.clone(), variants_of(full)], build: b_enum },
        Kind { tag: "fn", slots: vec![ms, vises(), quals, idents(), gs, fn_params_of(full), rets, ws, bodies], build: b_fn },
    ]
}

// ---------------------------------------------------------------- the program

const PM: &str = r##"
extern crate json_parse;
use json_parse::{*, meta::*, name::*, generic::*, field::*, param::*, enum_value::*};
type D = Vec<(&'static str, String)>;
fn d_name(n: &Name, d: &mut D) {
    d.push(("name", n.prefixes.len().to_string()));
    for p in &n.prefixes { d.push(("~prefix", p.clone())); }
    d.push(("~ident", n.ident.clone()));
    d.push(("args", n.generics.len().to_string()));
    for g in &n.generics { d_type(g, d); }
}
fn d_type(t: &Type, d: &mut D) {
    d.push(("~assoc", t.ident.clone().unwrap_or_default()));
    d.push(("type", format!("{} {} {} {}", t.is_ref, t.is_mut, t.is_dyn, t.is_imp)));
    d.push(("~lifetime", t.lifetime.as_ref().map_or(String::new(), |l| l.to_string())));
    d.push(("names", t.names.len().to_string()));
    for n in &t.names { d_name(n, d); }
}
fn d_lit(l: &Lit, d: &mut D) {
    let (k, v) = match l {
        Lit::Bytes { bytes, .. } => ("bytes", format!("{:?}", bytes)),
        Lit::String { string, .. } => ("string", string.clone()),
        Lit::Integer { integer, .. } => ("int", integer.to_string()),
        Lit::Float { float, .. } => ("float", format!("{:?}", float)),
        Lit::Boolean { boolean, .. } => ("bool", boolean.to_string()),
        _ => ("other", l.to_string()),
    };
    d.push(("lit", format!("{}={}", k, v)));
    d.push(("~raw", l.to_string()));
    let by = [
        l.bytes().map(|b| format!("bytes={:?}", b)), l.string().map(|s| format!("string={}", s)), l.integer().map(|i| format!("int={}", i)),
        l.float().map(|f| format!("float={:?}", f)), l.boolean().map(|b| format!("bool={}", b)),
    ];
    let by: Vec<String> = by.iter().flatten().cloned().collect();
    if k == "other" && !by.is_empty() || k != "other" && by != vec![format!("{}={}", k, v)] { d.push(("accessors disagree", format!("{:?}", by))); }
}
fn d_item(m: &MetaItem, d: &mut D) {
    match m {
        MetaItem::Ident(n) => d.push(("word", n.clone())),
        MetaItem::Literal(l) => { d.push(("literal", String::new())); d_lit(l, d) }
        MetaItem::Pair { key, lit, eq } => { d.push(("pair", format!("{} {}", key, eq))); d_lit(lit, d) }
        MetaItem::Group { ident, inner } => { d.push(("group", ident.clone())); d_metas(inner, d) }
    }
    let by = (m.ident().is_some(), m.literal().is_some(), m.pair().is_some(), m.group().is_some());
    let want = match m {
        MetaItem::Ident(n) => (m.ident() == Some(&n[..]), false, false, false),
        MetaItem::Literal(l) => (false, m.literal().map(|x| x.to_string()) == Some(l.to_string()), false, false),
        MetaItem::Pair { key, lit, .. } => (false, false, m.pair().map(|x| (x.0.to_string(), x.1.to_string())) == Some((key.clone(), lit.to_string())), false),
        MetaItem::Group { ident, inner } => (false, false, false, m.group().map(|x| (x.0.to_string(), x.1.items.len())) == Some((ident.clone(), inner.items.len()))),
    };
    if by != want || [by.0, by.1, by.2, by.3].iter().filter(|x| **x).count() != 1 { d.push(("accessors disagree", format!("{:?}", by))); }
}
fn d_metas(m: &Meta, d: &mut D) {
    d.push(("meta", m.items.len().to_string()));
    for i in &m.items { d_item(i, d); }
}
fn d_meta(m: &Option<Meta>, d: &mut D) {
    match m { None => d.push(("meta", "none".into())), Some(m) => d_metas(m, d) }
}
fn d_vis(v: &Option<Option<String>>, d: &mut D) {
    match v {
        None => d.push(("vis", "none".into())),
        Some(None) => d.push(("vis", "pub".into())),
        Some(Some(s)) => { d.push(("vis", "scoped".into())); d.push(("~scope", s.clone())) }
    }
}
fn d_params(g: &Generics, d: &mut D) {
    for i in &g.items {
        d.push(("~param", i.ident.clone()));
        d.push(("is lifetime", i.is_lifetime().to_string()));
        for b in [&i.traits, &i.lifetimes] {
            d.push(("bounds", b.len().to_string()));
            for n in b { d_name(n, d); }
        }
        d.push(("sized", i.sized.to_string()));
        match &i.default { None => d.push(("default", "none".into())), Some(t) => { d.push(("default", "some".into())); d_type(t, d) } }
    }
}
fn d_generics(g: &Option<Generics>, d: &mut D) {
    match g {
        None => d.push(("generics", "none".into())),
        Some(g) => { d.push(("generics", g.items.len().to_string())); d_params(g, d); d.push(("~idents", g.only_idents())) }
    }
}
fn d_where(g: &Option<WhereClause>, d: &mut D) {
    match g { None => d.push(("where", "none".into())), Some(g) => { d.push(("where", g.items.len().to_string())); d_params(g, d) } }
}
fn d_fields(f: &Fields, d: &mut D) {
    match f {
        Fields::NoFields => d.push(("no fields", String::new())),
        Fields::StructFields(v) => {
            d.push(("named fields", v.len().to_string()));
            for f in v { d_meta(&f.meta, d); d_vis(&f.vis, d); d.push(("ident", f.ident.clone())); d_type(&f.ty, d); }
        }
        Fields::TupleFields(v) => {
            d.push(("tuple fields", v.len().to_string()));
            for f in v { d.push(("pos", f.pos.to_string())); d_meta(&f.meta, d); d_vis(&f.vis, d); d_type(&f.ty, d); }
        }
    }
    let by = (f.name_fields().map(|v| v.len()), f.index_fields().map(|v| v.len()));
    let want = match f { Fields::NoFields => (None, None), Fields::StructFields(v) => (Some(v.len()), None), Fields::TupleFields(v) => (None, Some(v.len())) };
    if by != want { d.push(("accessors disagree", format!("{:?}", by))); }
}
fn d_all(i: &Item, d: &mut D) {
    let by = (i.struct_item().is_some(), i.enum_item().is_some(), i.fn_item().is_some());
    match i {
        Item::Struct(s) => {
            if by != (true, false, false) { d.push(("accessors disagree", format!("{:?}", by))); }
            d.push(("item", "struct".into()));
            d_meta(&s.meta, d); d_vis(&s.vis, d); d.push(("ident", s.ident.clone())); d_generics(&s.generics, d); d_where(&s.where_clause, d); d_fields(&s.fields, d);
        }
        Item::Enum(s) => {
            if by != (false, true, false) { d.push(("accessors disagree", format!("{:?}", by))); }
            d.push(("item", "enum".into()));
            d_meta(&s.meta, d); d_vis(&s.vis, d); d.push(("ident", s.ident.clone())); d_generics(&s.generics, d); d_where(&s.where_clause, d);
            d.push(("variants", s.values.items.len().to_string()));
            for v in &s.values.items {
                d_meta(&v.meta, d); d.push(("ident", v.ident.clone())); d_fields(&v.fields, d);
                d.push(("disc", v.disc.map_or("none".to_string(), |x| x.to_string())));
            }
        }
        Item::Fn(s) => {
            if by != (false, false, true) { d.push(("accessors disagree", format!("{:?}", by))); }
            d.push(("item", "fn".into()));
            d_meta(&s.meta, d); d_vis(&s.vis, d);
            d.push(("quals", format!("{} {} {}", s.asyncness, s.constness, s.unsafety)));
            d.push(("~abi", s.extern_abi.as_ref().map_or(String::new(), |x| x.to_string())));
            d.push(("ident", s.ident.clone())); d_generics(&s.generics, d);
            d.push(("params", s.params.items.len().to_string()));
            for p in &s.params.items { d.push(("~fn param", p.ident.clone().unwrap_or("-".into()))); d_type(&p.ty, d); }
            match &s.return_ty { None => d.push(("ret", "none".into())), Some(t) => { d.push(("ret", "some".into())); d_type(t, d) } }
            d_where(&s.where_clause, d);
            d.push(("~body", s.body.to_string()));
        }
    }
}

// lookups
const FAR: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128];
const NAMES: &[&str] = &["a", "b", "k", "g", "h", "a::b", "r#type", "zz"];
fn q_lit(tag: &'static str, l: Option<&Lit>, d: &mut D) { d.push((tag, l.is_some().to_string())); if let Some(l) = l { d_lit(l, d) } }
fn q_item(tag: &'static str, l: Option<&MetaItem>, d: &mut D) { d.push((tag, l.is_some().to_string())); if let Some(l) = l { d_item(l, d) } }
fn q_meta(tag: &'static str, l: Option<&NestedMeta>, d: &mut D) { d.push((tag, l.is_some().to_string())); if let Some(l) = l { d_metas(l, d); d.push(("~text", format!("({})", l.to_string()))) } }
fn d_look(m: &Meta, d: &mut D) {
    for n in NAMES { q_lit("pair named", m.get(*n), d); }
    for i in FAR {
        let i = *i;
        q_item("position", m.get(i), d);
        if m.get(&i).map(|x| x.to_string()) != m.get(i).map(|x| x.to_string()) { d.push(("position by reference disagrees", i.to_string())); }
    }
    for n in NAMES {
        q_meta("group", m.get((*n, ())), d);
        if m.get((*n, ())).is_none() {
            // then nothing is found inside it either
            if NAMES.iter().any(|x| m.get((*n, *x)).is_some() || m.get((*n, (*x, ()))).is_some()) || (0..4usize).any(|i| m.get((*n, i)).is_some() || m.get((*n, &i)).is_some()) { d.push(("found inside an absent group", n.to_string())); }
            continue;
        }
        for x in NAMES { q_lit("in group, pair named", m.get((*n, *x)), d); }
        for i in FAR {
            let i = *i;
            q_item("in group, position", m.get((*n, i)), d);
            if m.get((*n, &i)).map(|x| x.to_string()) != m.get((*n, i)).map(|x| x.to_string()) { d.push(("position by reference disagrees", i.to_string())); }
        }
        for x in NAMES {
            q_meta("in group, group", m.get((*n, (*x, ()))), d);
            if m.get((*n, (*x, ()))).is_none() {
                if m.get((*n, (*x, 0usize))).is_some() || NAMES.iter().any(|y| m.get((*n, (*x, *y))).is_some()) { d.push(("found inside an absent group", n.to_string())); }
                continue;
            }
            for y in NAMES { q_lit("two groups deep, pair named", m.get((*n, (*x, *y))), d); q_meta("two groups deep, group", m.get((*n, (*x, (*y, ())))), d); }
            for i in 0..3usize { q_item("two groups deep, position", m.get((*n, (*x, i))), d); }
        }
    }
    d_lists(m, d);
}
fn d_lists(m: &Meta, d: &mut D) {
    d.push(("words", m.idents().join(" ")));
    d.push(("literals", m.literals().len().to_string()));
    for l in m.literals() { d_lit(l, d); }
    let mut p: Vec<(&str, &Lit)> = m.pairs().into_iter().collect();
    p.sort_by_key(|x| x.0);
    d.push(("pairs", p.iter().map(|x| x.0).collect::<Vec<_>>().join(" ")));
    for (k, l) in p { if m.items.iter().filter(|x| matches!(x, MetaItem::Pair { key, .. } if key == k)).count() == 1 { d_lit(l, d); } }
    let mut g: Vec<(&str, &NestedMeta)> = m.groups().into_iter().collect();
    g.sort_by_key(|x| x.0);
    d.push(("groups", g.iter().map(|x| x.0).collect::<Vec<_>>().join(" ")));
    for (k, l) in g { if m.items.iter().filter(|x| matches!(x, MetaItem::Group { ident, .. } if ident == k)).count() == 1 { d_metas(l, d); } }
}

fn toks(s: &str) -> std::result::Result<Vec<String>, String> {
    let mut o = vec![];
    match s.parse::<TokenStream>() { Ok(t) => flat(t, &mut o), Err(e) => return Err(format!("{}: {}", e, s)) }
    Ok(o)
}
/// without commas that nothing follows
fn strip(v: Vec<String>) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    for (i, t) in v.iter().enumerate() {
        if t == "p ," {
            match v.get(i + 1).map(|x| &x[..]) { None | Some(")") | Some("}") | Some("]") | Some("{") | Some("p ;") => continue, Some(x) if x.starts_with("p >") => continue, _ => () }
        }
        o.push(t.clone());
    }
    o
}
fn compare(want: &str, d: &D) -> std::result::Result<(), String> {
    let mut w = want.split('\x02').filter(|x| !x.is_empty()).map(|x| x.split_once('\x03').unwrap());
    for (tag, text) in d {
        let (wt, wx) = match w.next() { Some(x) => x, None => return Err(format!("nothing more expected, got {} {:?}", tag, text)) };
        if wt == "skip" { continue; }
        if wt != *tag { return Err(format!("expected {} {:?}, got {} {:?}", wt, wx, tag, text)); }
        let same = if tag.starts_with('~') { wx == text || match (toks(wx), toks(text)) { (Ok(a), Ok(b)) => a == b, _ => false } } else { wx == text };
        if !same { return Err(format!("expected {} {:?}, got {:?}", wt, wx, text)); }
    }
    match w.next() { None => Ok(()), Some((t, x)) => Err(format!("expected {} {:?}, got nothing more", t, x)) }
}
fn meta_at(site: &str, i: &Item) -> Option<(Option<String>, D)> {
    let f = |m: &Option<Meta>| m.as_ref().map(|m| { let mut d = vec![]; d_look(m, &mut d); (Some(m.to_string()), d) });
    let flds = |x: &Fields| match x { Fields::StructFields(v) => f(&v.last()?.meta), Fields::TupleFields(v) => f(&v.last()?.meta), Fields::NoFields => None };
    match (site, i) {
        ("on item", Item::Struct(s)) => f(&s.meta),
        ("on item", Item::Enum(s)) => f(&s.meta),
        ("on item", Item::Fn(s)) => f(&s.meta),
        ("field", Item::Struct(s)) => flds(&s.fields),
        ("variant", Item::Enum(s)) => f(&s.values.items.last()?.meta),
        ("field", Item::Enum(s)) => flds(&s.values.items.last()?.fields),
        _ => None,
    }
}
fn run(what: &str, src: &str, dump: &str, print: &str) -> std::result::Result<(), String> {
    let t: TokenStream = match src.parse() { Ok(t) => t, Err(e) => return Err(format!("harness: {}", e)) };
    let (text, d) = match what {
        // the printed item, whatever it is
        "print" => return Err(match parse::<Item>(t) { Ok(i) => format!("text: {}", i.to_string()), Err(e) => format!("refused: {:?}", e) }),
        "item" => {
            let i = parse::<Item>(t).map_err(|e| format!("not parsed: {:?}", e))?;
            let mut d = vec![];
            d_all(&i, &mut d);
            (i.to_string(), d)
        }
        "look" => {
            let m = parse::<Meta>(t).map_err(|e| format!("not parsed: {:?}", e))?;
            let mut d = vec![];
            d_look(&m, &mut d);
            (m.to_string(), d)
        }
        site => {
            let i = parse::<Item>(t).map_err(|e| format!("not parsed: {:?}", e))?;
            let (t, d) = meta_at(site, &i).ok_or("the attributes are gone")?;
            (t.unwrap(), d)
        }
    };
    compare(dump, &d)?;
    let want = match toks(print) { Ok(w) => strip(w), Err(e) => return Err(format!("harness: {}", e)) };
    let got = strip(toks(&text).map_err(|e| format!("printed source is not made of tokens: {}", e))?);
    if want != got { return Err(format!("printed as: {}", text)); }
    if what == "item" {
        // what is printed is parsed into the same parts
        let i = parse::<Item>(text.parse().unwrap()).map_err(|e| format!("printed source not parsed: {:?}: {}", e, text))?;
        let mut d2 = vec![];
        d_all(&i, &mut d2);
        compare(dump, &d2).map_err(|e| format!("printed as: {}: {}", text, e))?;
    }
    Ok(())
}
#[proc_macro]
pub fn serve(_: TokenStream) -> TokenStream {
    std::panic::set_hook(Box::new(|_| ()));
    let mut out = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = unesc(&l.unwrap());
        let v: Vec<&str> = l.split('\x01').collect();
        let r = std::panic::catch_unwind(|| match run(v[0], v[1], v[2], v[3]) { Ok(()) => "ok".to_string(), Err(e) => e })
            .unwrap_or_else(|e| format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()));
        let r = r.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r");
        out.write_all(format!(">{}\n", r).as_bytes()).unwrap();
        out.flush().unwrap();
    }
    TokenStream::new()
}
"##;

pub struct Prog {
    kit: Kit,
    pm: std::path::PathBuf,
}
impl Prog {
    pub fn new() -> Prog {
        let kit = Kit::new();
        let ext = vec![kit.art("json_parse")];
        let (_, pm) = kit.compile("pm", &["#![allow(warnings)]\n", PRELUDE, PM].concat(), "proc-macro", &ext).unwrap_or_else(|e| panic!("pm: {}", e));
        std::fs::write(kit.dir.join("drv.rs"), "pm::serve!();\nfn main() {}\n").unwrap();
        Prog { kit, pm }
    }
    pub fn command(&self) -> Command {
        let mut c = Command::new("rustc");
        c.args(["--edition", "2021", "--emit", "metadata", "--crate-name", "drv", "-Awarnings", "-o"]).arg(crate::rc::scratch(&self.kit)).arg("--extern").arg(format!("pm={}", self.pm.display())).arg(self.kit.dir.join("drv.rs"));
        c.current_dir(&self.kit.dir).stderr(std::process::Stdio::null());
        c
    }
}
fn payload(what: &str, p: &P) -> Vec<u8> {
    [what, &p.src, &p.dump, &p.print].join("\x01").into_bytes()
}
type Gen<'a> = Box<dyn Fn(u64) -> (String, P) + Sync + 'a>;

fn explore(run: &mut Run, fams: Vec<(String, String, u64, Gen)>) {
    let prog = Prog::new();
    let pool = Pool::new(|| prog.command());
    for (name, desc, n, gen) in fams {
        run.family(
            &name,
            &desc,
            n,
            |i, b| {
                let (w, p) = gen(i);
                b.extend_from_slice(&payload(&w, &p));
                true
            },
            |p| String::from_utf8_lossy(p).split('\x01').nth(1).unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" "),
            |p, t: &mut Tally| {
                let s = String::from_utf8_lossy(p).into_owned();
                t.calls += 1;
                let got = pool.ask(&s)?;
                if got == "ok" {
                    t.validated += 1;
                    return Ok(());
                }
                if got.starts_with("harness") {
                    panic!("source does not lex: {}: {}", s, got);
                }
                let v: Vec<&str> = s.split('\x01').collect();
                if std::env::var("ALL_BAD").is_ok() {
                    eprintln!("BAD {}\n    {}", v[1], got);
                    return Ok(());
                }
                fail(v[1].trim().to_string(), v[3].trim().to_string(), got)
            },
        );
    }
    if run.mode == Mode::Replay {
        return;
    }
}

/// All choices of values for `k` of the slots, the others at their first value.
fn combos(k: &Kind, n: usize) -> Vec<Vec<u16>> {
    let mut out = vec![];
    let m = k.slots.len();
    for mask in 0u32..1 << m {
        if mask.count_ones() as usize != n {
            continue;
        }
        let mut part: Vec<Vec<u16>> = vec![vec![0; m]];
        for s in 0..m {
            if mask >> s & 1 == 1 {
                part = part.into_iter().flat_map(|c| (1..k.slots[s].len()).map(move |v| {
                    let mut c = c.clone();
                    c[s] = v as u16;
                    c
                })).collect();
            }
        }
        out.extend(part);
    }
    out
}
fn thin(k: &Kind, cap: usize) -> Kind {
    Kind {
        tag: k.tag,
        slots: k.slots.iter().map(|s| {
            if s.len() <= cap {
                return s.clone();
            }
            (0..cap).map(|i| s[i * (s.len() - 1) / (cap - 1)].clone()).collect()
        }).collect(),
        build: k.build,
    }
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn ladder(full: bool) -> Vec<usize> {
    (0..=40).chain([48, 63, 64, 65, 100, 127, 128, 129]).chain(if full { vec![255, 256, 257, 400, 513, 1025] } else { vec![] }).collect()
}
/// Items with n of something.
fn counts(full: bool) -> Vec<P> {
    let (ms, vs, ls) = (metas(false), vises(), leaves());
    let (m0, v0, i0) = (attrs(&[]), vs[0].clone(), idents()[0].clone());
    let id = |x: String| same(x.clone(), en("ident", x));
    let st = |g: P, w: P, f: P, m: P| b_struct(&[&m, &v0, &i0, &g, &w, &f]);
    let en_ = |f: P| b_enum(&[&m0, &v0, &i0, &no_generics(), &no_where(), &f]);
    let no_ret = same("", en("ret", "none"));
    let body = same("{ }", en("~body", "{ }"));
    let quals = same("", format!("{}{}", en("quals", "false false false"), en("~abi", "")));
    let fun = |ps: P, r: P| b_fn(&[&m0, &v0, &quals, &i0, &no_generics(), &ps, &r, &no_where(), &body]);
    let one = |t: Ty| st(no_generics(), no_where(), named(&[&typed_field(&m0, &v0, &i0, &tp(&t)), &typed_field(&m0, &v0, &i0, &tp(&ls[0]))], false), m0.clone());
    let mut o = vec![];
    for n in ladder(full) {
        let few = n <= 129;
        let ty = |k: usize| tp(&ls[k % ls.len()]);
        let at = |k: usize| -> At {
            let x = leak(format!("x{}", k));
            match k % 4 {
                0 => W(x),
                1 => Kv(x, '=', &LITS[k % LITS.len()]),
                2 => L(&LITS[k / 4 % LITS.len()]),
                _ => G(x, vec![W(leak(format!("y{}", k))), L(&LITS[k % LITS.len()])]),
            }
        };
        let f: Vec<P> = (0..n).map(|k| typed_field(&ms[k % 7], &vs[k % 5 % vs.len()], &id(format!("f{}", k)), &ty(k))).collect();
        let t: Vec<P> = (0..n).map(|k| tuple_field(&ms[k % 7], &vs[k % 5 % vs.len()], &ty(k))).collect();
        let (f, t): (Vec<&P>, Vec<&P>) = (f.iter().collect(), t.iter().collect());
        for tr in [false, n > 0] {
            o.push(st(no_generics(), no_where(), named(&f, tr), m0.clone()));
            o.push(st(no_generics(), no_where(), tuple(&t, tr), m0.clone()));
            let v: Vec<P> = (0..n).map(|k| variant(&ms[k % 7], &id(format!("V{}", k)), &[none_fields(), tuple(&t[..k.min(3)], false), named(&f[..k.min(2)], false)][k % 3], (k % 4 == 3).then(|| k.to_string()).as_deref())).collect();
            o.push(en_(list("variants", ("{", "}"), &v.iter().collect::<Vec<_>>(), tr, false)));
            let p: Vec<P> = (0..n).map(|k| {
                let x = format!("{}p{}", if k % 3 == 1 { "mut " } else { "" }, k);
                fn_param(Some(&x), &ty(k), &format!("{}: {}", x, ls[k % ls.len()].src))
            }).collect();
            o.push(fun(fn_params(&p.iter().collect::<Vec<_>>(), tr), no_ret.clone()));
        }
        // a long variant, last of two
        o.push(en_(list("variants", ("{", "}"), &[&variant(&m0, &id("B".into()), &tuple(&t, false), Some("1")), &variant(&m0, &id("C".into()), &named(&f, false), None)], true, false)));
        // attributes
        let a: Vec<At> = (0..n).map(at).collect();
        o.push(st(no_generics(), no_where(), none_fields(), attrs(&a)));
        o.push(st(no_generics(), no_where(), named(&[&typed_field(&attrs(&a), &vs[1], &i0, &ty(3))], false), m0.clone()));
        o.push(en_(list("variants", ("{", "}"), &[&variant(&attrs(&[G("g", a.clone()), W("a")]), &i0, &none_fields(), None)], false, false)));
        if n == 0 {
            continue;
        }
        // generics
        let bs = bounds(true);
        let g: Vec<P> = (0..n).map(|k| match k % 5 {
            0 => param(&format!("T{}", k), &[], None),
            1 => param(&format!("T{}", k), &[&bs[k % 2]], None),
            2 => param(&format!("T{}", k), &[&bs[k / 5 % bs.len()]], Some(&ls[k % 4])),
            3 => param(&format!("const N{}", k), &[&("usize".into(), 't', Ty::path(&[], "usize", &[]).names[0].clone())], None),
            _ => param(&format!("'a{}", k), &[], None),
        }).collect();
        let w: Vec<P> = (0..n).map(|k| param(&format!("T{}", k), &[&bs[k % bs.len()], &bs[(k + 1) % bs.len()]], None)).collect();
        o.push(st(generics(&g.iter().collect::<Vec<_>>(), false, false), no_where(), none_fields(), m0.clone()));
        o.push(st(no_generics(), generics(&w.iter().collect::<Vec<_>>(), true, true), none_fields(), m0.clone()));
        o.push(st(generics(&g.iter().collect::<Vec<_>>(), false, true), generics(&w.iter().collect::<Vec<_>>(), true, false), named(&f[..1], false), m0.clone()));
        let b: Vec<(String, char, String)> = (0..n).map(|k| {
            let b = if k % 3 == 1 { format!("'b{}", k) } else { format!("B{}", k) };
            (b.clone(), if k % 3 == 1 { 'l' } else { 't' }, name(&[], &b, &[]))
        }).collect();
        let b: Vec<&(String, char, String)> = b.iter().collect();
        o.push(st(generics(&[&param("T", &b, None), &param("U", &b[..1], None)], false, false), generics(&[&param("T", &b, None)], true, false), none_fields(), m0.clone()));
        // types
        if few {
            let args: Vec<(&str, String)> = (0..n).map(|k| {
                let t = &ls[k % 4];
                (&t.src[..], t.d())
            }).collect();
            o.push(one(Ty::path(&["a"], "V", &args)));
            o.push(fun(fn_params(&[], false), { let t = Ty::path(&[], "V", &args); P { src: format!("-> {}", t.src), dump: format!("{}{}", en("ret", "some"), t.d()), print: format!("-> {}", t.src) } }));
            let seg: Vec<String> = (0..n).map(|k| format!("s{}", k)).collect();
            o.push(one(Ty::path(&seg.iter().map(|x| &x[..]).collect::<Vec<_>>(), "Z", &[("u8", ls[0].d())])));
        }
        if n <= 40 {
            let mut t = ls[0].clone();
            let mut u = ls[1].clone();
            let mut a = vec![W("in")];
            for k in 0..n {
                t = Ty::path(&[], "V", &[(&t.src.clone(), t.d())]);
                u = Ty::path(&["a"], "W", &[("'a", lifetime("'a")), (&u.src.clone(), u.d()), (&ls[0].src, ls[0].d())]);
                a = vec![W(leak(format!("w{}", k))), G("g", a), L(&LITS[1])];
            }
            o.push(one(t));
            o.push(one(u));
            o.push(st(no_generics(), no_where(), none_fields(), attrs(&a)));
        }
    }
    o
}

pub fn c22(run: &mut Run) {
    run.assumptions.push("tokens are compared after putting joint punctuation together by longest match; bounds are printed in the order traits, lifetimes, ?Sized; not part of the language: where clauses on types that are no parameter, for<'a>, &dyn, references to references outside tuples and arrays, !, raw pointers outside tuples and arrays, function pointers with qualifiers, mut self, pattern and attributed parameters, extern without ABI, discriminants that are no decimal literal, explicit Sized bounds, empty <>".into());
    let ks = kinds(run);
    let all = leaves();
    let one = wrapped(&all);
    let two = wrapped(&one);
    let three = if run.thorough { wrapped(&two.iter().step_by(7).cloned().collect::<Vec<_>>()) } else { vec![] };
    let types: Vec<&Ty> = all.iter().chain(&one).chain(&two).chain(&three).collect();
    let (m0, v0, i0) = (attrs(&[]), vises()[0].clone(), idents()[0].clone());
    let mut fams: Vec<(String, String, u64, Gen)> = vec![];
    for k in &ks {
        for (n, cap) in [(0, usize::MAX), (1, usize::MAX), (2, if run.thorough { 220 } else { 60 }), (3, if run.thorough { 24 } else { 12 }), (4, if run.thorough { 6 } else { 4 })] {
            if n == 0 {
                continue;
            }
            let tk = thin(k, cap);
            let cs = combos(&tk, n);
            let desc = format!("{} items: every choice of values for {} of the slots {}", k.tag, n, if cap < usize::MAX { format!("(at most {} evenly spread values of each)", cap) } else { String::new() });
            fams.push((format!("{}-{}", k.tag, n), desc, cs.len() as u64, Box::new(move |i| {
                let c = &cs[i as usize];
                let parts: Vec<&P> = tk.slots.iter().zip(c).map(|(s, v)| &s[*v as usize]).collect();
                ("item".to_string(), (tk.build)(&parts))
            })));
        }
    }
    // n of everything
    let cs = counts(run.thorough);
    fams.push(("counts".into(), "n fields, variants, parameters, generic parameters, predicates, bounds, attributes, attributes in a group, type arguments, tuple elements, path segments, nested types and groups (n = 0..40 and a ladder to 129, thorough 1025; nesting to 40), of changing form".into(), cs.len() as u64, {
        let cs = cs.clone();
        Box::new(move |i| ("item".to_string(), cs[i as usize].clone()))
    }));
    // every type of depth two in every place a type can stand
    let places = 8u64;
    let (ks, types) = (&ks, &types);
    let (m0, v0, i0) = (&m0, &v0, &i0);
    fams.push(("types".into(), "every type form around every type form around every leaf (depth 2; in the thorough tier also around every seventh of those), in named and tuple fields, public tuple fields, variants, parameters, return types, defaults and bounds".into(), types.len() as u64 * places, Box::new(move |i| {
        let t = types[(i / places) as usize];
        let p = tp(t);
        let st = |slot: usize, x: &P| {
            let k = &ks[0];
            let parts: Vec<&P> = k.slots.iter().enumerate().map(|(j, s)| if j == slot { x } else { &s[0] }).collect();
            (k.build)(&parts)
        };
        let fun = |slot: usize, x: &P| {
            let k = &ks[2];
            let parts: Vec<&P> = k.slots.iter().enumerate().map(|(j, s)| if j == slot { x } else { &s[0] }).collect();
            (k.build)(&parts)
        };
        let q = match i % places {
            0 => st(5, &named(&[&typed_field(m0, v0, i0, &p), &typed_field(m0, v0, i0, &p)], false)),
            1 => st(5, &tuple(&[&tuple_field(m0, v0, &p), &tuple_field(m0, v0, &p)], true)),
            2 => st(5, &tuple(&[&tuple_field(m0, &vises()[1], &p)], false)),
            3 => {
                let f = tuple(&[&tuple_field(m0, v0, &p)], false);
                let v = list("variants", ("{", "}"), &[&variant(m0, i0, &f, None), &variant(m0, i0, &named(&[&typed_field(m0, v0, i0, &p)], true), Some("1"))], true, false);
                let k = &ks[1];
                let parts: Vec<&P> = k.slots.iter().enumerate().map(|(j, s)| if j == 5 { &v } else { &s[0] }).collect();
                (k.build)(&parts)
            }
            4 => fun(5, &fn_params(&[&fn_param(Some("x"), &p, &format!("x: {}", t.src)), &fn_param(Some("mut y"), &p, &format!("mut y: {}", t.src))], false)),
            5 => fun(6, &P { src: format!("-> {}", t.src), dump: format!("{}{}", en("ret", "some"), t.d()), print: format!("-> {}", t.src) }),
            6 => st(3, &generics(&[&param("T", &[], Some(t)), &param("U", &[&bounds(false)[0]], Some(t))], false, false)),
            _ => {
                // as an argument of a bound
                let a = Ty::path(&["a"], "Tr", &[(&t.src, t.d())]);
                let b = (a.src.clone(), 't', a.names[0].clone());
                let l = &bounds(false)[1];
                let g = param("T", &[&b, l], None);
                st(4, &generics(&[&g, &g], true, false))
            }
        };
        ("item".to_string(), q)
    })));
    explore(run, fams);
}

// ---------------------------------------------------------------- C23

/// Positions that are looked up.
const FAR: &[usize] = &[0, 1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128];
const NAMES: &[&str] = &["a", "b", "k", "g", "h", "a::b", "r#type", "zz"];
fn find_pair<'a>(v: &'a [At], n: &str) -> Option<&'a Li> {
    v.iter().find_map(|a| match a {
        Kv(k, _, l) if *k == n => Some(*l),
        _ => None,
    })
}
fn find_pos(v: &[At], i: usize) -> Option<&At> {
    v.iter().filter(|a| matches!(a, W(_) | L(_))).nth(i)
}
fn find_group<'a>(v: &'a [At], n: &str) -> Option<&'a Vec<At>> {
    v.iter().find_map(|a| match a {
        G(k, v) if *k == n => Some(v),
        _ => None,
    })
}
fn look(v: &[At]) -> String {
    let mut o = String::new();
    let ql = |o: &mut String, tag: &str, l: Option<&Li>| {
        o.push_str(&en(tag, l.is_some()));
        if let Some(l) = l {
            o.push_str(&l.dump());
        }
    };
    let qi = |o: &mut String, tag: &str, a: Option<&At>| {
        o.push_str(&en(tag, a.is_some()));
        if let Some(a) = a {
            o.push_str(&at_dump(a));
        }
    };
    let qm = |o: &mut String, tag: &str, g: Option<&Vec<At>>| {
        o.push_str(&en(tag, g.is_some()));
        if let Some(g) = g {
            o.push_str(&meta_dump(g));
            let mut s = String::new();
            at_src(&G("", g.clone()), &mut s);
            o.push_str(&en("~text", s));
        }
    };
    for n in NAMES {
        ql(&mut o, "pair named", find_pair(v, n));
    }
    for &i in FAR {
        qi(&mut o, "position", find_pos(v, i));
    }
    for n in NAMES {
        let g = find_group(v, n);
        qm(&mut o, "group", g);
        let Some(g) = g else { continue };
        for x in NAMES {
            ql(&mut o, "in group, pair named", find_pair(g, x));
        }
        for &i in FAR {
            qi(&mut o, "in group, position", find_pos(g, i));
        }
        for x in NAMES {
            let h = find_group(g, x);
            qm(&mut o, "in group, group", h);
            let Some(h) = h else { continue };
            for y in NAMES {
                ql(&mut o, "two groups deep, pair named", find_pair(h, y));
                qm(&mut o, "two groups deep, group", find_group(h, y));
            }
            for i in 0..3 {
                qi(&mut o, "two groups deep, position", find_pos(h, i));
            }
        }
    }
    let words: Vec<&str> = v.iter().filter_map(|a| if let W(n) = a { Some(*n) } else { None }).collect();
    o.push_str(&en("words", words.join(" ")));
    let ls: Vec<&&Li> = v.iter().filter_map(|a| if let L(l) = a { Some(l) } else { None }).collect();
    o.push_str(&en("literals", ls.len()));
    for l in ls {
        o.push_str(&l.dump());
    }
    let mut keys: Vec<&str> = v.iter().filter_map(|a| if let Kv(n, _, _) = a { Some(*n) } else { None }).collect();
    let once = |ks: &[&str], k: &str| ks.iter().filter(|x| **x == k).count() == 1;
    let all = keys.clone();
    keys.sort();
    keys.dedup();
    o.push_str(&en("pairs", keys.join(" ")));
    for k in keys {
        if once(&all, k) {
            o.push_str(&find_pair(v, k).unwrap().dump());
        }
    }
    let mut gs: Vec<&str> = v.iter().filter_map(|a| if let G(n, _) = a { Some(*n) } else { None }).collect();
    let all = gs.clone();
    gs.sort();
    gs.dedup();
    o.push_str(&en("groups", gs.join(" ")));
    for k in gs {
        if once(&all, k) {
            o.push_str(&meta_dump(find_group(v, k).unwrap()));
        }
    }
    o
}

/// Where attributes stand: what to look at, source before and after.
const SITES: &[(&str, &str, &str)] = &[
    ("look", "", ""),
    ("on item", "", "pub struct A { x: u8 }"),
    ("on item", "", "struct A;"),
    ("on item", "", "pub(crate) enum A { B }"),
    ("on item", "", "async fn f() {}"),
    ("on item", "", "extern \"C\" fn f() {}"),
    ("field", "struct A { x: u8,", "pub y: u8 }"),
    ("field", "struct A { #[z = 1] x: Vec<u8>,", "r#y: Vec<u8>, }"),
    ("field", "#[q] struct A(", "u8);"),
    ("field", "struct A(u8,", "pub (u8, u8),);"),
    ("variant", "enum A { X(u8),", "Y }"),
    ("variant", "enum A {", "Y { a: u8 } = 1, }"),
    ("field", "enum A { #[z] X(", "u8) }"),
    ("field", "enum A { X { a: u8,", "b: u8 } = 3 }"),
];

pub fn c23(run: &mut Run) {
    run.assumptions.push("lookups go through Meta::get; pairs() and groups() are compared for names that occur once; string and byte string values are the text between the quotes as written, escapes not resolved".into());
    // every literal in every position a literal can take
    let mut ones: Vec<Vec<At>> = vec![];
    for l in LITS {
        ones.push(vec![L(l)]);
        for e in ['=', ':'] {
            for n in ["k", "a::b", "r#type"] {
                ones.push(vec![Kv(n, e, l)]);
                ones.push(vec![G("g", vec![Kv(n, e, l)])]);
                ones.push(vec![G("g", vec![W("a"), G("h", vec![L(l), Kv(n, e, l)])])]);
            }
        }
        ones.push(vec![G("g", vec![L(l), L(l)])]);
        for m in LITS {
            ones.push(vec![Kv("k", '=', l), Kv("k", '=', m), L(m), L(l)]);
            ones.push(vec![G("h", vec![L(l), Kv("a", ':', m), L(m)])]);
        }
    }
    let base: Vec<At> = vec![
        W("a"), W("b"), W("a::b"), L(lit("\"s\"")), L(lit("-2")), Kv("a", '=', lit("1")), Kv("b", '=', lit("\"a b\"")), Kv("a", ':', lit("true")), Kv("a::b", '=', lit("-1.5")), G("g", vec![]), G("a", vec![W("a")]), G("g", vec![W("b"), Kv("a", '=', lit("\"s\"")), L(lit("1.5"))]), G("a::b", vec![Kv("k", '=', lit("0")), Kv("k", '=', lit("1"))]),
        G("g", vec![G("h", vec![Kv("a", '=', lit("1")), W("k")]), G("h", vec![Kv("a", '=', lit("0"))])]),
    ];
    let lists = |v: &[At], n: usize| {
        let mut out: Vec<Vec<At>> = vec![];
        for k in 1..=n {
            for i in 0..v.len().pow(k as u32) {
                let mut r = i;
                out.push((0..k).map(|_| { let a = v[r % v.len()].clone(); r /= v.len(); a }).collect());
            }
        }
        out
    };
    let twos = lists(&base, 2);
    let deep = lists(&base, if run.thorough { 4 } else { 3 });
    let longer = lists(&[W("a"), L(lit("1")), Kv("k", '=', lit("\"s\"")), Kv("a", ':', lit("1")), G("a", vec![W("k"), L(lit("true"))]), G("g", vec![G("a", vec![W("b")])])], if run.thorough { 6 } else { 5 });
    // the same lists inside a group, and inside a group inside a group
    let nested: Vec<Vec<At>> = deep.iter().filter(|x| x.len() <= 3).flat_map(|l| vec![vec![G("g", l.clone())], vec![W("a"), G("h", vec![W("k"), G("b", l.clone())])]]).collect();
    // one attribute among n others
    let mut many: Vec<Vec<At>> = vec![];
    for n in ladder(run.thorough) {
        for place in [0, n / 2, n] {
            for target in [Kv("k", '=', lit("\"s\"")), G("g", vec![W("b"), Kv("a", '=', lit("1"))]), L(lit("-2")), W("a")] {
                let mut v: Vec<At> = (0..n).map(|k| {
                    let x = leak(format!("x{}", k));
                    match (k + n) % 4 {
                        0 => W(x),
                        1 => Kv(x, '=', &LITS[k % LITS.len()]),
                        2 => L(&LITS[k / 4 % LITS.len()]),
                        _ => G(x, vec![W("k"), L(&LITS[k % LITS.len()])]),
                    }
                }).collect();
                v.insert(place, target.clone());
                many.push(v.clone());
                // and repeated at the end
                v.push(match target { Kv(..) => Kv("k", '=', lit("0")), G(..) => G("g", vec![]), other => other });
                many.push(v.clone());
                many.push(vec![W("b"), G("g", v.clone())]);
                many.push(vec![G("h", vec![G("b", v)])]);
            }
        }
    }
    // every form of a number, and every character in a string
    let mut forms: Vec<Vec<At>> = vec![];
    for l in number_forms().into_iter().chain(text_forms()) {
        forms.push(vec![L(l)]);
        forms.push(vec![Kv("k", '=', l)]);
        forms.push(vec![W("a"), G("g", vec![Kv("k", ':', l), L(l)])]);
    }
    let mut fams: Vec<(String, String, u64, Gen)> = vec![];
    let all_sites = SITES.len() as u64;
    for (n, d, v, sites) in [
        ("literals", "every literal form alone, in pairs with = and :, in groups and nested groups, and every two literals together", &ones, 1),
        ("forms", "numbers of every base, size, sign, suffix and way to write them, strings of every form with every ASCII character and of lengths to 300, alone, in a pair and in a group", &forms, 1),
        ("sites", "every list of one or two attributes on every kind of item, field and variant", &twos, all_sites),
        ("lists", "every list of attributes of the base set", &deep, 1),
        ("counts", "a pair, group, literal or word first, amid and last of n other attributes, and again at the end, alone, in a group and in a group in a group (n = 0..40 and a ladder to 129, thorough 1025)", &many, 1),
        ("longer", "longer lists over a smaller set", &longer, 1),
        ("nested", "every list inside a group and inside a nested group", &nested, 1),
    ] {
        fams.push((n.into(), d.into(), v.len() as u64 * sites, Box::new(move |i| {
            let v = &v[(i / sites) as usize];
            let (what, a, b) = SITES[(i % sites) as usize];
            let p = attrs(v);
            (what.to_string(), P { src: format!("{} {} {}", a, p.src, b), dump: look(v), print: p.print })
        })));
    }
    explore(run, fams);
}
