//! Families shared by the document properties: keys that are easily taken for one another,
//! and every kind of value in every place.
use crate::engine::*;
use crate::gen::*;
use crate::ops::{step, unchanged, Op};
use crate::paths::{expressible, path_text};
use crate::rv::{self, Rv, Seg};
use std::collections::BTreeMap;

/// Keys related by prefix, suffix, case, length, trimming, escaping, normalisation, number value.
pub const REL: &[&str] = &[
    "", " ", "a", "A", "aa", "ab", "b", "ba", "abc", "a ", " a", "a.b", "a.", ".a", ".", "a\\", "\\a", "\\", "#0", "#", "0", "1", "01", "10", "-1", "a#0", "null", "\u{e9}", "\u{c9}", "e\u{301}", "\u{df}", "ss", "a\0", "\0", "a\n", "\"a\"", "\"", "\\u0061",
    "\u{1f600}", "\u{1f601}", "\u{ffff}", "\u{feff}a", "key", "keys", "Key",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxy",
    "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxz",
];

/// Values of every kind, the empty and the extreme ones included.
pub fn kinds() -> Vec<Rv> {
    [
        "null", "true", "false", "0", "-0.0", "1", "-1", "1.5", "1e21", "\"\"", "\"a\"", "\"null\"", "\"\\u00e9\"", "[]", "[null]", "[1,2]", "[[]]", "{}", "{\"a\":1}", "{\"a\":1,\"a\":2}", "{\"\":null}", "{\"a\":{},\"b\":[]}",
    ]
    .iter()
    .map(|x| rv::parse(x).expect("value"))
    .collect()
}

fn num(n: usize) -> Rv {
    Rv::Num(n as f64)
}
fn k(s: &str) -> Seg {
    Seg::Key(s.into())
}

pub fn pair(i: u64) -> Option<(usize, usize)> {
    let n = REL.len() as u64;
    let (x, y) = ((i / n) as usize, (i % n) as usize);
    if x == y || x >= REL.len() {
        None
    } else {
        Some((x, y))
    }
}
pub const PAIRS: u64 = (REL.len() * REL.len()) as u64;

/// objects over two keys
pub fn pair_docs(x: &str, y: &str) -> Vec<Rv> {
    let o = |m: &[(&str, Rv)]| Rv::obj(m);
    vec![
        o(&[]),
        o(&[(x, num(1))]),
        o(&[(y, num(1))]),
        o(&[(y, num(1)), (y, num(2))]),
        o(&[(x, num(1)), (y, num(2))]),
        o(&[(x, num(1)), (x, num(2)), (y, num(3))]),
        o(&[(x, num(1)), (y, num(3)), (y, num(4)), (x, num(2))]),
        o(&[(x, o(&[(y, num(1)), (x, num(2)), (y, num(3))])), (y, o(&[(x, num(4))]))]),
        o(&[(y, Rv::Arr(vec![o(&[(x, num(1)), (y, num(2))])])), (y, o(&[(y, num(5))]))]),
    ]
}

/// the document with every key of the list, one to three values each
pub fn crowd() -> Rv {
    let mut m: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
    for (i, x) in REL.iter().enumerate() {
        m.insert(x.to_string(), (0..=i % 3).map(|v| if v == 1 { Rv::obj(&[(*x, num(i)), (REL[(i + 1) % REL.len()], num(v))]) } else { num(i * 10 + v) }).collect());
    }
    Rv::Obj(m)
}

fn pshow(p: &[u8]) -> String {
    let d = idx(p);
    let (x, y) = (REL[d[0]], REL[d[1]]);
    format!("keys {:?} and {:?}, document {}, operations {:?}", x, y, pair_docs(x, y)[d[2]].canon(), d[3..].iter().map(|o| format!("{:?}", word_op(*o, x, y, 100))).collect::<Vec<_>>())
}

const NOPS: u64 = 12;
fn word_op(o: usize, x: &str, y: &str, v: usize) -> Op {
    let key = if o % 2 == 0 { x } else { y };
    match o / 2 {
        0 => Op::Insert(key.into(), num(v)),
        1 => Op::Append(key.into(), num(v)),
        2 => Op::Delete(key.into()),
        3 => Op::Update(vec![k(key)], num(v)),
        4 => Op::Discard(vec![k(key)]),
        _ => Op::Merge(key.into()),
    }
}

/// C10: histories over every ordered pair of related keys, and on the crowded document.
pub fn multimap(run: &mut Run) {
    let len = if run.thorough { 3 } else { 2 };
    let nd = 9u64;
    let nw = upto(NOPS, len);
    run.family(
        "related-keys",
        &format!("every ordered pair of {} related keys (prefixes, cases, trimming, escapes, normal forms, numbers, long common prefixes) x nine objects over them x every word of insert, append, delete, update, discard, index_and_merge of either up to length 2 (thorough 3)", REL.len()),
        PAIRS * nd * nw,
        |i, o| {
            let Some((x, y)) = pair(i / (nd * nw)) else { return false };
            let mut w = vec![];
            word(NOPS, i % nw, &mut w);
            let mut v = vec![x, y, (i / nw % nd) as usize];
            v.extend(w);
            put_idx(&v, o);
            true
        },
        pshow,
        |p, t| {
            let d = idx(p);
            let (x, y) = (REL[d[0]], REL[d[1]]);
            let mut m = pair_docs(x, y)[d[2]].clone();
            let mut j = m.build();
            for (n, o) in d[3..].iter().enumerate() {
                step(&mut j, &mut m, &[], &word_op(*o, x, y, 100 + n), t)?;
            }
            Ok(())
        },
    );
    let n = REL.len() as u64;
    let th = run.thorough;
    run.family(
        "crowded-object",
        "one object holding all related keys: every word of up to two operations on any of them (quick: the second on the next three keys)",
        n * 6 * n * 7,
        |i, o| {
            let d = digits(i, &[REL.len(), 6, REL.len(), 7]);
            let near = (d[2] + REL.len() - d[0]) % REL.len();
            if !th && near > 3 {
                return false;
            }
            put_idx(&d, o);
            true
        },
        |p| {
            let d = idx(p);
            format!("{:?} then {:?}", word_op(d[1] * 2, REL[d[0]], "", 7), if d[3] < 6 { format!("{:?}", word_op(d[3] * 2, REL[d[2]], "", 8)) } else { "nothing".into() })
        },
        |p, t| {
            let d = idx(p);
            let mut m = crowd();
            let mut j = m.build();
            step(&mut j, &mut m, &[], &word_op(d[1] * 2, REL[d[0]], "", 7), t)?;
            if d[3] < 6 {
                step(&mut j, &mut m, &[], &word_op(d[3] * 2, REL[d[2]], "", 8), t)?;
            }
            Ok(())
        },
    );
    value_kinds(run);
    bystanders(run, true);
    one_unlike(run, true);
}

/// every operation that writes or removes, on every kind of old value with every kind of new value
fn kind_ops(shape: usize, v: &Rv) -> (Vec<Seg>, Vec<Op>) {
    let loc: Vec<Seg> = match shape % 3 {
        0 => vec![],
        1 => vec![k("p")],
        _ => vec![Seg::Idx(1)],
    };
    let v = || v.clone();
    let ops = if shape < 3 {
        vec![
            Op::Insert("k".into(), v()), Op::Append("k".into(), v()), Op::AddOption("k".into(), v(), true), Op::AddOption("k".into(), v(), false), Op::Delete("k".into()), Op::Merge("k".into()),
            Op::Set(vec![k("k")], v()), Op::Update(vec![k("k")], v()), Op::Del(vec![k("k")]), Op::Discard(vec![k("k")]), Op::FindMut(vec![k("k")], v()), Op::Get(vec![k("k")]), Op::Find(vec![k("k")]),
            Op::Set(vec![k("k"), k("x")], v()), Op::Set(vec![k("k"), Seg::Idx(1)], v()), Op::Update(vec![k("k"), k("a")], v()), Op::Update(vec![k("k"), Seg::Idx(0)], v()), Op::Del(vec![k("k"), k("a")]), Op::Del(vec![k("k"), Seg::Idx(0)]),
            Op::Discard(vec![k("k"), k("")]), Op::Get(vec![k("k"), k("a")]), Op::Push(v()), Op::Replace(0, v()), Op::Remove(0), Op::Set(vec![Seg::Idx(1)], v()),
        ]
    } else {
        vec![
            Op::Push(v()), Op::Replace(1, v()), Op::Remove(1), Op::Set(vec![Seg::Idx(1)], v()), Op::Update(vec![Seg::Idx(1)], v()), Op::Del(vec![Seg::Idx(1)]), Op::Discard(vec![Seg::Idx(1)]), Op::FindMut(vec![Seg::Idx(1)], v()), Op::Get(vec![Seg::Idx(1)]),
            Op::Set(vec![Seg::Idx(1), k("a")], v()), Op::Set(vec![Seg::Idx(1), Seg::Idx(0)], v()), Op::Del(vec![Seg::Idx(1), k("a")]), Op::Del(vec![Seg::Idx(1), Seg::Idx(0)]), Op::Insert("k".into(), v()), Op::Append("a".into(), v()), Op::Delete("a".into()), Op::Merge("a".into()),
            Op::Set(vec![Seg::Idx(4)], v()), Op::Replace(3, v()), Op::Remove(3), Op::Find(vec![Seg::Idx(3)]),
        ]
    };
    (loc, ops)
}

fn kind_doc(shape: usize, old: &Rv, prev: usize) -> Rv {
    let inner = if shape < 3 {
        let mut m: Vec<(&str, Rv)> = vec![("j", num(1)), ("j", num(2))];
        let ks = kinds();
        for i in 0..prev {
            m.push(("k", ks[(i * 5) % ks.len()].clone()));
        }
        m.push(("k", old.clone()));
        m.push(("l", Rv::Null));
        Rv::obj(&m)
    } else {
        let mut a = vec![Rv::s("first"), old.clone()];
        if prev > 0 {
            a.push(Rv::s("last"));
        }
        Rv::Arr(a)
    };
    match shape % 3 {
        0 => inner,
        1 => Rv::obj(&[("o", num(1)), ("p", num(2)), ("p", inner), ("q", num(3))]),
        _ => Rv::Arr(vec![num(0), inner, num(2)]),
    }
}

/// every operation at every place of the documents of `beside`
fn beside_ops(v: &Rv) -> Vec<(Vec<Seg>, Op)> {
    let mut o = vec![];
    let i = |n| Seg::Idx(n);
    for loc in [vec![], vec![k("a")], vec![k("b")], vec![i(0)], vec![i(1)], vec![k("a"), k("a")], vec![k("a"), k("b")], vec![k("a"), i(0)], vec![k("a"), i(1)], vec![i(0), k("a")], vec![i(0), i(0)]] {
        for key in ["a", "b", "c", ""] {
            o.push((loc.clone(), Op::Insert(key.into(), v.clone())));
            o.push((loc.clone(), Op::Append(key.into(), v.clone())));
            o.push((loc.clone(), Op::Delete(key.into())));
            o.push((loc.clone(), Op::Merge(key.into())));
        }
        o.push((loc.clone(), Op::AddOption("a".into(), v.clone(), true)));
        o.push((loc.clone(), Op::AddOption("b".into(), v.clone(), false)));
        o.push((loc.clone(), Op::Push(v.clone())));
        for n in 0..3 {
            o.push((loc.clone(), Op::Replace(n, v.clone())));
            o.push((loc.clone(), Op::Remove(n)));
        }
    }
    for q in crate::beside::paths() {
        if q.len() < 3 {
            o.push((vec![], Op::Set(q.clone(), v.clone())));
            o.push((vec![], Op::Update(q.clone(), v.clone())));
            o.push((vec![], Op::FindMut(q.clone(), v.clone())));
        }
        o.push((vec![], Op::Del(q.clone())));
        o.push((vec![], Op::Discard(q)));
    }
    o
}

/// C10 (all = true) and C16 (only what an error leaves behind)
pub fn bystanders(run: &mut Run, all: bool) {
    let bd = crate::beside::docs();
    let ks = kinds();
    let ops: Vec<Vec<(Vec<Seg>, Op)>> = ks.iter().map(beside_ops).collect();
    run.family(
        "bystanders",
        "sixteen shapes of nested objects and arrays with two places, each place holding every one of 22 kinds of value (every pair), x every operation at the top, at ten inner places and at every path of up to three segments over a b c #0 #1 #3, the written value taking all 22 kinds in turn",
        bd.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| format!("document {} x {} operations", bd[idx(p)[0]].canon(), ops[0].len()),
        |p, t| {
            let n = idx(p)[0];
            let doc = &bd[n];
            let j0 = doc.build();
            for (i, (loc, _)) in ops[0].iter().enumerate() {
                let op = &ops[(n + i) % ks.len()][i].1;
                let mut j = j0.clone();
                if all {
                    step(&mut j, &mut doc.clone(), loc, op, t)?;
                } else {
                    crate::ops::unchanged_at(&mut j, doc, loc, op, t)?;
                }
            }
            Ok(())
        },
    );
}

/// C10 (all) and C16: operations on the containers of `beside::odd`
pub fn one_unlike(run: &mut Run, all: bool) {
    let ks = kinds();
    crate::beside::odd_family(run, "each operation at the first, the odd and the last place", |n, o, t| {
        let d = o.doc();
        let j0 = d.build();
        let v = |i: usize| ks[(n as usize / 5 + i * 5) % ks.len()].clone();
        let last = o.values.len() - 1;
        let mut ops = vec![Op::Push(v(0)), Op::Insert("x".into(), v(1)), Op::Append("x".into(), v(2))];
        for (i, at) in [0, o.place, last, last + 1].iter().enumerate() {
            let key = o.key(*at);
            if o.form == 0 {
                ops.extend([Op::Replace(*at, v(i)), Op::Remove(*at), Op::Set(vec![Seg::Idx(*at)], v(i + 1)), Op::Del(vec![Seg::Idx(*at)]), Op::Update(vec![Seg::Idx(*at)], v(i + 2)), Op::Discard(vec![Seg::Idx(*at)])]);
            } else if o.form == 1 || i == 0 {
                ops.extend([Op::Insert(key.clone(), v(i)), Op::Append(key.clone(), v(i + 1)), Op::Delete(key.clone()), Op::Merge(key.clone()), Op::AddOption(key.clone(), v(i + 2), true), Op::Set(vec![k(&key)], v(i + 3)), Op::Update(vec![k(&key)], v(i + 4)), Op::Del(vec![k(&key)]), Op::Discard(vec![k(&key)]), Op::FindMut(vec![k(&key)], v(i + 5))]);
            }
        }
        for op in &ops {
            let mut j = j0.clone();
            if all {
                step(&mut j, &mut d.clone(), &[], op, t)?;
            } else {
                crate::ops::unchanged_at(&mut j, &d, &[], op, t)?;
            }
        }
        Ok(())
    });
}

pub fn value_kinds(run: &mut Run) {
    let ks = kinds();
    let n = ks.len();
    run.family(
        "value-kinds",
        "22 values of every kind as the old value of a key or element (alone or with one or two earlier values), 22 as the new one, in an object or array at top level, below a key and in an array; about 25 operations, outcome and whole document compared",
        product(&[n, n, 6, 3]),
        |i, o| {
            put_idx(&digits(i, &[n, n, 6, 3]), o);
            true
        },
        |p| {
            let d = idx(p);
            format!("{} with new value {}", kind_doc(d[2], &kinds()[d[0]], d[3]).canon(), kinds()[d[1]].canon())
        },
        |p, t| {
            let d = idx(p);
            let doc = kind_doc(d[2], &ks[d[0]], d[3]);
            let (loc, ops) = kind_ops(d[2], &ks[d[1]]);
            for op in &ops {
                let mut m = doc.clone();
                let mut j = m.build();
                step(&mut j, &mut m, &loc, op, t)?;
            }
            Ok(())
        },
    );
}

/// C16: a failing operation over related keys.
pub fn failures(run: &mut Run) {
    run.family(
        "related-keys",
        "every ordered pair of related keys x nine objects over them: every read, removal and write-through of one key that fails, alone and below the other",
        PAIRS * 9,
        |i, o| {
            let Some((x, y)) = pair(i / 9) else { return false };
            put_idx(&[x, y, (i % 9) as usize], o);
            true
        },
        pshow,
        |p, t| {
            let d = idx(p);
            let (x, y) = (REL[d[0]], REL[d[1]]);
            let m = &pair_docs(x, y)[d[2]];
            let j = m.build();
            for q in [vec![k(x)], vec![k(y), k(x)], vec![k(x), k(x)], vec![k(y), Seg::Idx(0), k(x)], vec![Seg::Idx(0)], vec![k(x), Seg::Idx(0), k("zz")], vec![k(y), k(y)]] {
                let mut ops = vec![Op::Discard(q.clone()), Op::FindMut(q.clone(), num(9)), Op::Find(q.clone())];
                if expressible(&q) && !path_text(&q).is_empty() {
                    ops.push(Op::Del(q.clone()));
                    ops.push(Op::Get(q));
                }
                for op in &ops {
                    unchanged(&j, m, op, t)?;
                }
            }
            for op in [Op::Merge(x.into()), Op::Delete(x.into()), Op::Push(num(1)), Op::Remove(0), Op::Replace(0, num(1))] {
                unchanged(&j, m, &op, t)?;
            }
            Ok(())
        },
    );
}

/// Texts of objects over related keys: one to four members, each key written plainly and wholly in \u escapes.
pub fn key_texts(run: &mut Run, case: fn(&[u8], &mut Tally) -> Result<(), Fail>) {
    fn spell(s: &str, how: usize) -> String {
        if how == 0 {
            let mut o = String::new();
            rv::text_str(s, &mut o);
            o
        } else {
            format!("\"{}\"", s.encode_utf16().map(|u| if how == 1 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) }).collect::<String>())
        }
    }
    // members: (which key, how written)
    let ms: [&[(usize, usize)]; 12] = [
        &[(0, 0), (1, 0)],
        &[(0, 0), (1, 0), (0, 0)],
        &[(0, 0), (1, 1), (0, 1)],
        &[(0, 1), (1, 0), (0, 0)],
        &[(0, 2), (0, 0), (1, 2), (0, 1)],
        &[(0, 0), (0, 0), (1, 0)],
        &[(1, 0), (0, 0), (0, 2)],
        &[(0, 0), (1, 0), (1, 0), (0, 0)],
        &[(0, 0), (1, 0), (0, 0), (1, 0)],
        &[(0, 1), (1, 1), (0, 0), (1, 0)],
        &[(0, 0), (0, 1), (0, 2), (1, 0)],
        &[(1, 0), (1, 0), (1, 0), (0, 0)],
    ];
    run.family(
        "related-keys",
        "every ordered pair of related keys in twelve arrangements of two to four members, each written plainly or in \\u escapes, at top level and nested",
        PAIRS * 12 * 2,
        |i, o| {
            let Some((x, y)) = pair(i / 24) else { return false };
            let m: Vec<String> = ms[(i / 2 % 12) as usize].iter().enumerate().map(|(n, (w, how))| format!("{}:{}", spell(REL[[x, y][*w]], *how), n + 1)).collect();
            let s = m.join(",");
            o.extend_from_slice(if i % 2 == 0 { format!("{{{}}}", s) } else { format!("[{{\"o\" : {{ {} }} ,\"o\":0}}]", s) }.as_bytes());
            true
        },
        |p| format!("{:?}", st(p)),
        case,
    );
    // every kind of value as every member of a small object and array
    let ks = kinds();
    let n = ks.len();
    run.family(
        "value-kinds",
        "every pair of 22 values of every kind as two values of one key, as the members of an object and as the elements of an array",
        product(&[n, n, 4]),
        |i, o| {
            let d = digits(i, &[n, n, 4]);
            let (a, b) = (ks[d[0]].text(), ks[d[1]].text());
            let s = match d[2] {
                0 => format!("{{\"k\":{},\"k\":{}}}", a, b),
                1 => format!("{{\"k\":{},\"j\":{}}}", a, b),
                2 => format!("[{},{}]", a, b),
                _ => format!("{{\"k\" : [ {} , {} ] , \"k\":{},\"\":{}}}", a, b, b, a),
            };
            o.extend_from_slice(s.as_bytes());
            true
        },
        |p| format!("{:?}", st(p)),
        case,
    );
}
