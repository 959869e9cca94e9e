//! C10 operation histories, C16 failed operations, C14 repeated keys.
use crate::engine::*;
use crate::gen::*;
use crate::paths::{compare, docs_level, path_text, values};
use crate::rv::{self, Rv, Seg, E};
use json::{Json, Path};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum Op {
    Insert(String, Rv),
    Append(String, Rv),
    AddOption(String, Rv, bool),
    Delete(String),
    Push(Rv),
    Replace(usize, Rv),
    Remove(usize),
    Merge(String),
    Get(Vec<Seg>),
    Set(Vec<Seg>, Rv),
    Del(Vec<Seg>),
    Find(Vec<Seg>),
    FindMut(Vec<Seg>, Rv),
    Update(Vec<Seg>, Rv),
    Discard(Vec<Seg>),
    /// a path that is not valid
    BadSet(String),
    BadDel(String),
    BadGet(String),
}

pub fn to_path(p: &[Seg]) -> Path {
    let mut it = p.iter();
    let mut r = match it.next().expect("path") {
        Seg::Key(k) => Path::new(k.as_str()),
        Seg::Idx(i) => Path::new(*i),
    };
    for s in it {
        match s {
            Seg::Key(k) => r.append(k.as_str()),
            Seg::Idx(i) => r.append(*i),
        };
    }
    r
}

/// The harness's own navigation (no code under test).
pub fn nav<'a>(j: &'a mut Json, p: &[Seg]) -> Option<&'a mut Json> {
    let mut cur = j;
    for s in p {
        cur = match (s, cur) {
            (Seg::Key(k), Json::Object(m)) => &mut m.get_mut(k)?.0,
            (Seg::Idx(i), Json::Array(a)) => a.get_mut(*i)?,
            _ => return None,
        };
    }
    Some(cur)
}

/// What an operation hands back: nothing, one value, or a list of values.
pub type Out = Vec<Rv>;

pub fn apply_real(j: &mut Json, op: &Op) -> Result<Out, json::Error> {
    match op {
        Op::Insert(k, v) => j.insert(k, v.build()).map(|_| vec![]),
        Op::Append(k, v) => j.append(k, v.build()).map(|_| vec![]),
        Op::AddOption(k, v, a) => j.add_option(k.clone(), v.build(), *a).map(|_| vec![]),
        Op::Delete(k) => j.delete(k).map(|_| vec![]),
        Op::Push(v) => j.push(v.build()).map(|_| vec![]),
        Op::Replace(i, v) => j.replace(*i, v.build()).map(|_| vec![]),
        Op::Remove(i) => j.remove(*i).map(|_| vec![]),
        Op::Merge(k) => j.index_and_merge(k).map(|v| v.into_iter().map(rv::read).collect()),
        Op::Get(p) => j.get(&path_text(p)).map(|v| vec![rv::read(v)]),
        Op::Set(p, v) => j.set(&path_text(p), v.build()).map(|v| vec![rv::read(v)]),
        Op::Del(p) => j.del(&path_text(p)).map(|v| vec![rv::read(&v)]),
        Op::Find(p) => j.find(to_path(p)).map(|v| vec![rv::read(v)]),
        Op::FindMut(p, v) => j.find_mut(to_path(p)).map(|x| {
            *x = v.build();
            vec![]
        }),
        Op::Update(p, v) => j.update(to_path(p), v.build()).map(|v| vec![rv::read(v)]),
        Op::Discard(p) => j.discard(to_path(p)).map(|v| vec![rv::read(&v)]),
        Op::BadSet(p) => j.set(p, 1).map(|v| vec![rv::read(v)]),
        Op::BadDel(p) => j.del(p).map(|v| vec![rv::read(&v)]),
        Op::BadGet(p) => j.get(p).map(|v| vec![rv::read(v)]),
    }
}

fn obj(m: &mut Rv) -> Result<&mut BTreeMap<String, Vec<Rv>>, E> {
    match m {
        Rv::Obj(o) => Ok(o),
        _ => Err(E::InvalidValueKind),
    }
}
fn arr(m: &mut Rv) -> Result<&mut Vec<Rv>, E> {
    match m {
        Rv::Arr(a) => Ok(a),
        _ => Err(E::InvalidValueKind),
    }
}

pub fn apply_model(m: &mut Rv, op: &Op) -> Result<Out, E> {
    match op {
        Op::Insert(k, v) | Op::AddOption(k, v, false) => {
            obj(m)?.insert(k.clone(), vec![v.clone()]);
            Ok(vec![])
        }
        Op::Append(k, v) | Op::AddOption(k, v, true) => {
            obj(m)?.entry(k.clone()).or_default().push(v.clone());
            Ok(vec![])
        }
        Op::Delete(k) => {
            obj(m)?.remove(k);
            Ok(vec![])
        }
        Op::Push(v) => {
            arr(m)?.push(v.clone());
            Ok(vec![])
        }
        Op::Replace(i, v) => {
            *arr(m)?.get_mut(*i).ok_or(E::IndexOutOfRange)? = v.clone();
            Ok(vec![])
        }
        Op::Remove(i) => {
            let a = arr(m)?;
            if *i >= a.len() {
                return Err(E::IndexOutOfRange);
            }
            a.remove(*i);
            Ok(vec![])
        }
        Op::Merge(k) => obj(m)?.get(k).cloned().ok_or(E::MissingKey),
        Op::Get(p) | Op::Find(p) => rv::find(m, p).map(|x| vec![x.clone()]),
        Op::Set(p, v) | Op::Update(p, v) => {
            rv::set(m, p, v.clone());
            Ok(vec![v.clone()])
        }
        Op::Del(p) | Op::Discard(p) => rv::del(m, p).map(|x| vec![x]),
        Op::FindMut(p, v) => {
            *rv::find_mut(m, p)? = v.clone();
            Ok(vec![])
        }
        Op::BadSet(_) | Op::BadDel(_) | Op::BadGet(_) => Err(E::PathSyntax),
    }
}

/// Apply to both, compare outcome, returned values and the whole document.
pub fn step(j: &mut Json, m: &mut Rv, loc: &[Seg], op: &Op, t: &mut Tally) -> Result<bool, Fail> {
    let target = match nav(j, loc) {
        Some(x) => x,
        None => return Ok(false),
    };
    t.calls += 1;
    t.validated += 1;
    let got = apply_real(target, op);
    let mt = rv::find_mut(m, loc).expect("model has the same shape");
    let want = apply_model(mt, op);
    compare(&format!("{:?}", op), &got, &want)?;
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            t.out("ok");
            if g != w {
                return fail(format!("{:?} returns the wrong value", op), format!("{:?}", w), format!("{:?}", g));
            }
        }
        (_, Err(E::InvalidValueKind)) => t.out("invalid kind"),
        (_, Err(E::IndexOutOfRange)) => t.out("out of range"),
        (_, Err(E::MissingKey)) => t.out("missing key"),
        _ => t.out("path syntax"),
    }
    if !rv::same(j, m) {
        return fail(format!("the document after {:?} at {:?} is wrong", op, loc), m.canon(), rv::read(j).canon());
    }
    Ok(true)
}

/// What a user sees of a document: every key's current and merged values, and the text.
fn observe(j: &Json, m: &Rv, keys: &[&str], t: &mut Tally) -> Result<(), Fail> {
    if let Rv::Obj(o) = m {
        for k in keys {
            t.calls += 2;
            let g = j.index_and_merge(k);
            match (g, o.get(*k)) {
                (Ok(g), Some(w)) if g.len() == w.len() && g.iter().zip(w).all(|(a, b)| rv::same(a, b)) => {}
                (Err(e), None) if E::of(&e.kind) == Some(E::MissingKey) => {}
                (g, w) => return fail(format!("index_and_merge {:?}", k), format!("{:?}", w), format!("{:?}", g)),
            }
            match (j.find(*k), o.get(*k)) {
                (Ok(g), Some(w)) if rv::same(g, w.last().unwrap()) => {}
                (Err(e), None) if E::of(&e.kind) == Some(E::MissingKey) => {}
                (g, w) => return fail(format!("find {:?}", k), format!("{:?}", w), format!("{:?}", g)),
            }
        }
    }
    t.calls += 1;
    match rv::parse(&j.to_string()) {
        Some(x) if x == *m => Ok(()),
        _ => fail("the text of the document", m.canon(), j.to_string()),
    }
}

fn k(s: &str) -> Seg {
    Seg::Key(s.into())
}

pub fn c10(run: &mut Run) {
    let th = run.thorough;
    let pv = |x: &str| rv::parse(x).expect("doc");
    let inits: Vec<Rv> = [
        "{}", "[]", "null", "\"s\"", "7", "true",
        "{\"a\":1,\"a\":[2],\"b\":{\"a\":3}}",
        "[1,{\"a\":2,\"a\":3},[4]]",
        "{\"a\":{\"a\":1,\"a\":2,\"b\":3},\"a\":{\"b\":[1,2],\"b\":{}}}",
    ]
    .iter()
    .map(|x| pv(x))
    .collect();
    let locs: Vec<Vec<Seg>> = vec![vec![], vec![k("a")], vec![Seg::Idx(0)], vec![Seg::Idx(1)], vec![k("b")], vec![k("a"), k("b")], vec![k("a"), Seg::Idx(0)], vec![Seg::Idx(0), k("a")]];
    let vals = [pv("1"), pv("[]"), pv("{\"b\":2}")];
    let mut ops: Vec<(usize, Op)> = vec![];
    for (li, _) in locs.iter().enumerate() {
        for key in ["a", "b"] {
            for v in vals.iter().take(if li == 0 { 3 } else { 2 }) {
                ops.push((li, Op::Insert(key.into(), v.clone())));
                ops.push((li, Op::Append(key.into(), v.clone())));
            }
            ops.push((li, Op::Delete(key.into())));
            ops.push((li, Op::Merge(key.into())));
        }
        for v in vals.iter().take(if li == 0 { 3 } else { 2 }) {
            ops.push((li, Op::Push(v.clone())));
        }
        for i in [0, 1, 2] {
            ops.push((li, Op::Replace(i, Rv::s("r"))));
            ops.push((li, Op::Remove(i)));
        }
        if li < 2 {
            ops.push((li, Op::AddOption("a".into(), Rv::Null, true)));
            ops.push((li, Op::AddOption("b".into(), Rv::Null, false)));
            ops.push((li, Op::Delete("z".into())));
            ops.push((li, Op::Remove(usize::MAX)));
        }
    }
    for p in [vec![k("a")], vec![k("b")], vec![Seg::Idx(0)], vec![Seg::Idx(2)], vec![k("a"), k("a")], vec![k("a"), Seg::Idx(1)], vec![Seg::Idx(0), k("b")], vec![k("b"), k("a")]] {
        ops.push((0, Op::Set(p.clone(), Rv::Num(9.0))));
        ops.push((0, Op::Update(p.clone(), pv("[8]"))));
        ops.push((0, Op::Del(p.clone())));
        ops.push((0, Op::Discard(p.clone())));
        ops.push((0, Op::FindMut(p.clone(), Rv::Bool(true))));
        ops.push((0, Op::Get(p)));
    }
    let (depth, size, cap) = if th { (6, 12, 6_000_000) } else { (4, 11, 900_000) };
    run.bfs(
        "histories",
        "breadth-first over documents of bounded size from nine starting documents; every insert, append, add_option, delete, push, replace, remove, index_and_merge, set, update, del, discard, find_mut, get over small keys, indices, values and eight locations in the document",
        inits.len() as u8,
        |i| (inits[i as usize].build(), inits[i as usize].clone()),
        ops.len() as u16,
        |o| format!("{:?} at {:?}", ops[o as usize].1, locs[ops[o as usize].0]),
        |s: &(Json, Rv)| h128(s.1.canon().as_bytes()),
        depth,
        cap,
        |s, o, t| {
            let (li, op) = &ops[o as usize];
            let mut j = s.0.clone();
            let mut m = s.1.clone();
            if !step(&mut j, &mut m, &locs[*li], op, t)? {
                return Ok(None);
            }
            if m.size() > size {
                return Ok(None);
            }
            if !matches!(op, Op::Get(_) | Op::Merge(_)) {
                observe(&j, &m, &["a", "b", "z"], t)?;
            }
            Ok(Some((j, m)))
        },
    );

    // one object, one key: longer histories of the multimap operations with values numbered by position
    let mops: Vec<u8> = (0..7).collect();
    let len = if th { 9 } else { 7 };
    run.family(
        "multimap-words",
        "every word over insert a, append a, delete a, append b, insert b, set a, del a up to length 7 (thorough 9) on an empty object, values numbered; index_and_merge, get and text observed after every step",
        upto(mops.len() as u64, len),
        |i, o| {
            let mut w = vec![];
            word(7, i, &mut w);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| p.iter().map(|x| ["insert a", "append a", "delete a", "append b", "insert b", "set a", "del a"][*x as usize]).collect::<Vec<_>>().join("; "),
        |p, t| {
            let mut j = json::object! {};
            let mut m = Rv::Obj(BTreeMap::new());
            for (n, o) in p.iter().enumerate() {
                let v = Rv::Num(n as f64);
                let op = match o {
                    0 => Op::Insert("a".into(), v),
                    1 => Op::Append("a".into(), v),
                    2 => Op::Delete("a".into()),
                    3 => Op::Append("b".into(), v),
                    4 => Op::Insert("b".into(), v),
                    5 => Op::Set(vec![k("a")], v),
                    _ => Op::Del(vec![k("a")]),
                };
                step(&mut j, &mut m, &[], &op, t)?;
            }
            observe(&j, &m, &["a", "b"], t)
        },
    );
    // one array
    run.family(
        "list-words",
        "every word over push, replace 0, replace last, replace past the end, remove 0, remove last, remove past the end, set #len+1 up to length 7 (thorough 8) on an empty array",
        upto(8, if th { 8 } else { 7 }),
        |i, o| {
            let mut w = vec![];
            word(8, i, &mut w);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| p.iter().map(|x| ["push", "replace 0", "replace last", "replace len", "remove 0", "remove last", "remove len", "set #len+1"][*x as usize]).collect::<Vec<_>>().join("; "),
        |p, t| {
            let mut j = json::array![];
            let mut m = Rv::Arr(vec![]);
            for (n, o) in p.iter().enumerate() {
                let v = Rv::Num(n as f64);
                let len = match &m {
                    Rv::Arr(a) => a.len(),
                    _ => 0,
                };
                let op = match o {
                    0 => Op::Push(v),
                    1 => Op::Replace(0, v),
                    2 => Op::Replace(len.saturating_sub(1), v),
                    3 => Op::Replace(len, v),
                    4 => Op::Remove(0),
                    5 => Op::Remove(len.saturating_sub(1)),
                    6 => Op::Remove(len),
                    _ => Op::Set(vec![Seg::Idx(len + 1)], v),
                };
                step(&mut j, &mut m, &[], &op, t)?;
            }
            Ok(())
        },
    );
    // keys: any key works alike
    run.family(
        "keys",
        "every Unicode scalar value, alone and doubled, as the key of insert, append, index_and_merge and delete, beside two other keys",
        SCALARS * 2,
        |i, o| {
            for _ in 0..=(i % 2) {
                chr(o, scalar(i / 2));
            }
            true
        },
        |p| format!("key {:?}", st(p)),
        |p, t| {
            let key = st(p);
            let mut j = json::object! { "a" => 1, "" => 2 };
            let mut m = Rv::obj(&[("a", Rv::Num(1.0)), ("", Rv::Num(2.0))]);
            for op in [Op::Append(key.into(), Rv::Num(3.0)), Op::Append(key.into(), Rv::Num(4.0)), Op::Merge(key.into()), Op::Insert(key.into(), Rv::Null), Op::Delete(key.into()), Op::Merge(key.into())] {
                step(&mut j, &mut m, &[], &op, t)?;
            }
            Ok(())
        },
    );
    // sizes
    let ladder: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]).collect();
    run.family(
        "sizes",
        "objects with n values of one key, objects with n keys, arrays with n elements (n = 0..70 and a ladder to 4097), each followed by operations at the first, middle and last place",
        ladder.len() as u64 * 3,
        |i, o| {
            put_idx(&[(i % 3) as usize, ladder[(i / 3) as usize]], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let v = idx(p);
            let n = v[1];
            let (mut j, mut m);
            let mut ops: Vec<Op> = vec![];
            match v[0] {
                0 => {
                    j = json::object! {};
                    m = Rv::Obj(BTreeMap::new());
                    for i in 0..n {
                        ops.push(Op::Append("k".into(), Rv::Num(i as f64)));
                    }
                    ops.push(Op::Merge("k".into()));
                    ops.push(Op::Append("k".into(), Rv::Null));
                    ops.push(Op::Merge("k".into()));
                    ops.push(Op::Get(vec![k("k")]));
                    ops.push(Op::Insert("k".into(), Rv::Bool(true)));
                    ops.push(Op::Merge("k".into()));
                    ops.push(Op::Delete("k".into()));
                    ops.push(Op::Merge("k".into()));
                }
                1 => {
                    j = json::object! {};
                    m = Rv::Obj(BTreeMap::new());
                    for i in 0..n {
                        ops.push(Op::Append(format!("k{}", i), Rv::Num(i as f64)));
                    }
                    for i in [0, n / 2, n.saturating_sub(1), n] {
                        ops.push(Op::Merge(format!("k{}", i)));
                        ops.push(Op::Append(format!("k{}", i), Rv::Null));
                        ops.push(Op::Delete(format!("k{}", i)));
                    }
                }
                _ => {
                    j = json::array![];
                    m = Rv::Arr(vec![]);
                    for i in 0..n {
                        ops.push(Op::Push(Rv::Num(i as f64)));
                    }
                    for i in [0, n / 2, n.saturating_sub(1), n, n + 1] {
                        ops.push(Op::Replace(i, Rv::Null));
                        ops.push(Op::Remove(i));
                        ops.push(Op::Get(vec![Seg::Idx(i)]));
                    }
                }
            }
            for op in &ops {
                step(&mut j, &mut m, &[], op, t)?;
            }
            observe(&j, &m, &["k", "k0", "k1"], t)
        },
    );
    crate::related::multimap(run);
}

// ---------------------------------------------------------------- C16

pub fn all_ops() -> Vec<Op> {
    let mut v = vec![];
    let vals = values();
    for key in ["a", "b", "", "\\", "#0", "a.b", "\u{1f600}"] {
        v.push(Op::Insert(key.into(), vals[4].clone()));
        v.push(Op::Append(key.into(), vals[3].clone()));
        v.push(Op::AddOption(key.into(), vals[0].clone(), true));
        v.push(Op::AddOption(key.into(), vals[0].clone(), false));
        v.push(Op::Delete(key.into()));
        v.push(Op::Merge(key.into()));
    }
    for x in &vals {
        v.push(Op::Push(x.clone()));
    }
    for i in [0, 1, 2, 3, 4, 100, 1 << 20, 1 << 31, 1 << 32, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        v.push(Op::Replace(i, vals[3].clone()));
        v.push(Op::Remove(i));
        let big = vec![Seg::Idx(i)];
        v.push(Op::Del(big.clone()));
        v.push(Op::Discard(big.clone()));
        v.push(Op::FindMut(big.clone(), Rv::Null));
        v.push(Op::Del(vec![k("a"), Seg::Idx(i)]));
    }
    let segs = [k("a"), k("b"), k("z"), k(""), Seg::Idx(0), Seg::Idx(1), Seg::Idx(2)];
    let mut w = vec![];
    for i in 1..upto(segs.len() as u64, 3) {
        word(segs.len() as u64, i, &mut w);
        let p: Vec<Seg> = w.iter().map(|x| segs[*x].clone()).collect();
        v.push(Op::Discard(p.clone()));
        v.push(Op::FindMut(p.clone(), vals[0].clone()));
        v.push(Op::Find(p.clone()));
        if p.len() == 1 && p[0] == k("") {
            continue;
        }
        v.push(Op::Del(p.clone()));
        v.push(Op::Get(p));
    }
    for b in ["", "#", "#x", "#-1", "a.#", "a.#x", "#.a", "a.b.#99999999999999999999", "#18446744073709551616", "z.#", "#0.#", "b.#1x", "#1.0.#", "a.a.a.#"] {
        v.push(Op::BadSet(b.into()));
        v.push(Op::BadDel(b.into()));
        v.push(Op::BadGet(b.into()));
    }
    v
}

pub fn op_docs(th: bool) -> Vec<Rv> {
    let leaves = vec![Rv::Num(1.0), Rv::s("x"), Rv::Null, Rv::Bool(false)];
    let l1 = docs_level(&leaves[..3], 1);
    let mut all = leaves;
    all.extend(l1.iter().cloned());
    let small: Vec<Rv> = l1.iter().filter(|d| d.size() <= if th { 4 } else { 3 }).cloned().collect();
    all.extend(arrays(&small, 2));
    all.extend(objects(&["a", "b"], &small, if th { 2 } else { 1 }, 2));
    all.extend(objects(&["a"], &small, 2, 2));
    all.sort_by_key(|x| x.canon());
    all.dedup_by_key(|x| x.canon());
    all
}

/// every operation at the root of every document; an error must leave the document as it was
pub fn unchanged(j0: &Json, m: &Rv, op: &Op, t: &mut Tally) -> Result<(), Fail> {
    unchanged_at(&mut j0.clone(), m, &[], op, t)
}

/// the same at an inner place; the whole document is compared
pub fn unchanged_at(j: &mut Json, m: &Rv, loc: &[Seg], op: &Op, t: &mut Tally) -> Result<(), Fail> {
    let Some(target) = nav(j, loc) else { return Ok(()) };
    t.calls += 1;
    let failed = apply_real(target, op).is_err();
    t.out(if failed { "failed" } else { "succeeded" });
    if failed {
        t.validated += 1;
    }
    if (failed || matches!(op, Op::Get(_) | Op::Find(_) | Op::Merge(_) | Op::BadGet(_))) && !rv::same(j, m) {
        return fail(format!("{:?} at {:?} {} and changed the document", op, loc, if failed { "failed" } else { "succeeded" }), m.canon(), rv::read(j).canon());
    }
    Ok(())
}

pub fn c16(run: &mut Run) {
    let th = run.thorough;
    let docs = op_docs(th);
    let ops = all_ops();
    let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
    run.family(
        "documents-x-operations",
        "every document of nesting 2 (three leaves, two keys, repeated keys) x about 2000 operations: any kind, keys, positions in and out of range, paths of up to three segments, malformed paths; the document after an error compared with the one before",
        texts.len() as u64,
        |i, o| {
            o.extend_from_slice(texts[i as usize].as_bytes());
            true
        },
        |p| format!("{} x {} operations", st(p), ops.len()),
        |p, t| {
            let m = rv::parse(st(p)).unwrap();
            let j = m.build();
            for op in &ops {
                unchanged(&j, &m, op, t)?;
            }
            Ok(())
        },
    );
    // at nested places: the operation is applied to an inner value, the whole document is compared
    let locs: Vec<Vec<Seg>> = vec![vec![k("a")], vec![k("b")], vec![Seg::Idx(0)], vec![Seg::Idx(1)], vec![k("a"), k("a")], vec![Seg::Idx(0), Seg::Idx(0)]];
    run.family(
        "nested-operations",
        "the same operations applied to an inner value of every document (six places), the whole document compared",
        (texts.len() * locs.len()) as u64,
        |i, o| {
            pack(&[&[(i % 6) as u8], texts[(i / 6) as usize].as_bytes()], o);
            true
        },
        |p| {
            let v = unpack(p);
            format!("{} at {:?}", st(v[1]), locs[v[0][0] as usize])
        },
        |p, t| {
            let v = unpack(p);
            let m = rv::parse(st(v[1])).unwrap();
            let loc = &locs[v[0][0] as usize];
            let j0 = m.build();
            if nav(&mut j0.clone(), loc).is_none() {
                return Ok(());
            }
            for op in &ops {
                unchanged_at(&mut j0.clone(), &m, loc, op, t)?;
            }
            Ok(())
        },
    );
    // all short path strings, malformed ones included
    let tdocs = crate::paths::target_docs();
    let built: Vec<Json> = tdocs.iter().map(|x| x.build()).collect();
    run.family(
        "path-strings",
        "every path string over ten symbols up to length 5 (thorough 6): set and del that fail on fifteen documents",
        upto(10, if th { 6 } else { 5 }),
        |i, o| {
            push_word(crate::paths::ALPHA, i, o);
            true
        },
        |p| format!("path {:?}", st(p)),
        |p, t| {
            let path = st(p);
            for (m, j0) in tdocs.iter().zip(&built) {
                unchanged(j0, m, &Op::BadDel(path.into()), t)?;
                unchanged(j0, m, &Op::BadSet(path.into()), t)?;
                unchanged(j0, m, &Op::BadGet(path.into()), t)?;
            }
            Ok(())
        },
    );
    // long arrays and paths: failures deep inside
    let mut deep: Vec<(Rv, Op)> = vec![];
    for n in (1..=40).chain([64, 100, 200]) {
        for wrap in 0..3 {
            let mut d = Rv::Num(1.0);
            let mut p = vec![];
            for i in 0..n {
                if (wrap == 0) || (wrap == 2 && i % 2 == 0) {
                    d = Rv::obj(&[("a", Rv::Num(0.5)), ("a", d), ("s", Rv::Null)]);
                    p.insert(0, k("a"));
                } else {
                    d = Rv::Arr(vec![Rv::Null, d, Rv::Num(2.0)]);
                    p.insert(0, Seg::Idx(1));
                }
            }
            for last in [k("zz"), Seg::Idx(7), k("a"), Seg::Idx(1)] {
                let mut q = p.clone();
                q.push(last.clone());
                deep.push((d.clone(), Op::Del(q.clone())));
                deep.push((d.clone(), Op::FindMut(q.clone(), Rv::Null)));
                let mut r = p[..p.len() - 1].to_vec();
                r.push(if matches!(last, Seg::Key(_)) { k("zz") } else { Seg::Idx(3) });
                deep.push((d.clone(), Op::Discard(r.clone())));
                deep.push((d.clone(), Op::BadSet(format!("{}.#", path_text(&q)))));
                deep.push((d.clone(), Op::BadSet(format!("{}.#-1.zz", path_text(&p)))));
            }
        }
    }
    run.family(
        "deep-failures",
        "operations that fail at the end of a path of 1..200 segments through objects with repeated keys and arrays",
        deep.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| shorten(&format!("{:?}", deep[idx(p)[0]].1)),
        |p, t| {
            let (d, op) = &deep[idx(p)[0]];
            unchanged(&d.build(), d, op, t)
        },
    );
    let big = crate::big::cases();
    run.family(
        "sizes",
        crate::big::ABOUT,
        big.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| shorten(&format!("{:?} on {}", big[idx(p)[0]].1, big[idx(p)[0]].0.canon())),
        |p, t| {
            let (m, q) = &big[idx(p)[0]];
            let j = m.build();
            let text = path_text(q);
            let n = match m {
                Rv::Arr(a) => a.len(),
                Rv::Obj(o) => o.len(),
                _ => 0,
            };
            let key = match q.last() {
                Some(Seg::Key(k)) => k.clone(),
                _ => "a".into(),
            };
            let v = Rv::s("v");
            for op in [
                Op::Del(q.clone()), Op::Find(q.clone()), Op::FindMut(q.clone(), v.clone()), Op::Discard(q.clone()), Op::Get(q.clone()), Op::BadSet(format!("{}.#x", text)), Op::BadDel(format!("{}.#-1", text)), Op::BadSet(format!("{}.#.a", text)), Op::BadGet(format!("{}.#", text)),
                Op::Insert(key.clone(), v.clone()), Op::Append(key.clone(), v.clone()), Op::AddOption(key.clone(), v.clone(), true), Op::Delete(key.clone()), Op::Merge(key.clone()), Op::Push(v.clone()), Op::Replace(n, v.clone()), Op::Replace(n + 1, v.clone()), Op::Remove(n), Op::Remove(2 * n + 1),
            ] {
                unchanged(&j, m, &op, t)?;
            }
            Ok(())
        },
    );
    crate::related::failures(run);
    crate::related::bystanders(run, false);
    crate::related::one_unlike(run, false);
}

// ---------------------------------------------------------------- C14

/// members: (key number, value)
type Members = Vec<(usize, i32)>;
type Keys<'a> = &'a [&'a str];
const KEYS: [&str; 3] = ["a", "b", ""];

fn expect(ks: Keys, ms: &Members) -> BTreeMap<String, Vec<Rv>> {
    let mut m: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
    for (a, v) in ms {
        m.entry(ks[*a].into()).or_default().push(Rv::Num(*v as f64));
    }
    m
}

fn by_object_macro(ks: Keys, ms: &Members) -> Option<Json> {
    let g = |i: usize| ks[ms[i].0];
    let v = |i: usize| ms[i].1;
    Some(match ms.len() {
        0 => json::object! {},
        1 => json::object! { g(0) => v(0) },
        2 => json::object! { g(0) => v(0), g(1) => v(1), },
        3 => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2) },
        4 => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2), g(3) => v(3) },
        5 => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2), g(3) => v(3), g(4) => v(4), },
        6 => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2), g(3) => v(3), g(4) => v(4), g(5) => v(5) },
        7 => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2), g(3) => v(3), g(4) => v(4), g(5) => v(5), g(6) => v(6) },
        _ => return None,
    })
}

pub const ENTRIES: [&str; 7] = ["parse", "append", "add_option", "object!", "list of pairs", "slice of pairs", "parse half, append half"];

fn enter(ks: Keys, ms: &Members, how: usize) -> Result<Option<Json>, Fail> {
    let text = |m: &[(usize, i32)]| format!("{{{}}}", m.iter().map(|(a, v)| format!("{} : {}", Rv::s(ks[*a]).text(), v)).collect::<Vec<_>>().join(" ,"));
    use json::ToJson;
    Ok(Some(match how {
        0 => match Json::parse(&text(ms)) {
            Ok(j) => j,
            Err(e) => return fail("parse", "Ok", e.to_string()),
        },
        1 => {
            let mut j = json::object! {};
            for (a, v) in ms {
                if j.append(ks[*a], *v).is_err() {
                    return fail("append", "Ok", "Err");
                }
            }
            j
        }
        2 => {
            let mut j = json::object! {};
            for (a, v) in ms {
                if j.add_option(ks[*a].to_string(), v.to_json(), true).is_err() {
                    return fail("add_option", "Ok", "Err");
                }
            }
            j
        }
        3 => match by_object_macro(ks, ms) {
            Some(j) => j,
            None => return Ok(None),
        },
        4 => ms.iter().map(|(a, v)| (ks[*a].to_string(), *v)).collect::<Vec<(String, i32)>>().to_json(),
        5 => {
            let l: Vec<(&str, i32)> = ms.iter().map(|(a, v)| (ks[*a], *v)).collect();
            (&l[..]).to_json()
        }
        _ => {
            let h = ms.len() / 2;
            let mut j = match Json::parse(&text(&ms[..h])) {
                Ok(j) => j,
                Err(e) => return fail("parse", "Ok", e.to_string()),
            };
            for (a, v) in &ms[h..] {
                if j.append(ks[*a], *v).is_err() {
                    return fail("append", "Ok", "Err");
                }
            }
            j
        }
    }))
}

fn leave(j: &Json, w: &BTreeMap<String, Vec<Rv>>, t: &mut Tally) -> Result<(), Fail> {
    let total: usize = w.values().map(|x| x.len()).sum();
    t.calls += 6;
    // text
    match rv::parse(&j.to_string()) {
        Some(Rv::Obj(g)) if g == *w => {}
        _ => return fail("the encoded text", Rv::Obj(w.clone()).canon(), j.to_string()),
    }
    for (kk, vs) in w {
        let nums: Vec<f64> = vs.iter().map(|x| if let Rv::Num(n) = x { *n } else { f64::NAN }).collect();
        match j.index_and_merge(kk) {
            Ok(g) if g.len() == vs.len() && g.iter().zip(vs).all(|(a, b)| rv::same(a, b)) => {}
            other => return fail(format!("index_and_merge {:?}", kk), format!("{:?}", vs), format!("{:?}", other)),
        }
        let last = *nums.last().unwrap();
        let seen = [
            j.find(kk.as_str()).ok().cloned(),
            Some(j[kk.as_str()].clone()),
            if kk.is_empty() { Some(Json::Number(last)) } else { j.get(&rv::enc_key(kk)).ok().cloned() },
        ];
        for s in seen {
            if s != Some(Json::Number(last)) {
                return fail(format!("the current value of {:?}", kk), last.to_string(), format!("{:?}", s));
            }
        }
    }
    // pairs: each member once, the values of one key in order
    match j.convert::<Vec<(String, i32)>>() {
        Ok(l) => {
            let mut g: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
            for (kk, v) in &l {
                g.entry(kk.clone()).or_default().push(Rv::Num(*v as f64));
            }
            if l.len() != total || g != *w {
                return fail("decoding into a list of pairs", Rv::Obj(w.clone()).canon(), format!("{:?}", l));
            }
        }
        Err(e) => return fail("decoding into a list of pairs", "Ok", e.to_string()),
    }
    match j.convert::<HashMap<String, f64>>() {
        Ok(h) if h.len() == w.len() && w.iter().all(|(kk, v)| h.get(kk).map(|x| Rv::Num(*x)) == v.last().cloned()) => {}
        other => return fail("decoding into a map", Rv::Obj(w.clone()).canon(), format!("{:?}", other)),
    }
    Ok(())
}

/// the same with documents as values
fn enter_docs(ms: &[(usize, Rv)], how: usize) -> Result<Json, Fail> {
    use json::ToJson;
    let text = |m: &[(usize, Rv)]| format!("{{{}}}", m.iter().map(|(a, v)| format!("{}:{}", Rv::s(KEYS[*a]).text(), v.text())).collect::<Vec<_>>().join(","));
    let parse = |s: &str| match Json::parse(s) {
        Ok(j) => Ok(j),
        Err(e) => fail("parse", "Ok", e.to_string()),
    };
    let add = |j: &mut Json, m: &[(usize, Rv)], option: bool| {
        for (a, v) in m {
            let r = if option { j.add_option(KEYS[*a].to_string(), v.build(), true) } else { j.append(KEYS[*a], v.build()) };
            if r.is_err() {
                return fail("append", "Ok", "Err");
            }
        }
        Ok(())
    };
    Ok(match how {
        0 => parse(&text(ms))?,
        1 | 2 => {
            let mut j = json::object! {};
            add(&mut j, ms, how == 2)?;
            j
        }
        3 => {
            let (g, v) = (|i: usize| KEYS[ms[i].0], |i: usize| ms[i].1.build());
            match ms.len() {
                2 => json::object! { g(0) => v(0), g(1) => v(1) },
                _ => json::object! { g(0) => v(0), g(1) => v(1), g(2) => v(2) },
            }
        }
        4 => ms.iter().map(|(a, v)| (KEYS[*a].to_string(), v.build())).collect::<Vec<(String, Json)>>().to_json(),
        5 => {
            let l: Vec<(&str, Json)> = ms.iter().map(|(a, v)| (KEYS[*a], v.build())).collect();
            (&l[..]).to_json()
        }
        _ => {
            let mut j = parse(&text(&ms[..1]))?;
            add(&mut j, &ms[1..], false)?;
            j
        }
    })
}

fn leave_docs(j: &Json, w: &BTreeMap<String, Vec<Rv>>, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 6;
    match rv::parse(&j.to_string()) {
        Some(Rv::Obj(g)) if g == *w => {}
        _ => return fail("the encoded text", Rv::Obj(w.clone()).canon(), j.to_string()),
    }
    for (kk, vs) in w {
        match j.index_and_merge(kk) {
            Ok(g) if g.len() == vs.len() && g.iter().zip(vs).all(|(a, b)| rv::same(a, b)) => {}
            other => return fail(format!("index_and_merge {:?}", kk), format!("{:?}", vs), format!("{:?}", other)),
        }
        let last = vs.last().unwrap();
        let mut seen = vec![j.find(kk.as_str()).ok(), Some(&j[kk.as_str()])];
        if !kk.is_empty() {
            seen.push(j.get(&rv::enc_key(kk)).ok());
        }
        for s in seen {
            if !s.map_or(false, |s| rv::same(s, last)) {
                return fail(format!("the current value of {:?}", kk), last.canon(), format!("{:?}", s));
            }
        }
    }
    match j.convert::<Vec<(String, Json)>>() {
        Ok(l) => {
            let mut g: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
            for (kk, v) in &l {
                g.entry(kk.clone()).or_default().push(rv::read(v));
            }
            if g != *w {
                return fail("decoding into a list of pairs", Rv::Obj(w.clone()).canon(), format!("{:?}", l));
            }
        }
        Err(e) => return fail("decoding into a list of pairs", "Ok", e.to_string()),
    }
    match j.convert::<HashMap<String, Json>>() {
        Ok(h) if h.len() == w.len() && w.iter().all(|(kk, v)| h.get(kk).map_or(false, |x| rv::same(x, v.last().unwrap()))) => Ok(()),
        other => fail("decoding into a map", Rv::Obj(w.clone()).canon(), format!("{:?}", other)),
    }
}

pub fn c14(run: &mut Run) {
    let max = if run.thorough { 9 } else { 7 };
    run.family(
        "entries-x-exits",
        "every sequence of up to 7 (thorough 9) members over three keys (one of them empty), values numbered, entered in seven ways, left in six",
        upto(3, max) * 7,
        |i, o| {
            let mut w = vec![];
            word(3, i / 7, &mut w);
            o.push((i % 7) as u8);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| format!("{} of keys {:?}", ENTRIES[p[0] as usize], p[1..].iter().map(|x| KEYS[*x as usize]).collect::<Vec<_>>()),
        |p, t| {
            let ms: Members = p[1..].iter().enumerate().map(|(n, a)| (*a as usize, n as i32)).collect();
            t.validated += 1;
            t.calls += 1;
            let j = match enter(&KEYS, &ms, p[0] as usize)? {
                Some(j) => j,
                None => return Ok(()),
            };
            let w = expect(&KEYS, &ms);
            leave(&j, &w, t)?;
            // once more through the text, and as a member and an element
            match Json::parse(&j.to_string()) {
                Ok(j2) => leave(&j2, &w, t)?,
                Err(e) => return fail("parsing the encoded text", "Ok", e.to_string()),
            }
            let outer = json::object! { "x" => 0, "x" => json::array![j.clone(), 1] };
            match Json::parse(&outer.to_string()).and_then(|o| o.get("x.#0").map(|x| x.clone())) {
                Ok(j2) => leave(&j2, &w, t),
                Err(e) => fail("reaching the nested object", "Ok", e.to_string()),
            }
        },
    );
    // equal values: a repeated value is still a separate occurrence
    run.family(
        "equal-values",
        "every sequence of up to 6 (thorough 8) members over two keys and two values (so that repeated members are equal), entered in seven ways",
        upto(4, if run.thorough { 8 } else { 6 }) * 7,
        |i, o| {
            let mut w = vec![];
            word(4, i / 7, &mut w);
            o.push((i % 7) as u8);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| format!("{} of {:?}", ENTRIES[p[0] as usize], &p[1..]),
        |p, t| {
            let ms: Members = p[1..].iter().map(|a| ((*a / 2) as usize, (*a % 2) as i32)).collect();
            t.validated += 1;
            t.calls += 1;
            match enter(&KEYS, &ms, p[0] as usize)? {
                Some(j) => leave(&j, &expect(&KEYS, &ms), t),
                None => Ok(()),
            }
        },
    );
    let ladder: Vec<usize> = (0..=130).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 65535, 65536, 65537]).collect();
    run.family(
        "counts",
        "n values of one key, n values of each of two keys alternating, n values then another key (n = 0..130 and a ladder to 65537), seven entries",
        ladder.len() as u64 * 21,
        |i, o| {
            put_idx(&[(i % 7) as usize, (i / 7 % 3) as usize, ladder[(i / 21) as usize]], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let v = idx(p);
            let ms: Members = match v[1] {
                0 => (0..v[2]).map(|i| (0, i as i32)).collect(),
                1 => (0..v[2]).map(|i| (i % 2, i as i32)).collect(),
                _ => (0..v[2]).map(|i| (if i + 1 == v[2] { 1 } else { 0 }, i as i32)).collect(),
            };
            t.validated += 1;
            t.calls += 1;
            match enter(&KEYS, &ms, v[0])? {
                Some(j) => leave(&j, &expect(&KEYS, &ms), t),
                None => Ok(()),
            }
        },
    );
    // other key types: repeated after conversion
    run.family(
        "key-types",
        "lists of pairs whose keys are numbers, characters or booleans (every sequence of up to 6 over three keys), encoded, parsed and decoded at the same types",
        upto(3, 6) * 3,
        |i, o| {
            let mut w = vec![];
            word(3, i / 3, &mut w);
            o.push((i % 3) as u8);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| format!("key type {} keys {:?}", p[0], &p[1..]),
        |p, t| {
            fn go<K: ToString + std::str::FromStr + Clone + Ord + std::fmt::Debug>(ks: &[K], w: &[u8], t: &mut Tally) -> Result<(), Fail> {
                t.calls += 3;
                t.validated += 1;
                let l: Vec<(K, usize)> = w.iter().enumerate().map(|(n, x)| (ks[*x as usize].clone(), n)).collect();
                let s = json::encode(&l);
                let s2 = json::encode(&&l[..]);
                let mut want: BTreeMap<K, Vec<usize>> = BTreeMap::new();
                for (a, b) in &l {
                    want.entry(a.clone()).or_default().push(*b);
                }
                if s != s2 {
                    return fail("slice and list encode differently", s, s2);
                }
                match json::decode::<Vec<(K, usize)>>(&s) {
                    Ok(g) => {
                        let mut got: BTreeMap<K, Vec<usize>> = BTreeMap::new();
                        for (a, b) in &g {
                            got.entry(a.clone()).or_default().push(*b);
                        }
                        if got != want || g.len() != l.len() {
                            return fail("decoded pairs", format!("{:?}", want), format!("{:?}", g));
                        }
                        Ok(())
                    }
                    Err(e) => fail("decoding pairs", "Ok", e.to_string()),
                }
            }
            match p[0] {
                0 => go(&[1i64, -2, 10], &p[1..], t),
                1 => go(&['a', '"', '\u{1f600}'], &p[1..], t),
                _ => go(&[true, false, true], &p[1..], t),
            }
        },
    );
    // values of every kind, equal and different
    let ks = crate::related::kinds();
    let nk = ks.len();
    let pats: [&[usize]; 5] = [&[0, 0], &[0, 0, 0], &[0, 1, 0], &[1, 0, 0], &[0, 0, 1]];
    run.family(
        "value-kinds",
        "every triple of 22 values of every kind as the values of one key, or of two keys in turn, entered in seven ways, left in six",
        product(&[nk, nk, nk, 5, 7]),
        |i, o| {
            let d = digits(i, &[nk, nk, nk, 5, 7]);
            if d[3] == 0 && d[2] != 0 {
                return false;
            }
            put_idx(&d, o);
            true
        },
        |p| {
            let d = idx(p);
            format!("{} of keys {:?} values {} {} {}", ENTRIES[d[4]], pats[d[3]], ks[d[0]].canon(), ks[d[1]].canon(), ks[d[2]].canon())
        },
        |p, t| {
            let d = idx(p);
            let ms: Vec<(usize, Rv)> = pats[d[3]].iter().enumerate().map(|(n, a)| (*a, ks[d[n]].clone())).collect();
            t.validated += 1;
            t.calls += 1;
            let j = enter_docs(&ms, d[4])?;
            let mut w: BTreeMap<String, Vec<Rv>> = BTreeMap::new();
            for (a, v) in &ms {
                w.entry(KEYS[*a].to_string()).or_default().push(v.clone());
            }
            leave_docs(&j, &w, t)?;
            match Json::parse(&j.to_string()) {
                Ok(j2) => leave_docs(&j2, &w, t),
                Err(e) => fail("parsing the encoded text", "Ok", e.to_string()),
            }
        },
    );
    // keys that are easily taken for one another
    let sub: Vec<usize> = (0..7).collect();
    run.family(
        "related-keys",
        "every ordered pair of related keys (prefixes, cases, trimming, escapes, normal forms, numbers, long common prefixes) in every arrangement of up to four members, entered in seven ways, left in six",
        crate::related::PAIRS * 31 * sub.len() as u64,
        |i, o| {
            let (how, w, pr) = ((i % 7) as usize, i / 7 % 31, i / 217);
            let Some((x, y)) = crate::related::pair(pr) else { return false };
            let mut v = vec![];
            word(2, w, &mut v);
            let mut q = vec![how, x, y];
            q.extend(v);
            put_idx(&q, o);
            true
        },
        |p| {
            let d = idx(p);
            format!("{} of {:?}", ENTRIES[d[0]], d[3..].iter().map(|i| crate::related::REL[d[1 + i]]).collect::<Vec<_>>())
        },
        |p, t| {
            let d = idx(p);
            let ks = [crate::related::REL[d[1]], crate::related::REL[d[2]]];
            let ms: Members = d[3..].iter().enumerate().map(|(n, a)| (*a, n as i32)).collect();
            t.validated += 1;
            t.calls += 1;
            match enter(&ks, &ms, d[0])? {
                Some(j) => leave(&j, &expect(&ks, &ms), t),
                None => Ok(()),
            }
        },
    );
}
