//! C12 typed round trips, C13 wrong shapes.
use crate::engine::*;
use crate::gen::*;
use crate::rv::{self, Rv, E};
use json::{FromJson, Json, ToJson};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::str::FromStr;

/// Supported types, as the model sees them.
#[derive(Clone, Debug)]
pub enum Ty {
    Num,
    Bool,
    Str,
    Doc,
    Opt(Box<Ty>),
    List(Box<Ty>),
    Map(fn(&str) -> Option<String>, Box<Ty>),
    Pairs(fn(&str) -> Option<String>, Box<Ty>),
}

/// A decoded value, as the model sees it. Maps and pairs are sorted by key (stably).
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    None,
    Some(Box<Val>),
    Num(u64),
    Bool(bool),
    Str(String),
    Doc(Rv),
    List(Vec<Val>),
    Keyed(Vec<(String, Val)>),
}

/// What decoding `d` at type `t` must give; None: it must fail.
pub fn expect(d: &Rv, t: &Ty) -> Option<Val> {
    match (t, d) {
        (Ty::Num, Rv::Num(n)) => Some(Val::Num(n.to_bits())),
        (Ty::Bool, Rv::Bool(b)) => Some(Val::Bool(*b)),
        (Ty::Str, Rv::Str(s)) => Some(Val::Str(s.clone())),
        (Ty::Doc, d) => Some(Val::Doc(d.clone())),
        (Ty::Opt(_), Rv::Null) => Some(Val::None),
        (Ty::Opt(t), d) => expect(d, t).map(|x| Val::Some(Box::new(x))),
        (Ty::List(t), Rv::Arr(v)) => v.iter().map(|x| expect(x, t)).collect::<Option<Vec<_>>>().map(Val::List),
        (Ty::Map(k, t), Rv::Obj(m)) => {
            let mut o = vec![];
            for (kk, vs) in m {
                o.push((k(kk)?, expect(vs.last().unwrap(), t)?));
            }
            o.sort_by(|a, b| a.0.cmp(&b.0));
            Some(Val::Keyed(o))
        }
        (Ty::Pairs(k, t), Rv::Obj(m)) => {
            let mut o = vec![];
            for (kk, vs) in m {
                for v in vs {
                    o.push((k(kk)?, expect(v, t)?));
                }
            }
            o.sort_by(|a, b| a.0.cmp(&b.0));
            Some(Val::Keyed(o))
        }
        _ => None,
    }
}

pub trait Typed: FromJson {
    fn ty() -> Ty;
    fn val(&self) -> Val;
}
pub trait Key: FromStr + Debug + Eq + Hash + Clone {
    fn name(s: &str) -> Option<String> {
        Self::from_str(s).ok().map(|x| format!("{:?}", x))
    }
}
impl Key for String {}
impl Key for i32 {}
impl Key for u8 {}
impl Key for bool {}
impl Key for char {}

macro_rules! num {
    ($($t:ty)*) => { $(impl Typed for $t { fn ty() -> Ty { Ty::Num } fn val(&self) -> Val { Val::Num((*self as f64).to_bits()) } })* };
}
num!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
impl Typed for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn val(&self) -> Val {
        Val::Bool(*self)
    }
}
impl Typed for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl Typed for Json {
    fn ty() -> Ty {
        Ty::Doc
    }
    fn val(&self) -> Val {
        Val::Doc(rv::read(self))
    }
}
impl<T: Typed> Typed for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(T::ty()))
    }
    fn val(&self) -> Val {
        match self {
            None => Val::None,
            Some(x) => Val::Some(Box::new(x.val())),
        }
    }
}
impl<T: Typed> Typed for Vec<T> {
    fn ty() -> Ty {
        Ty::List(Box::new(T::ty()))
    }
    fn val(&self) -> Val {
        Val::List(self.iter().map(|x| x.val()).collect())
    }
}
impl<K: Key, V: Typed> Typed for Vec<(K, V)> {
    fn ty() -> Ty {
        Ty::Pairs(K::name, Box::new(V::ty()))
    }
    fn val(&self) -> Val {
        let mut o: Vec<(String, Val)> = self.iter().map(|(k, v)| (format!("{:?}", k), v.val())).collect();
        o.sort_by(|a, b| a.0.cmp(&b.0));
        Val::Keyed(o)
    }
}
impl<K: Key, V: Typed> Typed for HashMap<K, V> {
    fn ty() -> Ty {
        Ty::Map(K::name, Box::new(V::ty()))
    }
    fn val(&self) -> Val {
        let mut o: Vec<(String, Val)> = self.iter().map(|(k, v)| (format!("{:?}", k), v.val())).collect();
        o.sort_by(|a, b| a.0.cmp(&b.0));
        Val::Keyed(o)
    }
}

type Got = Result<Val, (Option<E>, String)>;
fn err(e: json::Error) -> (Option<E>, String) {
    (E::of(&e.kind), e.to_string())
}
fn conv<T: Typed>(j: &Json) -> Got {
    j.convert::<T>().map(|x| x.val()).map_err(err)
}
fn dec<T: Typed>(s: &str) -> Got {
    json::decode::<T>(s).map(|x| x.val()).map_err(err)
}

/// One supported type.
pub struct Row {
    name: &'static str,
    ty: Ty,
    conv: fn(&Json) -> Got,
    dec: fn(&str) -> Got,
}

fn shape(r: &Row, m: &Rv, j: &Json, text: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 2;
    t.validated += 1;
    let want = expect(m, &r.ty);
    t.out(if want.is_some() { "fits" } else { "does not fit" });
    for (how, got) in [("convert", (r.conv)(j)), ("decode", (r.dec)(text))] {
        match (got, &want) {
            (Ok(g), Some(w)) => {
                if g != *w {
                    return fail(format!("{} at {}", how, r.name), format!("{:?}", w), format!("{:?}", g));
                }
            }
            (Err(e), None) => {
                if e.0 != Some(E::Convert) {
                    return fail(format!("{} at {} fails with the wrong kind", how, r.name), "ConvertError", e.1);
                }
            }
            (Ok(g), None) => return fail(format!("{} at {} succeeds although the shape is wrong", how, r.name), "ConvertError", format!("{:?}", g)),
            (Err(e), Some(w)) => return fail(format!("{} at {} fails although the shape is right", how, r.name), format!("{:?}", w), e.1),
        }
    }
    Ok(())
}

macro_rules! rows {
    ($v:expr; $($ty:ty),* $(,)?) => { $( $v.push(Row { name: stringify!($ty), ty: <$ty as Typed>::ty(), conv: conv::<$ty>, dec: dec::<$ty> }); )* };
}
macro_rules! four {
    ($v:expr; $($l:ty),*) => { $( rows!($v; Option<$l>, Vec<$l>, HashMap<String, $l>, Vec<(String, $l)>); )* };
}
macro_rules! sixteen {
    ($v:expr; $($l:ty),*) => { $( four!($v; Option<$l>, Vec<$l>, HashMap<String, $l>, Vec<(String, $l)>); )* };
}

fn all_types() -> Vec<Row> {
    let mut v = vec![];
    rows!(v; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String, Json);
    four!(v; u8, i64, f64, f32, u128, bool, String, Json);
    rows!(v; Vec<u16>, Vec<u32>, Vec<u64>, Vec<usize>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i128>, Vec<isize>);
    rows!(v; HashMap<i32, u8>, HashMap<u8, bool>, HashMap<char, String>, HashMap<bool, u8>, Vec<(i32, u8)>, Vec<(u8, bool)>, Vec<(char, String)>, Vec<(bool, u8)>);
    rows!(v; Option<HashMap<i32, u8>>, Vec<Vec<(u8, bool)>>, HashMap<i32, Option<u8>>, Vec<(u8, Vec<bool>)>);
    sixteen!(v; i32, String);
    v
}
fn deep_types() -> Vec<Row> {
    let mut v = vec![];
    sixteen!(v; Option<u8>, Vec<u8>, HashMap<String, u8>, Vec<(String, u8)>);
    rows!(v; Vec<Vec<Vec<Vec<Json>>>>, Option<Vec<HashMap<String, Option<bool>>>>, HashMap<u8, Vec<(i32, Vec<String>)>>);
    v
}
fn judge(rows: &[Row], x: &str, t: &mut Tally) -> Result<(), Fail> {
    let m = rv::parse(x).unwrap();
    let j = m.build();
    for r in rows {
        shape(r, &m, &j, x, t)?;
    }
    Ok(())
}

pub fn c13(run: &mut Run) {
    let th = run.thorough;
    let (rows1, rows3) = (all_types(), deep_types());
    let leaves: Vec<Rv> = ["null", "1", "true", "\"s\""].iter().map(|x| rv::parse(x).unwrap()).collect();
    let mut docs = leaves.clone();
    docs.extend(arrays(&leaves, 3));
    docs.extend(objects(&["1", "ab"], &leaves, 2, 3));
    docs.extend(objects(&["a", "true", "-7", ""], &leaves[1..3], 1, 2));
    docs.extend(objects(&["256", "-1", "0x1", "1.0"], &leaves[1..3], 1, 2));
    let l1: Vec<Rv> = docs.iter().filter(|d| d.size() <= if th { 4 } else { 3 }).cloned().collect();
    let tiny: Vec<Rv> = docs.iter().filter(|d| d.size() <= 2).cloned().collect();
    let mut l2 = arrays(&l1, if th { 2 } else { 1 });
    l2.extend(objects(&["1", "ab"], &l1, 1, 1));
    l2.extend(arrays(&tiny, 2));
    l2.extend(objects(&["1", "k"], &tiny, 2, 2));
    docs.extend(l2.iter().cloned());
    docs.sort_by_key(|x| x.canon());
    docs.dedup_by_key(|x| x.canon());
    let texts: Vec<String> = docs.iter().map(|x| x.text()).collect();
    run.family(
        "documents-x-types",
        &format!("every document of nesting 2 over null, a number, a boolean and a string, with keys that do and do not convert x {} types (every leaf type, eight leaf types in four containers, four key types, two leaf types in every pair of containers)", rows1.len()),
        texts.len() as u64,
        |i, o| {
            o.extend_from_slice(texts[i as usize].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| judge(&rows1, st(p), t),
    );
    // one level deeper
    let small: Vec<Rv> = l2.iter().filter(|d| d.size() <= if th { 5 } else { 4 }).cloned().collect();
    let mut l3 = arrays(&small, 1);
    l3.extend(objects(&["1"], &small, 1, 1));
    let pairs: Vec<Rv> = docs.iter().filter(|d| d.size() <= 3 && d.depth() >= 1).cloned().collect();
    if th {
        l3.extend(arrays(&pairs, 2));
    }
    for d in &pairs {
        for e in [&leaves[1], &docs[0], &Rv::Arr(vec![])] {
            l3.push(Rv::Arr(vec![d.clone(), (*e).clone()]));
            l3.push(Rv::Arr(vec![(*e).clone(), d.clone()]));
            l3.push(Rv::obj(&[("k", d.clone()), ("k", (*e).clone())]));
            l3.push(Rv::obj(&[("k", (*e).clone()), ("1", d.clone())]));
        }
    }
    l3.extend(l2.iter().cloned());
    let t3: Vec<String> = l3.iter().map(|x| x.text()).collect();
    run.family(
        "deep-types",
        &format!("documents of nesting 3 x {} types: every three levels of the four containers, some of four", rows3.len()),
        t3.len() as u64,
        |i, o| {
            o.extend_from_slice(t3[i as usize].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| judge(&rows3, st(p), t),
    );
    // one wrong element at any position of long containers
    let kinds = ["null", "1", "true", "\"s\"", "[]", "{}"];
    let ladder: Vec<usize> = if th { (1..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() } else { (1..=18).chain([31, 32, 33, 63, 64, 65]).collect() };
    let mut rows_e = vec![];
    rows!(rows_e; Vec<u8>, Vec<f64>, Vec<bool>, Vec<String>, Vec<Option<i64>>, Vec<Vec<u8>>, Vec<Json>, HashMap<String, u8>, HashMap<i32, bool>, Vec<(String, String)>, Vec<(i32, Option<u8>)>, HashMap<String, HashMap<String, u8>>, Vec<(String, Vec<(String, u8)>)>);
    let mut rows_k = vec![];
    rows!(rows_k; HashMap<i32, u8>, HashMap<u8, f64>, Vec<(i32, u8)>, Vec<(u8, f64)>, HashMap<char, i8>, Vec<(char, i8)>, HashMap<bool, u8>, Vec<(bool, u8)>, HashMap<String, i32>, Vec<(String, i32)>, Option<HashMap<i32, u8>>, Vec<(i32, Option<u8>)>);
    let mut spots = vec![];
    for n in &ladder {
        for p in 0..*n {
            spots.push((*n, p));
        }
    }
    run.family(
        "one-odd-element",
        "containers of n elements of one kind with one element of another kind at every position (n = 1..18 and a ladder to 65, thorough 1..40 and a ladder to 257; six kinds; array, object, repeated key)",
        spots.len() as u64 * 36 * 3,
        |i, o| {
            let d = digits(i, &[36, 3, spots.len()]);
            let (n, p) = spots[d[2]];
            put_idx(&[d[0] / 6, d[0] % 6, d[1], n, p], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let (a, b) = (rv::parse(kinds[d[0]]).unwrap(), rv::parse(kinds[d[1]]).unwrap());
            let items: Vec<Rv> = (0..d[3]).map(|i| if i == d[4] { b.clone() } else { a.clone() }).collect();
            let m = match d[2] {
                0 => Rv::Arr(items),
                1 => Rv::Obj(items.into_iter().enumerate().map(|(i, x)| (format!("{}", i % 1000), vec![x])).collect()),
                _ => Rv::Obj([("7".to_string(), items)].into_iter().collect()),
            };
            judge(&rows_e, &m.text(), t)
        },
    );
    // one odd key at any position
    let keysets: &[&str] = &["x", "", "1.5", "-", "99999999999", "300", "-1", " 1", "true", "1 ", "\u{661}", "1e1", "ab"];
    run.family(
        "one-odd-key",
        "objects of 1..24 numeric keys plus one odd key (13 spellings), first, in the middle or last, with and without repeats",
        24 * 13 * 2,
        |i, o| {
            put_idx(&digits(i, &[13, 24, 2]), o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let mut m: BTreeMap<String, Vec<Rv>> = (0..d[1]).map(|i| (format!("{}", 10 * i), vec![Rv::Num(i as f64)])).collect();
            m.insert(keysets[d[0]].into(), if d[2] == 0 { vec![Rv::Num(1.0)] } else { vec![Rv::Num(1.0), Rv::Num(2.0)] });
            let m = Rv::Obj(m);
            judge(&rows_k, &m.text(), t)
        },
    );
}

// ---------------------------------------------------------------- C12

/// Values of a type: at most about n of them, always the same ones.
pub trait Gen: Sized + Clone {
    fn vals(n: usize) -> Vec<Self>;
}
macro_rules! gen {
    ($($t:ty: [$($v:expr),*];)*) => { $(impl Gen for $t { fn vals(n: usize) -> Vec<Self> { let mut v: Vec<$t> = vec![$($v),*]; v.truncate(n); v } })* };
}
gen! {
    u8: [0, 255, 7, 128, 10];
    u16: [0, 65535, 256];
    u32: [0, u32::MAX, 1 << 31];
    u64: [1, 1 << 53, 1 << 63, 0];
    u128: [1, 1 << 127, 3 << 60, 0];
    usize: [0, 1 << 53];
    i8: [-128, 127, 0, -1];
    i16: [-32768, 32767];
    i32: [i32::MIN, i32::MAX, 0, -1];
    i64: [i64::MIN, 1 << 53, -(1 << 53), 0];
    i128: [i128::MIN, 1 << 100, -3];
    isize: [isize::MIN, -1, 0];
    f32: [0.1, -0.0, f32::MAX, f32::MIN_POSITIVE, 1.0];
    f64: [0.1, -0.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, -1.5];
    bool: [true, false];
}
impl Gen for String {
    fn vals(n: usize) -> Vec<String> {
        let mut v: Vec<String> = ["", "a", "]\"}", "\u{e9}\u{1f600}", "null", "\\u0041", "\n\0"].iter().map(|x| x.to_string()).collect();
        v.truncate(n);
        v
    }
}
impl Gen for char {
    fn vals(n: usize) -> Vec<char> {
        let mut v = vec!['a', '"', '\u{1f600}', '\\'];
        v.truncate(n);
        v
    }
}
impl Gen for Json {
    fn vals(n: usize) -> Vec<Json> {
        let mut v: Vec<Json> = ["1.5", "\"s\"", "[null,{\"a\":1,\"a\":[]}]", "{}", "true"].iter().map(|x| rv::parse(x).unwrap().build()).collect();
        v.truncate(n);
        v
    }
}
impl<T: Gen> Gen for Option<T> {
    fn vals(n: usize) -> Vec<Self> {
        std::iter::once(None).chain(T::vals(n).into_iter().map(Some)).collect()
    }
}
fn lists<T: Clone>(items: &[T], len: u32) -> Vec<Vec<T>> {
    let mut w = vec![];
    (0..upto(items.len() as u64, len))
        .map(|i| {
            word(items.len() as u64, i, &mut w);
            w.iter().map(|x| items[*x].clone()).collect()
        })
        .collect()
}
/// k values of the list, first and last included, evenly spread
fn pick<T: Clone>(v: Vec<T>, k: usize) -> Vec<T> {
    if v.len() <= k {
        return v;
    }
    (0..k).map(|i| v[i * (v.len() - 1) / (k - 1)].clone()).collect()
}
impl<T: Gen> Gen for Vec<T> {
    fn vals(n: usize) -> Vec<Self> {
        lists(&pick(T::vals(n), n + 1), 3)
    }
}
fn keyed<K: Gen, V: Gen>(n: usize) -> Vec<Vec<(K, V)>> {
    let vs = pick(V::vals(n), n - 1);
    let items: Vec<(K, V)> = K::vals(n - 1).into_iter().flat_map(|k| vs.iter().map(move |v| (k.clone(), v.clone()))).collect();
    lists(&items, 3)
}
impl<K: Gen, V: Gen> Gen for Vec<(K, V)> {
    fn vals(n: usize) -> Vec<Self> {
        keyed(n)
    }
}
impl<K: Gen + Eq + Hash, V: Gen> Gen for HashMap<K, V> {
    fn vals(n: usize) -> Vec<Self> {
        keyed(n).into_iter().map(|l| l.into_iter().collect()).collect()
    }
}

fn trip<T: ToJson + Typed>(name: &str, x: &T, t: &mut Tally) -> Result<(), Fail> {
    let s = json::encode(x);
    let j = x.to_json();
    tripped(name, x.val(), T::ty(), dec::<T>(&s), &s, T::from_json(&j).map(|x| x.val()).map_err(err), &j, t)
}
fn tripped(name: &str, w: Val, ty: Ty, a: Got, s: &str, b: Got, j: &Json, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 4;
    t.validated += 1;
    match a {
        Ok(g) if g == w => {}
        Ok(g) => return fail(format!("{} encoded as {}", name, shorten(s)), format!("{:?}", w), format!("{:?}", g)),
        Err(e) => return fail(format!("{} encoded as {}", name, shorten(s)), format!("{:?}", w), e.1),
    }
    match b {
        Ok(g) if g == w => {}
        Ok(g) => return fail(format!("from_json(to_json) at {}", name), format!("{:?}", w), format!("{:?}", g)),
        Err(e) => return fail(format!("from_json(to_json) at {}", name), format!("{:?}", w), e.1),
    }
    // the document says what the value is
    match expect(&rv::read(j), &ty) {
        Some(g) if g == w => Ok(()),
        g => fail(format!("to_json at {}", name), format!("{:?}", w), format!("{:?}", g)),
    }
}

fn trips<T: ToJson + Typed + Gen>(name: &str, n: usize, t: &mut Tally) -> Result<(), Fail> {
    for x in T::vals(n) {
        trip(name, &x, t)?;
    }
    Ok(())
}

type TypeCase = (&'static str, fn(usize, &mut Tally) -> Result<(), Fail>);
macro_rules! types {
    ($v:expr; $($t:ty),* $(,)?) => { $( $v.push((stringify!($t), |n, t| trips::<$t>(stringify!($t), n, t))); )* };
}
macro_rules! type_four {
    ($v:expr; $($l:ty),*) => { $( types!($v; Option<$l>, Vec<$l>, HashMap<String, $l>, Vec<(String, $l)>); )* };
}
// lists of pairs and maps may not sit directly under Option<Option<..>>: null has one meaning
macro_rules! type_sixteen {
    ($v:expr; $($l:ty),*) => { $(
        type_four!($v; Vec<$l>, HashMap<String, $l>, Vec<(String, $l)>);
        types!($v; Vec<Option<$l>>, HashMap<String, Option<$l>>, Vec<(String, Option<$l>)>);
    )* };
}

pub fn c12(run: &mut Run) {
    let th = run.thorough;
    let mut ts: Vec<TypeCase> = vec![];
    types!(ts; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, String, Json);
    type_four!(ts; u8, i64, f64, f32, u128, bool, String);
    types!(ts; Vec<Json>, HashMap<String, Json>, Vec<(String, Json)>);
    types!(ts; Vec<u16>, Vec<u32>, Vec<u64>, Vec<usize>, Vec<i8>, Vec<i16>, Vec<i32>, Vec<i128>, Vec<isize>);
    types!(ts; HashMap<i32, u8>, HashMap<u8, bool>, HashMap<char, String>, HashMap<bool, u8>, Vec<(i32, u8)>, Vec<(u8, bool)>, Vec<(char, String)>, Vec<(bool, u8)>);
    type_sixteen!(ts; i32, String);
    type_sixteen!(ts; Vec<u8>, HashMap<String, u8>, Vec<(char, u8)>);
    types!(ts; Vec<Vec<Vec<Vec<Json>>>>, Option<Vec<HashMap<String, Option<bool>>>>, HashMap<u8, Vec<(i32, Vec<String>)>>, Vec<Option<Vec<bool>>>, Option<HashMap<char, Option<i32>>>);
    let n = if th { 5 } else { 4 };
    run.family(
        "types",
        &format!("every value built from small value sets (lists and maps of up to three entries, None and Some) of {} nested types, encoded and decoded", ts.len()),
        ts.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| ts[idx(p)[0]].0.to_string(),
        |p, t| (ts[idx(p)[0]].1)(n, t),
    );
    // all small integers, all representable large ones
    run.family(
        "integers",
        "every u8, i8, u16, i16 value; every m << s with m of up to 11 bits at the top or bottom of 53 bits, positive and negative, that fits the 32-, 64- and 128-bit types",
        65536 + 128 * 4096,
        |i, o| {
            o.extend_from_slice(&i.to_le_bytes());
            true
        },
        |p| format!("#{}", u64::from_le_bytes(p.try_into().unwrap())),
        |p, t| {
            let i = u64::from_le_bytes(p.try_into().unwrap());
            if i < 65536 {
                trip("u8", &(i as u8), t)?;
                trip("i8", &(i as i8), t)?;
                trip("u16", &(i as u16), t)?;
                trip("i16", &(i as i16), t)?;
                trip("i32", &(i as i32 - 32768), t)?;
                return Ok(());
            }
            let i = i - 65536;
            let (s, k) = ((i % 128) as u32, i / 128);
            let m: u128 = match k % 2 {
                0 => (k / 2) as u128,
                _ => (1u128 << 52) + (k / 2) as u128,
            };
            if s > 0 && (m << s) >> s != m {
                return Ok(());
            }
            let u = m << s;
            trip("u128", &u, t)?;
            if u <= u64::MAX as u128 {
                trip("u64", &(u as u64), t)?;
                trip("usize", &(u as usize), t)?;
            }
            if u <= u32::MAX as u128 {
                trip("u32", &(u as u32), t)?;
            }
            if u <= 1 << 127 {
                let n = (u as i128).wrapping_neg();
                trip("i128", &n, t)?;
                if u < 1 << 127 {
                    trip("i128", &(u as i128), t)?;
                }
                if u <= 1 << 63 {
                    trip("i64", &(n as i64), t)?;
                    trip("isize", &(n as isize), t)?;
                }
                if u <= 1 << 31 {
                    trip("i32", &(n as i32), t)?;
                }
            }
            Ok(())
        },
    );
    run.family(
        "floats",
        "f64: every sign and exponent with twelve mantissas; f32: every sign and exponent with every pattern of the top 8 mantissa bits; alone and inside Option, Vec and map",
        2 * 2047 * 12 + 2 * 255 * 256,
        |i, o| {
            o.extend_from_slice(&i.to_le_bytes());
            true
        },
        |p| format!("#{}", u64::from_le_bytes(p.try_into().unwrap())),
        |p, t| {
            let i = u64::from_le_bytes(p.try_into().unwrap());
            let n = 2 * 2047 * 12;
            if i < n {
                let m = [0, 1, (1 << 52) - 1, 1 << 51, (1 << 51) - 1, 0x5555555555555, 0x999999999999a, 2, 0xfffffffffffff - 1, 0x1999999999999, 3, 0x8000000000001][(i % 12) as usize];
                let f = f64::from_bits((i / 12 % 2) << 63 | (i / 24) << 52 | m);
                trip("f64", &f, t)?;
                trip("Vec<Option<f64>>", &vec![Some(f), None, Some(-f)], t)
            } else {
                let i = (i - n) as u32;
                let f = f32::from_bits((i & 1) << 31 | (i >> 9) << 23 | (i >> 1 & 0xff) << 15 | 1);
                trip("f32", &f, t)?;
                trip("Vec<(String, f32)>", &vec![("k".to_string(), f), ("k".to_string(), -f)], t)
            }
        },
    );
    // documents of every kind inside every container
    let ks = crate::related::kinds();
    let nk = ks.len();
    run.family(
        "document-kinds",
        "every pair of 22 documents of every kind as Json inside Vec, Option, HashMap, lists of pairs (repeated keys too) and their nestings",
        product(&[nk, nk]),
        |i, o| {
            put_idx(&digits(i, &[nk, nk]), o);
            true
        },
        |p| format!("{} {}", ks[idx(p)[0]].canon(), ks[idx(p)[1]].canon()),
        |p, t| {
            let d = idx(p);
            let (a, b) = (ks[d[0]].build(), ks[d[1]].build());
            let (ca, cb) = (|| a.clone(), || b.clone());
            let s = |x: &str| x.to_string();
            trip("Json", &a, t)?;
            trip("Vec<Json>", &vec![ca(), cb(), ca()], t)?;
            trip("Vec<Vec<Json>>", &vec![vec![ca()], vec![], vec![cb(), ca()]], t)?;
            let m: HashMap<String, Json> = [(s("a"), ca()), (s("b"), cb())].into_iter().collect();
            trip("HashMap<String, Json>", &m, t)?;
            trip("Vec<HashMap<String, Json>>", &vec![m.clone(), HashMap::new(), m.clone()], t)?;
            trip("Option<HashMap<String, Json>>", &Some(m), t)?;
            trip("HashMap<i32, Vec<Json>>", &[(1, vec![ca(), cb()]), (-2, vec![cb()])].into_iter().collect::<HashMap<i32, Vec<Json>>>(), t)?;
            let l = vec![(s("k"), ca()), (s("k"), cb()), (s("j"), cb()), (s("k"), ca())];
            trip("Vec<(String, Json)>", &l, t)?;
            trip("Vec<(String, Vec<(String, Json)>)>", &vec![(s("o"), l.clone()), (s("o"), vec![]), (s("p"), l.clone())], t)?;
            trip("Option<Vec<(String, Json)>>", &Some(l), t)?;
            trip("Vec<(char, Json)>", &vec![('k', cb()), ('k', ca())], t)?;
            trip("Option<Vec<Json>>", &Some(vec![ca(), cb()]), t)?;
            // null read as an option is none
            if a != Json::Null && b != Json::Null {
                trip("Option<Json>", &Some(ca()), t)?;
                trip("Vec<Option<Json>>", &vec![Some(ca()), None, Some(cb())], t)?;
                trip("HashMap<String, Option<Json>>", &[(s("a"), Some(ca())), (s("b"), None), (s(""), Some(cb()))].into_iter().collect::<HashMap<_, _>>(), t)?;
                trip("Vec<(String, Option<Json>)>", &vec![(s("a"), None), (s("a"), Some(ca())), (s("a"), Some(cb()))], t)?;
            }
            Ok(())
        },
    );
    crate::beside::odd_family(run, "as Json in Vec, HashMap and lists of pairs; as options when null is the odd one", |_, o, t| {
        let js: Vec<Json> = o.values.iter().map(|v| v.build()).collect();
        let list = |f: &dyn Fn(usize) -> String| js.iter().enumerate().map(|(i, v)| (f(i), v.clone())).collect::<Vec<(String, Json)>>();
        match o.form {
            0 => trip("Vec<Json>", &js, t)?,
            1 => {
                trip("HashMap<String, Json>", &list(&|i| o.key(i)).into_iter().collect::<HashMap<_, _>>(), t)?;
                trip("Vec<(String, Json)>", &list(&|i| o.key(i)), t)?;
            }
            _ => {
                trip("Vec<(String, Json)>", &list(&|i| o.key(i)), t)?;
                trip("Vec<(char, Json)>", &js.iter().enumerate().map(|(i, v)| (if i == o.place { 'a' } else { 'b' }, v.clone())).collect::<Vec<_>>(), t)?;
            }
        }
        if let (Rv::Null, Rv::Num(_)) = (&o.values[o.place], &o.values[(o.place + 1) % o.values.len()]) {
            let v: Vec<Option<u16>> = (0..js.len()).map(|i| if i == o.place { None } else { Some(i as u16) }).collect();
            let l: Vec<(String, Option<u16>)> = v.iter().enumerate().map(|(i, x)| (o.key(i), *x)).collect();
            match o.form {
                0 => trip("Vec<Option<u16>>", &v, t)?,
                1 => trip("HashMap<String, Option<u16>>", &l.into_iter().collect::<HashMap<_, _>>(), t)?,
                _ => trip("Vec<(String, Option<u16>)>", &l, t)?,
            }
            let w: Vec<Option<u16>> = (0..js.len()).map(|i| if i == o.place { Some(7) } else { None }).collect();
            trip("Vec<Option<u16>>", &w, t)?;
            trip("HashMap<i32, Option<u16>>", &w.iter().enumerate().map(|(i, x)| (i as i32, *x)).collect::<HashMap<_, _>>(), t)?;
            let e: Vec<Vec<u16>> = (0..js.len()).map(|i| if i == o.place { vec![] } else { vec![i as u16; 2] }).collect();
            trip("Vec<Vec<u16>>", &e, t)?;
            trip("HashMap<String, Vec<u16>>", &e.into_iter().enumerate().map(|(i, x)| (format!("k{}", i), x)).collect::<HashMap<_, _>>(), t)?;
        }
        Ok(())
    });
    // texts of other values as strings
    let st_: Vec<String> = ks.iter().map(|x| x.text()).chain(crate::related::REL.iter().map(|x| x.to_string())).collect();
    let ns = st_.len();
    run.family(
        "string-contents",
        "every pair of about 70 strings (texts of other kinds of values, prefixes, cases, trimming, escapes, numbers) as String inside Vec, Option, HashMap and lists of pairs",
        product(&[ns, ns]),
        |i, o| {
            put_idx(&digits(i, &[ns, ns]), o);
            true
        },
        |p| format!("{:?} {:?}", st_[idx(p)[0]], st_[idx(p)[1]]),
        |p, t| {
            let d = idx(p);
            let (a, b) = (|| st_[d[0]].clone(), || st_[d[1]].clone());
            trip("String", &a(), t)?;
            trip("Option<String>", &Some(a()), t)?;
            trip("Vec<String>", &vec![a(), b(), a()], t)?;
            trip("Vec<Option<String>>", &vec![Some(a()), Some(b()), None], t)?;
            trip("HashMap<String, String>", &[(a(), b()), (b(), a())].into_iter().collect::<HashMap<_, _>>(), t)?;
            trip("Vec<(String, Option<String>)>", &vec![(a(), Some(b())), (b(), Some(a())), (a(), None)], t)
        },
    );
    // lengths
    let ladder: Vec<usize> = (0..=200).chain([255, 256, 257, 1000, 1024, 4096]).collect();
    run.family(
        "lengths",
        "Vec, HashMap, pairs (distinct and repeated keys) and String of every length 0..200 and a ladder to 4096",
        ladder.len() as u64 * 6,
        |i, o| {
            put_idx(&[(i % 6) as usize, ladder[(i / 6) as usize]], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let n = d[1];
            match d[0] {
                0 => trip("Vec<u32>", &(0..n as u32).collect::<Vec<_>>(), t),
                1 => trip("HashMap<i32, i64>", &(0..n).map(|x| (x as i32 - 50, x as i64)).collect::<HashMap<_, _>>(), t),
                2 => trip("Vec<(String, u16)>", &(0..n).map(|x| (format!("k{}", x), x as u16)).collect::<Vec<_>>(), t),
                3 => trip("Vec<(String, u16)>", &(0..n).map(|x| (format!("k{}", x % 3), x as u16)).collect::<Vec<_>>(), t),
                4 => trip("Vec<Option<bool>>", &(0..n).map(|x| [None, Some(true), Some(false)][x % 3]).collect::<Vec<_>>(), t),
                _ => trip("String", &"\u{e9}a\"".chars().cycle().take(n).collect::<String>(), t),
            }
        },
    );
    // keys that are easily taken for one another
    run.family(
        "related-keys",
        "every ordered pair of related keys through HashMap<String, _> and lists of pairs (arrangements of up to four)",
        crate::related::PAIRS * 31,
        |i, o| {
            let Some((x, y)) = crate::related::pair(i / 31) else { return false };
            let mut w = vec![];
            word(2, i % 31, &mut w);
            let mut v = vec![x, y];
            v.extend(w);
            put_idx(&v, o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let ks = [crate::related::REL[d[0]].to_string(), crate::related::REL[d[1]].to_string()];
            let l: Vec<(String, u16)> = d[2..].iter().enumerate().map(|(n, x)| (ks[*x].clone(), n as u16)).collect();
            trip("HashMap<String, u16>", &l.iter().cloned().collect::<HashMap<_, _>>(), t)?;
            trip("HashMap<String, Vec<(String, u16)>>", &ks.iter().map(|k| (k.clone(), l.clone())).collect::<HashMap<_, _>>(), t)?;
            trip("Vec<(String, u16)>", &l, t)
        },
    );
    // every character through the text types
    run.family(
        "characters",
        "every Unicode scalar value through String, Vec<String>, HashMap<String, _>, HashMap<char, _>, Vec<(char, _)>",
        SCALARS,
        |i, o| {
            chr(o, scalar(i));
            true
        },
        |p| format!("{:?}", st(p)),
        |p, t| {
            let s = st(p).to_string();
            let c = s.chars().next().unwrap();
            trip("String", &s, t)?;
            trip("Vec<String>", &vec![s.clone(), s.clone() + "x"], t)?;
            trip("HashMap<String, u8>", &[(s.clone(), 1u8)].into_iter().collect::<HashMap<_, _>>(), t)?;
            trip("HashMap<char, Option<String>>", &[(c, Some(s.clone()))].into_iter().collect::<HashMap<_, _>>(), t)?;
            trip("Vec<(char, bool)>", &vec![(c, true), ('a', false), (c, false)], t)
        },
    );
    // borrowed forms encode like the owned ones
    run.family(
        "borrowed",
        "borrowed forms of every string over seven classes up to length 3, of integers, floats, booleans, slices and slices of pairs encode exactly like the owned ones",
        upto(7, 3) * 4,
        |i, o| {
            let mut s = vec![];
            push_word(&["a", "\"", "\\", "\u{e9}", "\u{1f600}", "\n", ""], i / 4, &mut s);
            o.push((i % 4) as u8);
            o.extend(s);
            true
        },
        |p| format!("{} {:?}", p[0], st(&p[1..])),
        |p, t| {
            let s = st(&p[1..]);
            let owned = s.to_string();
            t.calls += 20;
            t.validated += 1;
            let eq = |what: &str, a: String, b: String| if a == b { Ok(()) } else { fail(what, a, b) };
            match p[0] {
                0 => {
                    let want = json::encode(&owned);
                    eq("str", want.clone(), json::encode(s))?;
                    eq("&str", want.clone(), json::encode(&s))?;
                    eq("Option<&str>", json::encode(&Some(owned.clone())), json::encode(&Some(s)))?;
                    eq("Vec<&str>", json::encode(&vec![owned.clone(), owned.clone()]), json::encode(&vec![s, s]))?;
                    eq("&[&str]", json::encode(&vec![owned.clone()]), json::encode(&&[s][..]))?;
                    eq("array!", json::encode(&vec![owned.clone()]), json::encode(&json::array![s]))
                }
                1 => {
                    let l = vec![(owned.clone(), 1u8), ("b".to_string(), 2), (owned.clone(), 3)];
                    let b: Vec<(&str, &u8)> = l.iter().map(|(k, v)| (k.as_str(), v)).collect();
                    let want = json::encode(&l);
                    eq("Vec<(&str, &u8)>", want.clone(), json::encode(&b))?;
                    eq("&[(&str, &u8)]", want.clone(), json::encode(&&b[..]))?;
                    eq("&[(String, u8)]", want, json::encode(&&l[..]))?;
                    let m: HashMap<String, Vec<String>> = [(owned.clone(), vec![owned.clone()])].into_iter().collect();
                    let v = [s];
                    let mb: HashMap<&str, &[&str]> = [(s, &v[..])].into_iter().collect();
                    eq("HashMap<&str, &[&str]>", json::encode(&m), json::encode(&mb))
                }
                2 => {
                    macro_rules! n {
                        ($($t:ty)*) => { $(
                            for x in <$t as Gen>::vals(9) {
                                eq(stringify!(&$t), json::encode(&x), json::encode(&&x))?;
                                eq(concat!("Vec of &", stringify!($t)), json::encode(&vec![x, x]), json::encode(&vec![&x, &x]))?;
                                eq(concat!("slice of ", stringify!($t)), json::encode(&vec![x, x]), json::encode(&&[x, x][..]))?;
                                eq(concat!("Option of &", stringify!($t)), json::encode(&Some(x)), json::encode(&Some(&x)))?;
                            }
                        )* };
                    }
                    n!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool);
                    Ok(())
                }
                _ => {
                    let l: Vec<Vec<Option<String>>> = vec![vec![Some(owned.clone()), None], vec![]];
                    eq("&[Vec<Option<String>>]", json::encode(&l), json::encode(&&l[..]))?;
                    let e: [Json; 0] = [];
                    eq("empty slice", "[]".into(), json::encode(&&e[..]))?;
                    let e: [(String, Json); 0] = [];
                    eq("empty slice of pairs", "{}".into(), json::encode(&&e[..]))
                }
            }
        },
    );
}
