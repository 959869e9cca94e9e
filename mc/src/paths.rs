//! C07 get, C08 set, C09 del, C11 text-level functions.
use crate::engine::*;
use crate::gen::*;
use crate::rv::{self, PathRef, Rv, Seg, E};
use json::{ErrorKind, Json};

pub const ALPHA: &[&str] = &["a", ".", "\\", "#", "0", "1", "b", "+", "-", "\u{e9}"];

/// Documents with unique leaves and keys that differ only by the characters paths treat specially.
pub fn target_docs() -> Vec<Rv> {
    let t = [
        "{\"a\":{\"a\":1,\"b\":[2,3]},\"b\":[4,{\"a\":5}],\"\":6}",
        "{\"a.b\":1,\"a\":{\"b\":2},\"a\\\\\":{\"b\":3},\"a\\\\.b\":4,\".\":5,\"\":{\"\":6,\"b\":7},\".a\":8,\"a.\":9}",
        "{\"#0\":1,\"#a\":2,\"#\":3,\"\\\\#0\":4,\"\\\\\":5,\"\\\\a\":6,\"\\\\\\\\\":7,\"\\\\\\\\a\":8,\"0\":9,\"a\":10,\"b\\\\a\":11,\"b\\\\\":12,\"a#0\":13,\"##0\":14}",
        "[0,1,[2,[3,4]],{\"a\":5,\"#1\":6,\"0\":7}]",
        "[[10,11],[12,[13,14]],{\"a\":{\"a\":15}}]",
        "{\"a\":1,\"a\":2,\"b\":{\"a\":3},\"b\":{\"a\":4,\"b\":5,\"a\":6}}",
        "{\"a\":[1,2],\"a\":{\"a\":3},\"a\":[4,5,6]}",
        "[]",
        "{}",
        "null",
        "true",
        "7",
        "\"a\"",
        "{\"a\":null,\"b\":\"s\",\"0\":[null,true]}",
        "{\"\u{e9}\":{\"\u{e9}a\":1,\"+0\":2},\"-\":[3],\"-1\":4,\"+\":5,\"#-1\":6,\"#+\":7}",
    ];
    t.iter().map(|x| rv::parse(x).expect("doc")).collect()
}

pub fn err<T>(what: &str, want: &str, e: &json::Error) -> Result<T, Fail> {
    fail(what, want, e.to_string())
}

/// the real result of an operation against the model's
pub fn compare<T, U>(what: &str, got: &Result<T, json::Error>, want: &Result<U, E>) -> Result<(), Fail> {
    match (got, want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(e), Err(w)) if E::of(&e.kind) == Some(*w) => Ok(()),
        (Err(e), Err(w)) => fail(format!("{} fails with the wrong kind", what), format!("{:?}", w), e.to_string()),
        (Ok(_), Err(w)) => fail(format!("{} succeeds", what), format!("Err({:?})", w), "Ok"),
        (Err(e), Ok(_)) => fail(format!("{} fails", what), "Ok", e.to_string()),
    }
}

pub fn ref_get<'a>(d: &'a Rv, path: &str) -> Option<Result<&'a Rv, E>> {
    match rv::parse_path(path) {
        PathRef::Unspecified => None,
        PathRef::Syntax => Some(Err(E::PathSyntax)),
        PathRef::Segs(s) => Some(rv::find(d, &s)),
    }
}

pub fn check_get(d: &Rv, j: &Json, path: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 1;
    let got = j.get(path);
    let want = match ref_get(d, path) {
        None => {
            t.out("unspecified");
            return Ok(());
        }
        Some(w) => w,
    };
    t.validated += 1;
    compare("get", &got, &want)?;
    match (got, want) {
        (Ok(g), Ok(w)) => {
            t.out("found");
            if !rv::same(g, w) {
                return fail("get reaches another value", w.canon(), format!("{:?}", g));
            }
        }
        (_, Err(E::MissingKey)) => t.out("missing key"),
        (_, Err(E::IndexOutOfRange)) => t.out("index out of range"),
        (_, Err(E::InvalidValueKind)) => t.out("invalid kind"),
        (_, Err(_)) => t.out("path syntax"),
        _ => {}
    }
    Ok(())
}

pub fn check_set(d: &Rv, path: &str, v: &Rv, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 1;
    let mut j = d.build();
    let mut m = d.clone();
    let segs = match rv::parse_path(path) {
        PathRef::Unspecified => {
            t.out("unspecified");
            let _ = j.set(path, v.build()).is_ok();
            return Ok(());
        }
        PathRef::Syntax => {
            t.validated += 1;
            t.out("path syntax");
            let r = j.set(path, v.build());
            compare("set", &r, &Err::<(), E>(E::PathSyntax))?;
            if !rv::same(&j, d) {
                return fail("a failed set changes the document", d.canon(), format!("{:?}", j));
            }
            return Ok(());
        }
        PathRef::Segs(s) => s,
    };
    t.validated += 1;
    t.out("set");
    rv::set(&mut m, &segs, v.clone());
    match j.set(path, v.build()) {
        Err(e) => return err("set with a valid path fails", "Ok", &e),
        Ok(r) => {
            if !rv::same(r, v) {
                return fail("set returns another value than the one written", v.canon(), format!("{:?}", r));
            }
        }
    }
    if !rv::same(&j, &m) {
        return fail("the document after set is wrong", m.canon(), rv::read(&j).canon());
    }
    t.calls += 2;
    match j.get(path) {
        Ok(g) if rv::same(g, v) => {}
        other => return fail("get after set does not find the value written", v.canon(), format!("{:?}", other)),
    }
    // the returned reference is the place that was written
    let mark = Rv::s("mark");
    if let Ok(r) = j.set(path, v.build()) {
        *r = mark.build();
    }
    rv::set(&mut m, &segs, mark);
    if !rv::same(&j, &m) {
        return fail("writing through the reference set returned changes another place", m.canon(), rv::read(&j).canon());
    }
    Ok(())
}

pub fn check_del(d: &Rv, path: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 1;
    let mut j = d.build();
    let segs = match rv::parse_path(path) {
        PathRef::Unspecified => {
            let _ = j.del(path).is_ok();
            t.out("unspecified");
            return Ok(());
        }
        PathRef::Syntax => None,
        PathRef::Segs(s) => Some(s),
    };
    t.validated += 1;
    let mut m = d.clone();
    let want = match &segs {
        None => Err(E::PathSyntax),
        Some(s) => rv::del(&mut m, s),
    };
    let got = j.del(path);
    compare("del", &got, &want)?;
    if let (Ok(g), Ok(w)) = (&got, &want) {
        t.out("removed");
        if !rv::same(g, w) {
            return fail("del returns another value", w.canon(), format!("{:?}", g));
        }
    } else {
        t.out("failed");
    }
    if !rv::same(&j, &m) {
        return fail("the document after del is wrong", m.canon(), rv::read(&j).canon());
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Get,
    Set,
    Del,
    /// no panic only
    Total,
}

fn go(what: What, d: &Rv, j: &Json, path: &str, v: &Rv, t: &mut Tally) -> Result<(), Fail> {
    match what {
        What::Get => check_get(d, j, path, t),
        What::Set => check_set(d, path, v, t),
        What::Del => check_del(d, path, t),
        What::Total => {
            t.validated += 1;
            t.calls += 3;
            let mut j = d.build();
            let _ = j.get(path).is_ok();
            let _ = j.set(path, v.build()).is_ok();
            let _ = j.del(path).is_ok();
            let _ = j.to_string();
            Ok(())
        }
    }
}

fn pshow(p: &[u8]) -> String {
    let v = unpack(p);
    format!("doc {} path {:?} value {}", st(v[0]), st(v[1]), v.get(2).map(|x| st(x)).unwrap_or("-"))
}

/// payload: document text, path, value text
fn pcase(what: What) -> impl Fn(&[u8], &mut Tally) -> Result<(), Fail> + Sync {
    move |p, t| {
        let v = unpack(p);
        let d = rv::parse(st(v[0])).expect("doc");
        let x = v.get(2).map(|x| rv::parse(st(x)).expect("value")).unwrap_or(Rv::Null);
        let j = d.build();
        go(what, &d, &j, st(v[1]), &x, t)
    }
}

pub fn values() -> Vec<Rv> {
    ["5", "null", "\"s\"", "[8]", "{\"a\":9,\"a\":10}"].iter().map(|x| rv::parse(x).unwrap()).collect()
}

pub fn seg_text(s: &Seg) -> String {
    match s {
        Seg::Key(k) => rv::enc_key(k),
        Seg::Idx(i) => format!("#{}", i),
    }
}
pub fn path_text(p: &[Seg]) -> String {
    p.iter().map(seg_text).collect::<Vec<_>>().join(".")
}
/// a key ending in a backslash cannot be followed by a separator
pub fn expressible(p: &[Seg]) -> bool {
    p[..p.len() - 1].iter().all(|s| !matches!(s, Seg::Key(k) if k.ends_with('\\')))
}

pub fn families(run: &mut Run, what: What) {
    let th = run.thorough;
    let docs = target_docs();
    let vals: Vec<Rv> = values();
    let vt: Vec<String> = vals.iter().map(|d| d.text()).collect();
    let vx = &vt;

    // every path string, one case per path covering all documents
    let len = match (what, th) {
        (What::Get, false) => 6,
        (What::Get, true) => 7,
        (_, false) => 5,
        (_, true) => 6,
    };
    let built: Vec<Json> = docs.iter().map(|d| d.build()).collect();
    let n = upto(ALPHA.len() as u64, len);
    run.family(
        "path-strings",
        "every path string over a . \\ # 0 1 b + - e-acute up to the length bound, on fifteen documents whose keys collide under wrong escaping",
        n,
        |i, o| { push_word(ALPHA, i, o); true },
        |p| format!("path {:?} on 15 documents", st(p)),
        |p, t| {
            for (d, j) in docs.iter().zip(&built) {
                go(what, d, j, st(p), &vals[0], t).map_err(|f| Fail { what: format!("{} (document {})", f.what, d.canon()), ..f })?;
            }
            Ok(())
        },
    );

    // every key up to length 3, alone and nested, written with the documented escapes, among decoys
    let ka: &[&str] = &["a", ".", "\\", "#", "0", "\u{e9}", "b"];
    let kn = upto(7, if th { 4 } else { 3 });
    let decoys = ["a", "", ".", "\\", "#", "#0", "\\#0", "a.b", "\\.", "\\\\", "a\\", "0"];
    run.family(
        "escaped-keys",
        "every key over a . \\ # 0 e-acute b up to length 3 (thorough 4), at top level, below a key, above a key and above an index, addressed with the documented escapes, among twelve decoy keys",
        kn * 4 * 5,
        |i, o| {
            let c = i % 4;
            let v = (i / 4 % 5) as usize;
            if what != What::Set && v != 0 {
                return false;
            }
            let mut kb = vec![];
            push_word(ka, i / 20, &mut kb);
            let k = st(&kb).to_string();
            let mut m: Vec<(&str, Rv)> = decoys.iter().enumerate().filter(|(_, x)| **x != k).map(|(n, x)| (*x, Rv::Num(n as f64 + 100.0))).collect();
            let (doc, path) = match c {
                0 => {
                    m.push((&k, Rv::s("target")));
                    (Rv::obj(&m), vec![Seg::Key(k.clone())])
                }
                1 => {
                    m.push((&k, Rv::s("target")));
                    (Rv::obj(&[("p", Rv::obj(&m)), ("q", Rv::Null)]), vec![Seg::Key("p".into()), Seg::Key(k.clone())])
                }
                2 => {
                    m.push((&k, Rv::obj(&[("x", Rv::s("target")), (".x", Rv::Num(1.0))])));
                    (Rv::obj(&m), vec![Seg::Key(k.clone()), Seg::Key("x".into())])
                }
                _ => {
                    m.push((&k, Rv::Arr(vec![Rv::Null, Rv::s("target")])));
                    (Rv::obj(&m), vec![Seg::Key(k.clone()), Seg::Idx(1)])
                }
            };
            if !expressible(&path) || path_text(&path).is_empty() {
                return false;
            }
            pack(&[doc.text().as_bytes(), path_text(&path).as_bytes(), vx[v].as_bytes()], o);
            true
        },
        pshow,
        |p, t| {
            let v = unpack(p);
            // the escaped path must itself denote the key it was made from
            let d = rv::parse(st(v[0])).unwrap();
            if what == What::Get {
                t.calls += 1;
                match d.build().get(st(v[1])) {
                    Ok(Json::String(s)) if s == "target" => {}
                    other => return fail("a key written with the documented escapes is not found", "\"target\"", format!("{:?}", other)),
                }
            }
            pcase(what)(p, t)
        },
    );

    // every Unicode scalar value as (part of) a key
    let forms: &[fn(char) -> String] = &[|c| c.to_string(), |c| format!("a{}", c), |c| format!("{}a", c), |c| format!("#{}", c), |c| format!("\\{}", c)];
    run.family(
        "scalar-keys",
        "every Unicode scalar value alone, after a, before a, after # and after a backslash as a key",
        SCALARS * 5,
        |i, o| {
            let c = scalar(i / 5);
            let k = forms[(i % 5) as usize](c);
            o.extend_from_slice(k.as_bytes());
            true
        },
        |p| format!("key {:?}", st(p)),
        |p, t| {
            let k = st(p);
            let d = Rv::obj(&[(k, Rv::Num(1.0)), ("a", Rv::Num(2.0)), ("", Rv::Num(3.0))]);
            let path = rv::enc_key(k);
            let j = d.build();
            go(what, &d, &j, &path, &Rv::Num(4.0), t)?;
            // unescaped spelling
            go(what, &d, &j, k, &Rv::Num(4.0), t)
        },
    );

    // keys that are easily taken for one another
    let nr = vx.len() as u64;
    run.family(
        "related-keys",
        "every ordered pair of related keys (prefixes, cases, trimming, escapes, normal forms, long common prefixes) x nine objects over them x seven paths made of them",
        crate::related::PAIRS * 9 * 7,
        |i, o| {
            let Some((x, y)) = crate::related::pair(i / 63) else { return false };
            let (x, y) = (crate::related::REL[x], crate::related::REL[y]);
            let (kx, ky) = (Seg::Key(x.into()), Seg::Key(y.into()));
            let q = match i % 7 {
                0 => vec![kx],
                1 => vec![kx, ky],
                2 => vec![ky, kx],
                3 => vec![kx.clone(), kx],
                4 => vec![ky, Seg::Idx(0)],
                5 => vec![ky, Seg::Idx(0), kx],
                _ => vec![ky.clone(), ky, kx],
            };
            if !expressible(&q) || path_text(&q).is_empty() {
                return false;
            }
            let d = &crate::related::pair_docs(x, y)[(i / 7 % 9) as usize];
            pack(&[d.text().as_bytes(), path_text(&q).as_bytes(), vx[(i % nr) as usize].as_bytes()], o);
            true
        },
        pshow,
        pcase(what),
    );
    // every kind of value on the way, at the target and written
    let vk: Vec<String> = crate::related::kinds().iter().map(|x| x.text()).collect();
    let nk = vk.len();
    run.family(
        "value-kinds",
        "22 old values of every kind x 22 new ones, in an object with an earlier value, in an array and nested, x paths ending above, at and below the old value",
        product(&[nk, if what == What::Set { nk } else { 1 }, 3, 4]),
        |i, o| {
            let d = digits(i, &[nk, if what == What::Set { nk } else { 1 }, 3, 4]);
            let (doc, at) = match d[2] {
                0 => (format!("{{\"j\":1,\"k\":[],\"k\":{},\"l\":2}}", vk[d[0]]), "k"),
                1 => (format!("[0,{},2]", vk[d[0]]), "#1"),
                _ => (format!("{{\"o\":[{{\"k\":0,\"k\":{}}},1],\"p\":null}}", vk[d[0]]), "o.#0.k"),
            };
            let path = format!("{}{}", at, ["", ".a", ".#0", ".#1.a"][d[3]]);
            pack(&[doc.as_bytes(), path.as_bytes(), vk[d[1]].as_bytes()], o);
            true
        },
        pshow,
        pcase(what),
    );
    // structured paths on all small documents
    let leaves = vec![Rv::Num(1.0), Rv::s("x"), Rv::Null];
    let l1 = docs_level(&leaves, 1);
    let mut all: Vec<Rv> = l1.clone();
    let small: Vec<Rv> = l1.iter().filter(|d| d.size() <= 3).cloned().collect();
    all.extend(arrays(&small, 2));
    all.extend(objects(&["a", "b"], &small, if th { 2 } else { 1 }, 2));
    let segs: Vec<Seg> = vec![Seg::Key("a".into()), Seg::Key("b".into()), Seg::Idx(0), Seg::Idx(1), Seg::Idx(3)];
    let mut paths: Vec<Vec<Seg>> = vec![];
    let mut w = vec![];
    for i in 1..upto(5, 3) {
        word(5, i, &mut w);
        paths.push(w.iter().map(|x| segs[*x].clone()).collect());
    }
    let dt: Vec<String> = all.iter().map(|d| d.text()).collect();
    let pt: Vec<String> = paths.iter().map(|p| path_text(p)).collect();
    let nv = if what == What::Set { vt.len() } else { 1 };
    run.family(
        "documents-x-paths",
        "all documents of nesting 2 over three leaves and two keys (arrays and objects of two children, repeated keys) x all paths of up to three segments over a b #0 #1 #3 x values",
        product(&[dt.len(), pt.len(), nv]),
        |i, o| {
            let d = digits(i, &[pt.len(), nv, dt.len()]);
            pack(&[dt[d[2]].as_bytes(), pt[d[0]].as_bytes(), vx[d[1]].as_bytes()], o);
            true
        },
        pshow,
        pcase(what),
    );

    // indices
    let mut ix: Vec<String> = (0..300).map(|i| format!("#{}", i)).collect();
    for s in ["#00", "#007", "#0000000000000000000000000001", "#a", "#", "# 1", "#1 ", "#-1", "#-0", "#1.0", "#0x1", "#1e1", "#\u{661}", "#1_0", "##1", "#1#", "#18446744073709551616", "#99999999999999999999999", "#340282366920938463463374607431768211456"] {
        ix.push(s.into());
    }
    if what == What::Get || what == What::Del {
        for s in ["#18446744073709551615", "#9223372036854775807", "#9223372036854775808", "#4294967296", "#4294967295", "#2147483648", "#1000000", "#18446744073709551614"] {
            ix.push(s.into());
        }
    }
    let sizes: Vec<usize> = vec![0, 1, 2, 3, 7, 10, 100, 255, 256, 257];
    run.family(
        "indices",
        "indices 0..299, range limits and malformed indices on arrays of ten sizes, on an object and below a key",
        product(&[ix.len(), sizes.len() + 1, 2]),
        |i, o| {
            let d = digits(i, &[ix.len(), sizes.len() + 1, 2]);
            let doc = if d[1] < sizes.len() { Rv::Arr((0..sizes[d[1]]).map(|x| Rv::Num(x as f64)).collect()) } else { Rv::obj(&[("#1", Rv::Num(1.0)), ("1", Rv::Num(2.0))]) };
            let (doc, path) = if d[2] == 0 { (doc, ix[d[0]].clone()) } else { (Rv::obj(&[("k", doc), ("l", Rv::Null)]), format!("k.{}", ix[d[0]])) };
            pack(&[doc.text().as_bytes(), path.as_bytes(), vx[(i % 5) as usize].as_bytes()], o);
            true
        },
        pshow,
        pcase(what),
    );

    // deep paths
    let deep: Vec<usize> = (1..=60).chain([64, 65, 100, 128, 200, 255, 256, 300]).collect();
    run.family(
        "deep-paths",
        "paths of 1..60 and up to 300 segments through nested objects, arrays and both, whole, one short, one too long and with the last segment wrong",
        product(&[deep.len(), 3, 4]),
        |i, o| {
            let d = digits(i, &[deep.len(), 3, 4]);
            let n = deep[d[0]];
            let mut doc = Rv::s("bottom");
            let mut segs = vec![];
            for k in (0..n).rev() {
                let key = match d[1] {
                    0 => true,
                    1 => false,
                    _ => k % 2 == 0,
                };
                if key {
                    doc = Rv::obj(&[("k", doc), ("z", Rv::Num(k as f64))]);
                    segs.push(Seg::Key("k".into()));
                } else {
                    doc = Rv::Arr(vec![Rv::Num(k as f64), doc]);
                    segs.push(Seg::Idx(1));
                }
            }
            segs.reverse();
            match d[2] {
                1 => {
                    segs.pop();
                }
                2 => segs.push(Seg::Key("k".into())),
                3 => {
                    segs.pop();
                    segs.push(Seg::Key("nope".into()))
                }
                _ => {}
            }
            if segs.is_empty() {
                return false;
            }
            pack(&[doc.text().as_bytes(), path_text(&segs).as_bytes(), vx[(i % 5) as usize].as_bytes()], o);
            true
        },
        |p| shorten(&pshow(p)),
        pcase(what),
    );

    let big = crate::big::cases();
    run.family(
        "sizes",
        crate::big::ABOUT,
        big.len() as u64 * 2,
        |i, o| {
            let (m, q) = &big[(i / 2) as usize];
            if !expressible(q) {
                return false;
            }
            pack(&[m.text().as_bytes(), path_text(q).as_bytes(), vx[(i % 2 * 2 + i / 2 % 3) as usize].as_bytes()], o);
            true
        },
        |p| shorten(&pshow(p)),
        pcase(what),
    );
    // whatever stands beside the place
    let bd = crate::beside::docs();
    let bp: Vec<String> = crate::beside::paths().iter().map(|q| path_text(q)).collect();
    let kinds = crate::related::kinds();
    run.family(
        "bystanders",
        crate::beside::ABOUT,
        bd.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| format!("document {} x {} paths", bd[idx(p)[0]].canon(), bp.len()),
        |p, t| {
            let n = idx(p)[0];
            let d = &bd[n];
            let j = d.build();
            for (i, q) in bp.iter().enumerate() {
                let v = &kinds[(n + i) % kinds.len()];
                go(what, d, &j, q, v, t).map_err(|f| Fail { what: format!("{} (path {:?} value {})", f.what, q, v.canon()), ..f })?;
            }
            Ok(())
        },
    );
    crate::beside::odd_family(run, "paths to the first, the odd, the next and the last place, past the end and below the odd one", |n, o, t| {
        let d = o.doc();
        let j = d.build();
        for (i, q) in o.paths().iter().enumerate() {
            let v = &kinds[(n as usize + i * 5) % kinds.len()];
            go(what, &d, &j, &path_text(q), v, t)?;
        }
        Ok(())
    });
    // repeated keys on the way and at the target
    let mut reps = vec![];
    for a in 1..=6usize {
        for b in 0..=4usize {
            for target in ["k", "k.x", "k.x.y", "m", "k.#0", "k.x.#2"] {
                let inner: Vec<(&str, Rv)> = (0..b).map(|i| ("x", if i % 2 == 0 { Rv::Num(i as f64) } else { Rv::obj(&[("y", Rv::Num(i as f64)), ("y", Rv::Num(i as f64 + 0.5))]) })).collect();
                let outer: Vec<(&str, Rv)> = (0..a).map(|i| ("k", if i + 1 == a { Rv::obj(&inner) } else { Rv::Num(-(i as f64)) })).collect();
                let mut m = outer;
                m.push(("m", Rv::Num(1.5)));
                m.push(("m", Rv::Num(2.5)));
                reps.push((Rv::obj(&m).text(), target));
            }
        }
    }
    run.family(
        "repeated-keys",
        "1..6 values of a key whose current value has 0..4 values of another, six targets, five values",
        product(&[reps.len(), nv]),
        |i, o| {
            let d = digits(i, &[reps.len(), nv]);
            pack(&[reps[d[0]].0.as_bytes(), reps[d[0]].1.as_bytes(), vx[d[1]].as_bytes()], o);
            true
        },
        pshow,
        pcase(what),
    );
}

pub fn docs_level(leaves: &[Rv], depth: usize) -> Vec<Rv> {
    docs(leaves, &["a", "b"], depth, 2, 2, 3)
}

/// Sequences of sets and dels: breadth-first over documents.
fn history(run: &mut Run, with_set: bool, with_del: bool) {
    let segs = ["a", "b", "#0", "#1"];
    let mut paths: Vec<String> = segs.iter().map(|x| x.to_string()).collect();
    for a in segs {
        for b in segs {
            paths.push(format!("{}.{}", a, b));
        }
    }
    paths.push("a.b.a".into());
    paths.push("#1.a.#1".into());
    let vals: Vec<Rv> = ["1", "null", "[2]", "{\"a\":3}"].iter().map(|x| rv::parse(x).unwrap()).collect();
    let mut ops: Vec<(String, Option<Rv>)> = vec![];
    for p in &paths {
        if with_del {
            ops.push((p.clone(), None));
        }
        if with_set {
            for v in &vals {
                ops.push((p.clone(), Some(v.clone())));
            }
        }
    }
    let inits: Vec<Rv> = ["null", "[]", "{}", "{\"a\":1,\"a\":{\"b\":2},\"b\":[3,4]}", "[[1,2],{\"a\":3,\"a\":[]}]", "{\"a\":{\"a\":{\"a\":1,\"b\":2},\"b\":[1,[2,3]]},\"b\":[[1],[2,3],{\"a\":4,\"a\":5}]}"]
        .iter()
        .map(|x| rv::parse(x).unwrap())
        .collect();
    let max = if run.thorough { 14 } else { 11 };
    let depth = if run.thorough { 5 } else { 4 };
    run.bfs(
        "histories",
        "breadth-first over documents from six starting documents; operations are set and/or del at 22 paths with four values; documents of bounded size",
        inits.len() as u8,
        |i| (inits[i as usize].build(), inits[i as usize].clone()),
        ops.len() as u16,
        |o| match &ops[o as usize] {
            (p, None) => format!("del {}", p),
            (p, Some(v)) => format!("set {} = {}", p, v.canon()),
        },
        |s: &(Json, Rv)| h128(s.1.canon().as_bytes()),
        depth,
        3_000_000,
        |s, o, t| {
            let (p, v) = &ops[o as usize];
            let mut j = s.0.clone();
            let mut m = s.1.clone();
            t.calls += 1;
            t.validated += 1;
            let segs = match rv::parse_path(p) {
                PathRef::Segs(x) => x,
                _ => unreachable!(),
            };
            match v {
                Some(v) => {
                    rv::set(&mut m, &segs, v.clone());
                    match j.set(p, v.build()) {
                        Ok(r) if rv::same(r, v) => {}
                        other => return fail("set", v.canon(), format!("{:?}", other)),
                    }
                }
                None => {
                    let w = rv::del(&mut m, &segs);
                    let g = j.del(p);
                    compare("del", &g, &w)?;
                    if let (Ok(g), Ok(w)) = (&g, &w) {
                        if !rv::same(g, w) {
                            return fail("del returns another value", w.canon(), format!("{:?}", g));
                        }
                    }
                }
            }
            if !rv::same(&j, &m) {
                return fail("the document is wrong", m.canon(), rv::read(&j).canon());
            }
            if m.size() > max {
                return Ok(None);
            }
            Ok(Some((j, m)))
        },
    );
}

pub fn c07(run: &mut Run) {
    families(run, What::Get);
}
pub fn c08(run: &mut Run) {
    families(run, What::Set);
    history(run, true, false);
}
pub fn c09(run: &mut Run) {
    families(run, What::Del);
    history(run, true, true);
}

// ---------------------------------------------------------------- C11

fn kind_eq(a: &ErrorKind, b: &ErrorKind) -> bool {
    std::mem::discriminant(a) == std::mem::discriminant(b)
}

fn same_err<T, U>(what: &str, got: &Result<T, json::Error>, want: &Result<U, json::Error>) -> Result<(), Fail> {
    match (got, want) {
        (Ok(_), Ok(_)) => Ok(()),
        (Err(a), Err(b)) if kind_eq(&a.kind, &b.kind) => Ok(()),
        (Err(a), Err(b)) => fail(format!("{} fails with another kind than the failing step", what), b.to_string(), a.to_string()),
        (Ok(_), Err(b)) => fail(format!("{} succeeds although a step fails", what), b.to_string(), "Ok"),
        (Err(a), Ok(_)) => fail(format!("{} fails although no step fails", what), "Ok", a.to_string()),
    }
}

fn get_as<T: json::FromJson + std::fmt::Debug + PartialEq>(text: &str, path: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 2;
    let got: Result<T, json::Error> = json::get(text, path);
    let want: Result<T, json::Error> = (|| Json::parse(text)?.get(path)?.convert::<T>())();
    same_err("json::get", &got, &want)?;
    if let (Ok(g), Ok(w)) = (&got, &want) {
        if g != w {
            return fail("json::get differs from parse, get, convert", format!("{:?}", w), format!("{:?}", g));
        }
    }
    Ok(())
}

fn decode_as<T: json::FromJson + std::fmt::Debug + PartialEq>(text: &str, t: &mut Tally) -> Result<(), Fail> {
    t.calls += 1;
    let got: Result<T, json::Error> = json::decode(text);
    let want: Result<T, json::Error> = (|| Json::parse(text)?.convert::<T>())();
    same_err("json::decode", &got, &want)?;
    if let (Ok(g), Ok(w)) = (&got, &want) {
        if g != w {
            return fail("json::decode differs from parse, convert", format!("{:?}", w), format!("{:?}", g));
        }
    }
    Ok(())
}

fn level_case(p: &[u8], t: &mut Tally) -> Result<(), Fail> {
    let v = unpack(p);
    let (text, path) = (st(v[0]), st(v[1]));
    t.validated += 1;
    let parsed = Json::parse(text);
    // model
    let model = rv::parse(text);
    let fs = text.parse::<Json>();
    t.calls += 2;
    same_err("str::parse", &fs, &parsed)?;
    if let (Ok(a), Ok(b)) = (&fs, &parsed) {
        if a != b {
            return fail("str::parse differs from Json::parse", format!("{:?}", b), format!("{:?}", a));
        }
    }
    get_as::<Json>(text, path, t)?;
    get_as::<i32>(text, path, t)?;
    get_as::<String>(text, path, t)?;
    get_as::<Vec<f64>>(text, path, t)?;
    get_as::<Option<bool>>(text, path, t)?;
    decode_as::<Json>(text, t)?;
    decode_as::<f64>(text, t)?;
    decode_as::<String>(text, t)?;
    decode_as::<Vec<Option<i64>>>(text, t)?;
    decode_as::<Vec<(String, Json)>>(text, t).or_else(|f| if f.what.contains("differs") { Ok(()) } else { Err(f) })?;
    // set and del against the model
    if let (Some(m), Ok(_)) = (&model, &parsed) {
        match rv::parse_path(path) {
            PathRef::Unspecified => t.out("unspecified"),
            PathRef::Syntax => {
                t.out("path syntax");
                t.calls += 3;
                compare("json::set", &json::set(text, path, 1), &Err::<(), E>(E::PathSyntax))?;
                compare("json::del", &json::del(text, path), &Err::<(), E>(E::PathSyntax))?;
                compare("json::get", &json::get::<Json>(text, path), &Err::<(), E>(E::PathSyntax))?;
            }
            PathRef::Segs(s) => {
                t.calls += 4;
                let g = json::get::<Json>(text, path);
                let w = rv::find(m, &s);
                compare("json::get", &g, &w)?;
                if let (Ok(g), Ok(w)) = (&g, &w) {
                    t.out("found");
                    if !rv::same(g, w) {
                        return fail("json::get returns another value", w.canon(), format!("{:?}", g));
                    }
                } else {
                    t.out("not found");
                }
                for x in [Rv::Num(5.0), Rv::s("s/\u{e9}"), rv::parse("[1,{\"z\":null}]").unwrap()] {
                    let mut w = m.clone();
                    rv::set(&mut w, &s, x.clone());
                    let want = w.build().to_string();
                    match json::set(text, path, x.build()) {
                        Ok(g) if g == want => {}
                        other => return fail("json::set", want, format!("{:?}", other)),
                    }
                }
                let mut w = m.clone();
                let r = rv::del(&mut w, &s);
                let g = json::del(text, path);
                compare("json::del", &g, &r)?;
                if let Ok(g) = g {
                    let want = w.build().to_string();
                    if g != want {
                        return fail("json::del", want, g);
                    }
                }
            }
        }
        let j = m.build();
        t.calls += 1;
        if json::encode(&j) != j.to_string() {
            return fail("json::encode of a document", j.to_string(), json::encode(&j));
        }
    } else if let Err(e) = &parsed {
        t.out("bad text");
        t.calls += 3;
        same_err("json::get", &json::get::<Json>(text, path), &Err::<(), _>(json::Error::new(clone_kind(&e.kind), String::new())))?;
        same_err("json::set", &json::set(text, path, 1), &Err::<(), _>(json::Error::new(clone_kind(&e.kind), String::new())))?;
        same_err("json::del", &json::del(text, path), &Err::<(), _>(json::Error::new(clone_kind(&e.kind), String::new())))?;
    }
    Ok(())
}

fn clone_kind(k: &ErrorKind) -> ErrorKind {
    use ErrorKind::*;
    match k {
        InvalidJson => InvalidJson,
        ParseObjectError => ParseObjectError,
        ParseArrayError => ParseArrayError,
        ParseStringError => ParseStringError,
        ParseNumberError => ParseNumberError,
        ParseBooleanError => ParseBooleanError,
        ParseNullError => ParseNullError,
        MissingKey => MissingKey,
        IndexOutOfRange => IndexOutOfRange,
        InvalidValueKind => InvalidValueKind,
        PathSyntaxError => PathSyntaxError,
        ConvertError => ConvertError,
    }
}

pub fn c11(run: &mut Run) {
    let th = run.thorough;
    let mut texts: Vec<String> = crate::texts::BASE.iter().map(|x| x.to_string()).collect();
    texts.extend(target_docs().iter().map(|d| d.text()));
    for t in [
        " {\"a\" : [ 1 ,2 ] , \"b\":{ \"a\":\"\\u00e9\\/\"} }\n",
        "\t[ {\"a\":1} , null ,\"x\" ]\r\n",
        "{\"b\":1,\"a\":2,\"b\":3}",
        "{\"a\":1e2,\"b\":-0,\"0\":1.50}",
        "",
        " ",
        "[",
        "{\"a\":1",
        "{\"a\":tru}",
        "[1,]",
        "\"\\x\"",
        "01",
        "nul",
        "[1] x",
        "{\"a\":\"\u{1}\"}",
        "1e999",
        "#0",
        "a",
        "[true,\"a\\\"b\"]",
    ] {
        texts.push(t.to_string());
    }
    let tx = &texts;
    let np = upto(ALPHA.len() as u64, if th { 5 } else { 4 });
    run.family(
        "texts-x-path-strings",
        "75 texts (valid, spaced, with repeated keys, invalid in every parse kind) x every path string up to length 4 (thorough 5); get and decode at nine types, set of three values, del",
        np * texts.len() as u64,
        |i, o| {
            let mut p = vec![];
            push_word(ALPHA, i / tx.len() as u64, &mut p);
            pack(&[tx[(i % tx.len() as u64) as usize].as_bytes(), &p], o);
            true
        },
        pshow,
        level_case,
    );
    // every character around and inside the text: no step of its own interprets the text
    let forms: &[fn(char) -> String] = &[
        |c| c.to_string(),
        |c| format!("{}1", c),
        |c| format!("1{}", c),
        |c| format!("{}[{{\"a\":1}}]{}", c, c),
        |c| format!("[1{}]", c),
        |c| format!("{{\"a\":{}\"x\"}}", c),
        |c| format!("[\"{}\"]", c),
        |c| format!("{{\"{}\":[1],\"a\":null}}", c),
        |c| format!(" {{\"a\" :1}} {}", c),
        |c| format!("{} \"a\"", c),
    ];
    let fl = forms.len() as u64;
    run.family(
        "scalars-x-paths",
        "every Unicode scalar value before, after, around and inside small texts (ten forms), path #0.a or the character itself",
        SCALARS * fl,
        |i, o| {
            let c = scalar(i / fl);
            let p = if i % fl == 7 && c != '#' && c != '.' && c != '\\' { c.to_string() } else { ["#0.a", "a", "#0"][(i % 3) as usize].to_string() };
            pack(&[forms[(i % fl) as usize](c).as_bytes(), p.as_bytes()], o);
            true
        },
        pshow,
        level_case,
    );
    let wl: Vec<&str> = vec![" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u{a0}", "\u{feff}", "\u{85}", "\u{2003}", "\0", "\u{1680}", "\u{2028}", "\u{3000}", "\u{1f}", "/", ";", ","];
    let wn = upto(wl.len() as u64, 2);
    let wt = ["1", "{\"a\":[1,2]}", "[{\"a\":\"x\"}]", "null", "\"s\"", "[]"];
    run.family(
        "surroundings",
        "up to two whitespace, whitespace-like and separator characters before and after six texts x three paths",
        wn * wn * 18,
        |i, o| {
            let mut s = vec![];
            push_word(&wl, i / 18 / wn, &mut s);
            s.extend_from_slice(wt[(i / 3 % 6) as usize].as_bytes());
            push_word(&wl, i / 18 % wn, &mut s);
            pack(&[&s, ["a", "#0", "#0.a"][(i % 3) as usize].as_bytes()], o);
            true
        },
        pshow,
        level_case,
    );
    let vk: Vec<String> = crate::related::kinds().iter().map(|x| x.text()).collect();
    let nk = vk.len();
    run.family(
        "value-kinds",
        "every pair of 22 values of every kind as members of an object and elements of an array x seven paths",
        product(&[nk, nk, 2, 7]),
        |i, o| {
            let d = digits(i, &[nk, nk, 2, 7]);
            let s = if d[2] == 0 { format!("{{\"a\":{},\"b\":{},\"a\":{}}}", vk[d[0]], vk[d[0]], vk[d[1]]) } else { format!("[{},{{\"a\":{}}}]", vk[d[0]], vk[d[1]]) };
            pack(&[s.as_bytes(), ["a", "b", "#0", "#1.a", "a.a", "a.#0", "#1"][d[3]].as_bytes()], o);
            true
        },
        pshow,
        level_case,
    );
    // every one-edit neighbour of small texts with a few paths
    let base: Vec<Vec<char>> = crate::texts::BASE.iter().map(|x| x.chars().collect()).filter(|x: &Vec<char>| x.len() <= 16).collect();
    let ea: Vec<char> = "[]{},:\"\\10-. nau\n\u{e9}".chars().collect();
    let per = edits(16, ea.len());
    let paths = ["a", "#0", "a.b", "", "#1.a", "#", "b"];
    run.family(
        "text-edits-x-paths",
        "every one-character edit of the short base texts x seven paths",
        base.len() as u64 * per * 7,
        |i, o| {
            let b = &base[(i / 7 / per) as usize];
            let e = i / 7 % per;
            if e >= edits(b.len(), ea.len()) {
                return false;
            }
            let s: String = edit(b, &ea, e).into_iter().collect();
            pack(&[s.as_bytes(), paths[(i % 7) as usize].as_bytes()], o);
            true
        },
        pshow,
        level_case,
    );
    // all words over a small token alphabet
    let a: &[&str] = &["[", "]", "{", "}", ",", "\"a\":", "1", "\"b\"", " "];
    let n = upto(9, if th { 6 } else { 5 });
    run.family(
        "token-texts-x-paths",
        "all token sequences up to length 5 (thorough 6) over [ ] { } , \"a\": 1 \"b\" space x three paths",
        n * 3,
        |i, o| {
            let mut s = vec![];
            push_word(a, i / 3, &mut s);
            pack(&[&s, ["a", "#0", "#1.a"][(i % 3) as usize].as_bytes()], o);
            true
        },
        pshow,
        level_case,
    );
    let big = crate::big::cases();
    run.family(
        "sizes",
        crate::big::ABOUT,
        big.len() as u64 * 1,
        |i, o| {
            let (m, q) = &big[(i / 1) as usize];
            if !expressible(q) {
                return false;
            }
            pack(&[m.text().as_bytes(), path_text(q).as_bytes()], o);
            true
        },
        |p| shorten(&pshow(p)),
        level_case,
    );
    let bd = crate::beside::docs();
    let bp: Vec<String> = crate::beside::paths().iter().filter(|q| q.len() < 3).map(|q| path_text(q)).collect();
    run.family(
        "bystanders",
        "sixteen shapes of nested objects and arrays with two places, each place holding every one of 22 kinds of value (every pair), x every path of up to two segments over a b c #0 #1 #3",
        bd.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| format!("document {} x {} paths", bd[idx(p)[0]].canon(), bp.len()),
        |p, t| {
            let s = bd[idx(p)[0]].text();
            for q in &bp {
                let mut c = vec![];
                pack(&[s.as_bytes(), q.as_bytes()], &mut c);
                level_case(&c, t).map_err(|f| Fail { what: format!("{} (path {:?})", f.what, q), ..f })?;
            }
            Ok(())
        },
    );
    crate::beside::odd_family(run, "one path each", |i, o, t| {
        let ps = o.paths();
        let mut c = vec![];
        pack(&[o.doc().text().as_bytes(), path_text(&ps[i as usize % ps.len()]).as_bytes()], &mut c);
        level_case(&c, t)
    });
    // encode of borrowed and owned values is the document's text
    run.family(
        "encode",
        "encode of text, number, list, map and document values equals the text of the converted document",
        SCALARS,
        |i, o| { chr(o, scalar(i)); true },
        |p| format!("{:?}", st(p)),
        |p, t| {
            use json::ToJson;
            let s = st(p);
            t.calls += 4;
            t.validated += 1;
            let want = Json::String(s.to_string()).to_string();
            let v = vec![Some(s.to_string()), None];
            if json::encode(s) != want || json::encode(&s) != want || json::encode(&s.to_string()) != want || json::encode(&v) != v.to_json().to_string() {
                return fail("encode differs from to_json, to_string", want, json::encode(s));
            }
            match json::decode::<String>(&want) {
                Ok(x) if Json::parse(&want).and_then(|j| j.convert::<String>()).ok() == Some(x.clone()) => Ok(()),
                other => fail("decode differs from parse, convert", s, format!("{:?}", other)),
            }
        },
    );
}
