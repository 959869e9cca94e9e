//! C15: macros, finders, Path and index operators against the path functions and the model.
use crate::engine::*;
use crate::gen::*;
use crate::many;
use crate::ops::{op_docs, to_path};
use crate::paths::{compare, docs_level, expressible, path_text, values};
use crate::rv::{self, Rv, Seg, E};
use json::{array, discard, find, object, path, update, Finder, Json, Path};
use std::cell::Cell;

fn k(s: &str) -> Seg {
    Seg::Key(s.into())
}

/// the five documented argument types for a segment, plus Finder itself
const FORMS: usize = 3;
fn finder(s: &Seg, form: usize) -> Finder {
    match (s, form) {
        (Seg::Key(x), 0) => Finder::from(x.as_str()),
        (Seg::Key(x), 1) => Finder::from(x.clone()),
        (Seg::Key(x), _) => Finder::from(x),
        (Seg::Idx(i), 0) => Finder::from(*i),
        (Seg::Idx(i), 1) => Finder::from(i),
        (Seg::Idx(i), _) => Finder::Index(*i),
    }
}

macro_rules! by_len {
    ( $p:expr, $f:expr, $m:ident, [ $($pre:tt)* ] ) => {{
        let f = |i: usize| -> Finder { finder(&$p[i], ($f + i) % FORMS) };
        match $p.len() {
            1 => Some($m!($($pre)* f(0))),
            2 => Some($m!($($pre)* f(0), f(1))),
            3 => Some($m!($($pre)* f(0), f(1), f(2),)),
            4 => Some($m!($($pre)* f(0), f(1), f(2), f(3))),
            5 => Some($m!($($pre)* f(0), f(1), f(2), f(3), f(4),)),
            _ => None,
        }
    }};
}

fn paths_by(p: &[Seg], how: usize) -> Option<Path> {
    match how {
        0 => Some(to_path(p)),
        1 => by_len!(p, 0usize, path, []),
        2 => by_len!(p, 1usize, path, []),
        3 => by_len!(p, 2usize, path, []),
        // one chained expression, appends on the reference append returns
        4 => {
            let mut r = Path::new(finder(&p[0], 1));
            let mut it = p[1..].iter();
            let mut cur = &mut r;
            for s in &mut it {
                cur = cur.append(finder(s, 2));
            }
            Some(r)
        }
        _ => {
            if p.len() == 1 {
                Some(Path::from(finder(&p[0], 0)))
            } else {
                None
            }
        }
    }
}

fn same_ref(what: &str, g: Result<&Json, json::Error>, w: &Result<&Rv, E>) -> Result<(), Fail> {
    compare(what, &g, w)?;
    if let (Ok(g), Ok(w)) = (&g, w) {
        if !rv::same(g, w) {
            return fail(format!("{} reaches another value", what), w.canon(), format!("{:?}", g));
        }
    }
    Ok(())
}

fn check(m: &Rv, j: &Json, p: &[Seg], v: &Rv, t: &mut Tally) -> Result<(), Fail> {
    t.validated += 1;
    let text = path_text(p);
    let has_text = expressible(p) && !text.is_empty();
    let want = rv::find(m, p);
    t.out(match &want {
        Ok(_) => "found",
        Err(E::MissingKey) => "missing key",
        Err(E::IndexOutOfRange) => "out of range",
        _ => "invalid kind",
    });
    let mut setm = m.clone();
    rv::set(&mut setm, p, v.clone());
    let mut delm = m.clone();
    let delr = rv::del(&mut delm, p);

    if has_text {
        t.calls += 1;
        same_ref("get", j.get(&text), &want)?;
    }
    for how in 0..6 {
        // find, find_mut
        let mk = || paths_by(p, how);
        if let Some(q) = mk() {
            t.calls += 4;
            same_ref("find", j.find(q), &want)?;
            let mut c = j.clone();
            {
                let r = c.find_mut(mk().unwrap());
                compare("find_mut", &r, &want)?;
                if let Ok(r) = r {
                    if !rv::same(r, want.as_ref().unwrap()) {
                        return fail("find_mut reaches another value", want.as_ref().unwrap().canon(), format!("{:?}", r));
                    }
                    *r = Rv::s("mark").build();
                    let mut mm = m.clone();
                    *rv::find_mut(&mut mm, p).unwrap() = Rv::s("mark");
                    if !rv::same(&c, &mm) {
                        return fail("writing through find_mut", mm.canon(), rv::read(&c).canon());
                    }
                }
            }
            let mut c = j.clone();
            match c.update(mk().unwrap(), v.build()) {
                Ok(r) if rv::same(r, v) => {}
                other => return fail("update", v.canon(), format!("{:?}", other)),
            }
            if !rv::same(&c, &setm) {
                return fail("the document after update", setm.canon(), rv::read(&c).canon());
            }
            let mut c = j.clone();
            let r = c.discard(mk().unwrap());
            compare("discard", &r, &delr)?;
            if let (Ok(g), Ok(w)) = (&r, &delr) {
                if !rv::same(g, w) {
                    return fail("discard returns another value", w.canon(), format!("{:?}", g));
                }
            }
            if !rv::same(&c, &delm) {
                return fail("the document after discard", delm.canon(), rv::read(&c).canon());
            }
        }
    }
    // the macros
    if p.len() <= 5 {
        t.calls += 3;
        let r: Option<Result<&Json, json::Error>> = by_len!(p, 0usize, find, [j,]);
        same_ref("find!", r.unwrap(), &want)?;
        let mut c = j.clone();
        let r: Option<Result<&mut Json, json::Error>> = by_len!(p, 1usize, update, [v.build() => c,]);
        match r.unwrap() {
            Ok(r) if rv::same(r, v) => {}
            other => return fail("update!", v.canon(), format!("{:?}", other)),
        }
        if !rv::same(&c, &setm) {
            return fail("the document after update!", setm.canon(), rv::read(&c).canon());
        }
        let mut c = j.clone();
        let r: Option<Result<Json, json::Error>> = by_len!(p, 2usize, discard, [c,]);
        let r = r.unwrap();
        compare("discard!", &r, &delr)?;
        if let (Ok(g), Ok(w)) = (&r, &delr) {
            if !rv::same(g, w) {
                return fail("discard! returns another value", w.canon(), format!("{:?}", g));
            }
        }
        if !rv::same(&c, &delm) {
            return fail("the document after discard!", delm.canon(), rv::read(&c).canon());
        }
    }
    // index operators, segment by segment
    t.calls += 2;
    let got = guarded(|| {
        let mut cur = j;
        for (n, s) in p.iter().enumerate() {
            cur = match s {
                Seg::Key(x) if n % 2 == 0 => &cur[x.as_str()],
                Seg::Key(x) => &cur[x],
                Seg::Idx(i) if n % 2 == 0 => &cur[*i],
                Seg::Idx(i) => &cur[i],
            };
        }
        cur
    });
    match (got, &want) {
        (Ok(g), Ok(w)) if rv::same(g, w) => {}
        (Err(_), Err(_)) => {}
        (g, w) => return fail("indexing", format!("{:?}", w), format!("{:?}", g)),
    }
    let mut c = j.clone();
    let got = guarded(|| {
        let mut cur = &mut c;
        for (n, s) in p.iter().enumerate() {
            cur = match s {
                Seg::Key(x) if n % 2 == 1 => &mut cur[x.as_str()],
                Seg::Key(x) => &mut cur[x.clone()],
                Seg::Idx(i) => &mut cur[*i],
            };
        }
        *cur = Json::Null;
    });
    let mut mm = m.clone();
    if let Ok(x) = rv::find_mut(&mut mm, p) {
        *x = Rv::Null;
    }
    match (&got, &want) {
        (Ok(_), Ok(_)) | (Err(_), Err(_)) => {}
        (g, w) => return fail("mutable indexing", format!("{:?}", w), format!("{:?}", g)),
    }
    if !rv::same(&c, &mm) {
        return fail("the document after mutable indexing", mm.canon(), rv::read(&c).canon());
    }
    Ok(())
}

pub fn c15(run: &mut Run) {
    let th = run.thorough;
    let docs = op_docs(th);
    let docs: Vec<Rv> = docs.into_iter().filter(|d| th || d.size() <= 6).collect();
    let texts: Vec<String> = docs.iter().map(|d| d.text()).collect();
    let segs = [k("a"), k("b"), Seg::Idx(0), Seg::Idx(1), Seg::Idx(2)];
    let mut ps: Vec<Vec<Seg>> = vec![];
    let mut w = vec![];
    for i in 1..upto(5, 3) {
        word(5, i, &mut w);
        ps.push(w.iter().map(|x| segs[*x].clone()).collect());
    }
    let vals = values();
    run.family(
        "documents-x-finders",
        "every document of nesting 2 (three leaves, two keys, repeated keys) x every sequence of up to three keys and indices; find, find_mut, update, discard with six ways of making the path, find!, update!, discard!, Index, IndexMut",
        (texts.len() * ps.len()) as u64,
        |i, o| {
            put_idx(&[i as usize % ps.len(), i as usize / ps.len()], o);
            true
        },
        |p| {
            let v = idx(p);
            format!("{} at {:?}", texts[v[1]], ps[v[0]])
        },
        |p, t| {
            let v = idx(p);
            let m = &docs[v[1]];
            check(m, &m.build(), &ps[v[0]], &vals[(v[0] + v[1]) % vals.len()], t)
        },
    );
    // longer paths (the macros take any number of segments)
    let n = if th { 5 } else { 4 };
    let tower = rv::parse("{\"a\":[{\"a\":1,\"a\":{\"a\":[[1,2],{\"a\":{\"a\":3,\"b\":4}}],\"b\":[5]}},[[6,[7]],{\"b\":8}]],\"b\":{\"b\":{\"b\":{\"b\":{\"b\":9}}}}}").unwrap();
    let tj = tower.build();
    run.family(
        "long-sequences",
        "every sequence of up to five keys and indices over a b #0 #1 on one deep document",
        upto(4, n + 1),
        |i, o| {
            let mut w = vec![];
            word(4, i, &mut w);
            o.extend(w.iter().map(|x| *x as u8));
            i > 0
        },
        |p| format!("{:?}", p),
        |p, t| {
            let q: Vec<Seg> = p.iter().map(|x| segs[*x as usize].clone()).collect();
            check(&tower, &tj, &q, &vals[p.len() % vals.len()], t)
        },
    );
    // keys are taken literally by finders: no path syntax in them
    run.family(
        "literal-keys",
        "every key over a . \\ # 0 up to length 4 (thorough 5) and every Unicode scalar value, as a finder (taken literally) and as the path string with the documented escapes",
        upto(5, if th { 5 } else { 4 }) + SCALARS,
        |i, o| {
            let n = upto(5, if th { 5 } else { 4 });
            if i < n {
                push_word(&["a", ".", "\\", "#", "0"], i, o);
            } else {
                chr(o, scalar(i - n));
            }
            true
        },
        |p| format!("key {:?}", st(p)),
        |p, t| {
            let key = st(p);
            let m = Rv::obj(&[("a", Rv::Num(1.0)), ("", Rv::Num(2.0)), ("#0", Rv::Num(3.0)), ("a.a", Rv::Num(4.0)), (key, Rv::obj(&[("x", Rv::Num(5.0))]))]);
            let j = m.build();
            check(&m, &j, &[k(key)], &Rv::Num(6.0), t)?;
            check(&m, &j, &[k(key), k("x")], &Rv::Num(6.0), t)
        },
    );
    // keys that are easily taken for one another
    run.family(
        "related-keys",
        "every ordered pair of related keys x nine objects over them x eight sequences of them and an index",
        crate::related::PAIRS * 9 * 8,
        |i, o| {
            let Some((x, y)) = crate::related::pair(i / 72) else { return false };
            put_idx(&[x, y, (i / 8 % 9) as usize, (i % 8) as usize], o);
            true
        },
        |p| {
            let d = idx(p);
            format!("keys {:?} {:?} document {} sequence {}", crate::related::REL[d[0]], crate::related::REL[d[1]], d[2], d[3])
        },
        |p, t| {
            let d = idx(p);
            let (x, y) = (crate::related::REL[d[0]], crate::related::REL[d[1]]);
            let m = &crate::related::pair_docs(x, y)[d[2]];
            let q = match d[3] {
                0 => vec![k(x)],
                1 => vec![k(y)],
                2 => vec![k(x), k(y)],
                3 => vec![k(y), k(x)],
                4 => vec![k(x), k(x)],
                5 => vec![k(y), Seg::Idx(0)],
                6 => vec![k(y), Seg::Idx(0), k(x)],
                _ => vec![k(y), k(y), k(y)],
            };
            check(m, &m.build(), &q, &vals[d[3] % vals.len()], t)
        },
    );
    // every kind of value met on the way and written
    let vk = crate::related::kinds();
    run.family(
        "value-kinds",
        "22 old values of every kind x 22 new ones x six sequences ending at, above and below the old value",
        (vk.len() * vk.len() * 6) as u64,
        |i, o| {
            put_idx(&digits(i, &[vk.len(), vk.len(), 6]), o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let d = idx(p);
            let (old, new) = (&vk[d[0]], &vk[d[1]]);
            let m = if d[2] % 2 == 0 { Rv::obj(&[("j", Rv::Num(1.0)), ("k", Rv::Null), ("k", old.clone())]) } else { Rv::Arr(vec![Rv::Num(1.0), old.clone(), Rv::Num(2.0)]) };
            let s = if d[2] % 2 == 0 { k("k") } else { Seg::Idx(1) };
            let q = match d[2] / 2 {
                0 => vec![s],
                1 => vec![s, k("a")],
                _ => vec![s, Seg::Idx(0)],
            };
            check(&m, &m.build(), &q, new, t)
        },
    );
    // indices
    run.family(
        "indices",
        "finders with index 0..130 on arrays of eight sizes; find and discard with range limits",
        140 * 8,
        |i, o| {
            put_idx(&[(i % 140) as usize, [0, 1, 2, 3, 10, 64, 127, 128][(i / 140) as usize]], o);
            true
        },
        |p| format!("{:?}", idx(p)),
        |p, t| {
            let v = idx(p);
            let m = Rv::Arr((0..v[1]).map(|x| Rv::Num(x as f64)).collect());
            let j = m.build();
            if v[0] < 130 {
                check(&m, &j, &[Seg::Idx(v[0])], &Rv::s("v"), t)
            } else {
                let i = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 32, (1 << 32) - 1, 1 << 31, 1 << 30, 1 << 62, 1 << 63][v[0] - 130];
                t.calls += 3;
                t.validated += 1;
                let want: Result<(), E> = Err(E::IndexOutOfRange);
                compare("find", &j.find(i), &want)?;
                compare("get", &j.get(&format!("#{}", i)), &want)?;
                compare("discard", &j.clone().discard(i), &want)
            }
        },
    );

    // whatever stands beside the place
    let bd = crate::beside::docs();
    let bp: Vec<Vec<Seg>> = crate::beside::paths().into_iter().filter(|q| th || q.len() < 3 || !q.contains(&k("c")) && !q.contains(&Seg::Idx(3))).collect();
    run.family(
        "bystanders",
        "sixteen shapes of nested objects and arrays with two places, each place holding every one of 22 kinds of value (every pair), x every sequence of up to three of a b #0 #1 (c and #3 in the shorter ones, thorough in all)",
        bd.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| format!("document {} x {} sequences", bd[idx(p)[0]].canon(), bp.len()),
        |p, t| {
            let n = idx(p)[0];
            let j = bd[n].build();
            for (i, q) in bp.iter().enumerate() {
                let v = &vk[(n + i) % vk.len()];
                check(&bd[n], &j, q, v, t).map_err(|f| Fail { what: format!("{} (at {:?} value {})", f.what, q, v.canon()), ..f })?;
            }
            Ok(())
        },
    );
    crate::beside::odd_family(run, "paths to the first, the odd, the next and the last place, past the end and below the odd one", |n, o, t| {
        let d = o.doc();
        let j = d.build();
        for (i, q) in o.paths().iter().enumerate() {
            check(&d, &j, q, &vk[(n as usize + i * 5) % vk.len()], t)?;
        }
        Ok(())
    });
    // large documents and long paths
    let big = crate::big::cases();
    run.family(
        "sizes",
        crate::big::ABOUT,
        big.len() as u64,
        |i, o| {
            put_idx(&[i as usize], o);
            true
        },
        |p| shorten(&format!("{:?} on {}", big[idx(p)[0]].1, big[idx(p)[0]].0.canon())),
        |p, t| {
            let (m, q) = &big[idx(p)[0]];
            check(m, &m.build(), q, &vals[q.len() % vals.len()], t)
        },
    );
    // the macros with many arguments
    run.family(
        "many-arguments",
        "path!, find!, update!, discard! with 6..20, 31..33, 40 and 63..65 arguments through objects, arrays and both, right and wrong at the first, middle and last place; object! (distinct and repeated keys) and array! of as many",
        many::SIZES.len() as u64 * 3 * 8,
        |i, o| {
            put_idx(&digits(i, &[many::SIZES.len(), 3, 8]), o);
            true
        },
        |p| format!("{} arguments, form {:?}", many::SIZES[idx(p)[0]], &idx(p)[1..]),
        |p, t| {
            let d = idx(p);
            let n = many::SIZES[d[0]];
            t.validated += 1;
            t.calls += 1;
            if d[2] >= 6 {
                // members
                let key = |i: usize| match d[1] {
                    0 => format!("k{}", i),
                    1 => "k".to_string(),
                    _ => format!("k{}", i % 5),
                };
                let val = |i: usize| if i % 4 == 3 { Rv::Arr(vec![Rv::Num(i as f64)]) } else { Rv::Num(i as f64) };
                let mut order = vec![];
                let mut e = |i: usize| {
                    order.push(i);
                    val(i).build()
                };
                let (g, w) = if d[2] == 6 {
                    let ks: Vec<String> = (0..n).map(key).collect();
                    (many::object(n, &key, &mut e), Rv::obj(&ks.iter().enumerate().map(|(i, k)| (&k[..], val(i))).collect::<Vec<_>>()))
                } else {
                    (many::array(n, &mut e), Rv::Arr((0..n).map(val).collect()))
                };
                if !rv::same(&g, &w) {
                    return fail("a macro of many members", w.canon(), rv::read(&g).canon());
                }
                if order != (0..n).collect::<Vec<_>>() {
                    return fail("members evaluated", format!("0..{}", n), format!("{:?}", order));
                }
                return Ok(());
            }
            let mut m = Rv::s("bottom");
            let mut q = vec![];
            for i in (0..n).rev() {
                let key = [true, false, i % 3 == 0][d[1]];
                m = if key { Rv::obj(&[("k", Rv::Num(i as f64)), ("k", m), ("z", Rv::Null)]) } else { Rv::Arr(vec![Rv::Num(i as f64), m]) };
                q.insert(0, if key { k("k") } else { Seg::Idx(1) });
            }
            match d[2] {
                0 => {}
                1 => q[0] = k("nope"),
                2 => q[n / 2] = k("nope"),
                3 => q[n - 1] = k("nope"),
                4 => q[n - 1] = Seg::Idx(3),
                _ => q[n / 2] = Seg::Idx(0),
            }
            let j = m.build();
            let v = Rv::s("new");
            let want = rv::find(&m, &q);
            let mut setm = m.clone();
            rv::set(&mut setm, &q, v.clone());
            let mut delm = m.clone();
            let delr = rv::del(&mut delm, &q);
            for form in 0..FORMS {
                let mut order = vec![];
                let mut f = |i: usize| {
                    order.push(i);
                    finder(&q[i], (form + i) % FORMS)
                };
                same_ref("find with path!", j.find(many::path(n, &mut f)), &want)?;
                same_ref("find!", many::find(n, &j, &mut f), &want)?;
                let mut c = j.clone();
                match many::update(n, &mut c, v.build(), &mut f) {
                    Ok(r) if rv::same(r, &v) => {}
                    other => return fail("update!", v.canon(), format!("{:?}", other)),
                }
                if !rv::same(&c, &setm) {
                    return fail("the document after update!", setm.canon(), rv::read(&c).canon());
                }
                let mut c = j.clone();
                let r = many::discard(n, &mut c, &mut f);
                compare("discard!", &r, &delr)?;
                if let (Ok(g), Ok(w)) = (&r, &delr) {
                    if !rv::same(g, w) {
                        return fail("discard! returns another value", w.canon(), format!("{:?}", g));
                    }
                }
                if !rv::same(&c, &delm) {
                    return fail("the document after discard!", delm.canon(), rv::read(&c).canon());
                }
                if order != (0..n).chain(0..n).chain(0..n).chain(0..n).collect::<Vec<_>>() {
                    return fail("segments evaluated", format!("0..{} four times", n), format!("{:?}", order));
                }
            }
            Ok(())
        },
    );

    // array! and object! with every member list over a small set of values of different types
    let pool = ["1", "\"s\"", "null", "[1,\"x\"]", "{\"q\":true}"];
    let np = pool.len() as u64;
    let keys = ["a", "b", "c.#", ""];
    run.family(
        "array-macro",
        "array! of 0..6 elements over five documents, with and without a trailing comma",
        upto(np, 6) * 2,
        |i, o| {
            let mut w = vec![];
            word(np, i / 2, &mut w);
            o.push((i % 2) as u8);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| format!("array! of {:?}", p[1..].iter().map(|x| pool[*x as usize]).collect::<Vec<_>>()),
        |p, t| {
            let ms: Vec<Rv> = p[1..].iter().map(|x| rv::parse(pool[*x as usize]).unwrap()).collect();
            let e = |i: usize| ms[i].build();
            let j = match (ms.len(), p[0]) {
                (0, _) => array![],
                (1, 0) => array![e(0)],
                (1, _) => array![e(0),],
                (2, 0) => array![e(0), e(1)],
                (2, _) => array![e(0), e(1),],
                (3, 0) => array![e(0), e(1), e(2)],
                (3, _) => array![e(0), e(1), e(2),],
                (4, 0) => array![e(0), e(1), e(2), e(3)],
                (4, _) => array![e(0), e(1), e(2), e(3),],
                (5, 0) => array![e(0), e(1), e(2), e(3), e(4)],
                (5, _) => array![e(0), e(1), e(2), e(3), e(4),],
                (6, 0) => array![e(0), e(1), e(2), e(3), e(4), e(5)],
                _ => array![e(0), e(1), e(2), e(3), e(4), e(5),],
            };
            t.calls += 1;
            t.validated += 1;
            let w = Rv::Arr(ms);
            if rv::same(&j, &w) {
                Ok(())
            } else {
                fail("array!", w.canon(), rv::read(&j).canon())
            }
        },
    );
    let nm = 4 * 3;
    run.family(
        "object-macro",
        "object! of 0..5 members over four keys and three documents, with and without a trailing comma",
        upto(nm, 5) * 2,
        |i, o| {
            let mut w = vec![];
            word(nm, i / 2, &mut w);
            o.push((i % 2) as u8);
            o.extend(w.iter().map(|x| *x as u8));
            true
        },
        |p| format!("object! of {:?}", p[1..].iter().map(|x| (keys[(*x % 4) as usize], pool[(*x / 4) as usize])).collect::<Vec<_>>()),
        |p, t| {
            let ms: Vec<(&str, Rv)> = p[1..].iter().map(|x| (keys[(*x % 4) as usize], rv::parse(pool[(*x / 4 + 2) as usize]).unwrap())).collect();
            let g = |i: usize| ms[i].0;
            let e = |i: usize| ms[i].1.build();
            let j = match (ms.len(), p[0]) {
                (0, _) => object! {},
                (1, 0) => object! { g(0) => e(0) },
                (1, _) => object! { g(0) => e(0), },
                (2, 0) => object! { g(0) => e(0), g(1) => e(1) },
                (2, _) => object! { g(0) => e(0), g(1).to_string() => e(1), },
                (3, 0) => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2) },
                (3, _) => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), },
                (4, 0) => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3) },
                (4, _) => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), },
                (5, 0) => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4) },
                _ => object! { g(0) => e(0), g(1) => e(1), g(2) => e(2), g(3) => e(3), g(4) => e(4), },
            };
            t.calls += 1;
            t.validated += 1;
            let w = Rv::obj(&ms);
            if rv::same(&j, &w) {
                Ok(())
            } else {
                fail("object!", w.canon(), rv::read(&j).canon())
            }
        },
    );
    // the macros written out with values of mixed types; each argument evaluated once, in order
    run.family(
        "written-out",
        "macro invocations written out: mixed value types, nested macros, keys of several types, evaluation count and order, macros on expressions",
        12,
        |i, o| {
            o.push(i as u8);
            true
        },
        |p| format!("#{}", p[0]),
        |p, t| {
            t.calls += 1;
            t.validated += 1;
            let eq = |j: Json, w: &str| {
                let w = rv::parse(w).unwrap();
                if rv::same(&j, &w) {
                    Ok(())
                } else {
                    fail("macro", w.canon(), rv::read(&j).canon())
                }
            };
            let c = Cell::new(0u32);
            let tick = |n: u32| {
                c.set(c.get() * 10 + n);
                n
            };
            match p[0] {
                0 => eq(array![1u8, -2i64, 1.5f32, "s", String::from("t"), true, None::<u8>, Some(3), vec![1, 2], Json::Null], "[1,-2,1.5,\"s\",\"t\",true,null,3,[1,2],null]"),
                1 => eq(object! { "a" => 1, 'c' => "x", 7 => array![], String::from("s") => object!{ "a" => Json::Null, "a" => 2 } }, "{\"a\":1,\"c\":\"x\",\"7\":[],\"s\":{\"a\":null,\"a\":2}}"),
                2 => eq(array![array![], array![array![1]], object! {}], "[[],[[1]],{}]"),
                3 => {
                    let j = array![tick(1), tick(2), tick(3)];
                    eq(j, "[1,2,3]")?;
                    if c.get() != 123 {
                        return fail("array! evaluates its elements once, in order", "123", c.get().to_string());
                    }
                    Ok(())
                }
                4 => {
                    let j = object! { tick(1) => tick(2), tick(3) => tick(4) };
                    eq(j, "{\"1\":2,\"3\":4}")?;
                    if c.get() != 1234 {
                        return fail("object! evaluates its members once, in order", "1234", c.get().to_string());
                    }
                    Ok(())
                }
                5 => {
                    let mut j = object! { "a" => array![1, 2] };
                    let r = update!(tick(9) => j, "a", { tick(1); 1usize }).is_ok();
                    eq(j, "{\"a\":[1,9]}")?;
                    if !r || c.get() % 100 == 0 || (c.get() != 19 && c.get() != 91) {
                        return fail("update! evaluates its arguments once", "19 or 91", c.get().to_string());
                    }
                    Ok(())
                }
                6 => {
                    let j = object! { "a" => array![1, object!{ "k.#" => "v" }] };
                    let i = 1usize;
                    let s = String::from("k.#");
                    match find!(j, "a", &i, &s) {
                        Ok(x) => eq(x.clone(), "\"v\""),
                        Err(e) => fail("find!", "v", e.to_string()),
                    }
                }
                7 => {
                    let mut j = object! { "a" => array![1, object!{ "b" => "v" }] };
                    match discard!(j, "a", 1, "b",) {
                        Ok(x) => {
                            eq(x, "\"v\"")?;
                            eq(j, "{\"a\":[1,{}]}")
                        }
                        Err(e) => fail("discard!", "v", e.to_string()),
                    }
                }
                8 => {
                    // a macro argument named like the macro's own temporaries
                    let _path = "a";
                    let _json = object! { "a" => 5 };
                    let r = find!(_json, _path).cloned();
                    eq(r.unwrap_or(Json::Null), "5")?;
                    let _obj = 3;
                    let _vec = 4;
                    eq(object! { "o" => _obj }, "{\"o\":3}")?;
                    eq(array![_vec, _obj], "[4,3]")
                }
                9 => {
                    let mut a = Path::new("a");
                    a.append(0).append("b").append(1usize);
                    let mut j = Json::Null;
                    let ok = j.update(a, "z").is_ok();
                    if !ok {
                        return fail("update", "Ok", "Err");
                    }
                    eq(j, "{\"a\":[{\"b\":[null,\"z\"]}]}")
                }
                10 => {
                    let mut v = array![1, 2, 3];
                    v[1] = object! { "x" => 1 };
                    v[1]["x"] = Json::String("y".into());
                    eq(v, "[1,{\"x\":\"y\"},3]")
                }
                _ => {
                    let mut v = object! { "a" => 1, "a" => 2 };
                    v["a"] = Json::Null;
                    eq(v, "{\"a\":1,\"a\":null}")
                }
            }
        },
    );
    let _ = docs_level;
}
