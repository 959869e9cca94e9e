//! Large documents with paths into them: long paths, wide objects and arrays, many values of a key, long keys.
//! The same in every tier, so that an index names the same case.
use crate::rv::{Rv, Seg};

pub const ABOUT: &str = "documents of depth, width, repetition or key length n with paths that reach the first, middle and last place or go wrong there (n = 0..20 and a ladder to 300; thousands for arrays, members, values of a key and key lengths)";

fn k(s: &str) -> Seg {
    Seg::Key(s.into())
}

pub fn cases() -> Vec<(Rv, Vec<Seg>)> {
    let mut o: Vec<(Rv, Vec<Seg>)> = vec![];
    let ladder: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]).collect();
    for &n in &ladder {
        let places = {
            let mut p = vec![0, n / 2, n - 1];
            p.dedup();
            p
        };
        // depth
        for form in 0..4 {
            let mut d = Rv::s("bottom");
            let mut p = vec![];
            for i in (0..n).rev() {
                if [true, false, i % 2 == 0, i % 16 != 15][form] {
                    d = Rv::obj(&[("k", Rv::Num(i as f64)), ("k", d), ("z", Rv::Null)]);
                    p.push(k("k"));
                } else {
                    d = Rv::Arr(vec![Rv::Num(i as f64), d]);
                    p.push(Seg::Idx(1));
                }
            }
            p.reverse();
            o.push((d.clone(), p.clone()));
            o.push((d.clone(), [&p[..], &[k("k")]].concat()));
            for &i in &places {
                if i > 0 {
                    o.push((d.clone(), p[..i].to_vec()));
                }
                for wrong in [k("absent"), Seg::Idx(2), k("z"), Seg::Idx(0)] {
                    let mut q = p.clone();
                    q[i] = wrong;
                    o.push((d.clone(), q));
                }
            }
        }
        // width
        let names: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
        let wide = Rv::obj(&names.iter().enumerate().map(|(i, x)| (&x[..], if i % 3 == 2 { Rv::obj(&[("a", Rv::Num(i as f64))]) } else { Rv::Arr(vec![Rv::Num(i as f64)]) })).collect::<Vec<_>>());
        let list = Rv::Arr((0..n).map(|i| if i % 3 == 2 { Rv::obj(&[("a", Rv::Num(i as f64))]) } else { Rv::Num(i as f64) }).collect());
        for d in [wide.clone(), Rv::obj(&[("a", wide.clone())]), Rv::Arr(vec![Rv::Null, wide.clone()])] {
            let pre: Vec<Seg> = match &d {
                Rv::Arr(_) => vec![Seg::Idx(1)],
                Rv::Obj(m) if m.contains_key("a") => vec![k("a")],
                _ => vec![],
            };
            for i in places.iter().cloned().chain([n]) {
                for tail in [vec![], vec![k("a")], vec![Seg::Idx(0)], vec![Seg::Idx(1)]] {
                    o.push((d.clone(), [&pre[..], &[k(&format!("k{}", i))], &tail].concat()));
                }
            }
        }
        for (d, pre) in [(list.clone(), vec![]), (Rv::obj(&[("a", list.clone())]), vec![k("a")]), (Rv::Arr(vec![list.clone(), Rv::Null]), vec![Seg::Idx(0)])] {
            for i in places.iter().cloned().chain([n, n + 1, 2 * n + 3]) {
                for tail in [vec![], vec![k("a")], vec![Seg::Idx(0)]] {
                    o.push((d.clone(), [&pre[..], &[Seg::Idx(i)], &tail].concat()));
                }
            }
        }
        // values of one key, the last of each kind
        for last in ["7", "[1,2]", "{\"a\":1}", "null"] {
            let last = crate::rv::parse(last).unwrap();
            let ms: Vec<(&str, Rv)> = (0..n).map(|i| ("a", if i + 1 == n { last.clone() } else { Rv::Num(i as f64) })).chain([("b", Rv::Num(-1.0))]).collect();
            let d = Rv::obj(&ms);
            for p in [vec![k("a")], vec![k("a"), k("a")], vec![k("a"), Seg::Idx(1)], vec![k("b")], vec![k("c")], vec![k("b"), k("a")]] {
                o.push((d.clone(), p.clone()));
                o.push((Rv::obj(&[("a", Rv::Null), ("a", d.clone())]), [&[k("a")][..], &p].concat()));
            }
        }
        // length of keys, and characters written with an escape
        for unit in ["k", "\u{e9}", ".", "\\", "#", "\"", "\n", ".\\", "0", "-", " "] {
            let a = format!("{}a", unit.repeat(n));
            let b = format!("{}b", unit.repeat(n));
            let c = unit.repeat(n + 1);
            let e = unit.repeat(n - 1);
            let d = Rv::obj(&[(&a, Rv::Num(1.0)), (&b, Rv::obj(&[(&a, Rv::Num(2.0)), (&a, Rv::Num(3.0))])), (&c, Rv::Arr(vec![Rv::Num(4.0)]))]);
            for p in [vec![k(&a)], vec![k(&b), k(&a)], vec![k(&c)], vec![k(&c), Seg::Idx(0)], vec![k(&b), k(&b)], vec![k(&e)], vec![k(&a), k(&e)]] {
                o.push((d.clone(), p));
            }
        }
    }
    // longer keys, more members, more values of a key
    for n in [511usize, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 65537] {
        for unit in ["k", "\u{e9}", ".", "\\", "#", "0"] {
            let a = format!("{}a", unit.repeat(n));
            let c = unit.repeat(n);
            let e = unit.repeat(n - 1);
            let d = Rv::obj(&[(&a, Rv::Num(1.0)), (&c, Rv::obj(&[(&a, Rv::Num(2.0)), (&a, Rv::Num(3.0))]))]);
            for p in [vec![k(&a)], vec![k(&c), k(&a)], vec![k(&c), k(&c)], vec![k(&e)]] {
                o.push((d.clone(), p));
            }
        }
        if n < 5000 {
            let d = Rv::Obj((0..n).map(|i| (format!("k{}", i), vec![Rv::Num(i as f64)])).collect());
            let e = Rv::Obj([("k".to_string(), (0..n).map(|i| Rv::Num(i as f64)).collect())].into_iter().collect());
            for p in [vec![k("k0")], vec![k(&format!("k{}", n - 1))], vec![k(&format!("k{}", n))]] {
                o.push((d.clone(), p));
            }
            for p in [vec![k("k")], vec![k("k"), k("k")], vec![k("k0")]] {
                o.push((e.clone(), p.clone()));
                o.push((Rv::Arr(vec![e.clone()]), [&[Seg::Idx(0)][..], &p].concat()));
            }
        }
    }
    // longer arrays
    for n in [511usize, 512, 513, 1000, 1023, 1024, 1025, 4096, 10001] {
        let d = Rv::Arr((0..n).map(|i| Rv::Num(i as f64)).collect());
        for i in [0, n / 2, n - 1, n, n + 9] {
            o.push((d.clone(), vec![Seg::Idx(i)]));
            o.push((Rv::obj(&[("a", d.clone())]), vec![k("a"), Seg::Idx(i)]));
        }
    }
    o.retain(|c| !c.1.is_empty());
    o
}
