//! Every kind of value beside, above and below every place a path names: what is not on the path is left alone
//! whatever it is, and what is on the path is found whatever stands next to it.
use crate::rv::{self, Rv, Seg};

pub const ABOUT: &str = "sixteen shapes of nested objects and arrays with two places, each place holding every one of 22 kinds of value (every pair), x every path of up to three segments over a b c #0 #1 #3";

const SHAPES: &[&str] = &[
    "{\"a\":A,\"b\":B}",
    "{\"a\":A,\"a\":B}",
    "[A,B]",
    "{\"a\":{\"a\":A,\"b\":B}}",
    "{\"a\":{\"a\":A,\"a\":B},\"b\":A}",
    "{\"a\":[A,B]}",
    "[{\"a\":A,\"b\":B}]",
    "[[A,B]]",
    "{\"a\":{\"a\":A},\"b\":B}",
    "{\"a\":[A],\"b\":B}",
    "[[A],B]",
    "[{\"a\":A},B]",
    "{\"a\":A,\"a\":{\"b\":B}}",
    "{\"a\":{\"b\":{\"a\":A,\"b\":B}}}",
    "{\"a\":[[A,B],A]}",
    "{\"a\":{\"a\":{\"c\":A},\"b\":B}}",
];

pub fn docs() -> Vec<Rv> {
    let ks: Vec<String> = crate::related::kinds().iter().map(|x| x.text()).collect();
    let mut seen = std::collections::HashSet::new();
    let mut o = vec![];
    for s in SHAPES {
        for a in &ks {
            for b in &ks {
                let d = rv::parse(&s.replace('A', a).replace('B', b)).expect("document");
                if seen.insert(d.canon()) {
                    o.push(d);
                }
            }
        }
    }
    o
}

pub fn paths() -> Vec<Vec<Seg>> {
    let segs = [Seg::Key("a".into()), Seg::Key("b".into()), Seg::Key("c".into()), Seg::Idx(0), Seg::Idx(1), Seg::Idx(3)];
    let mut o: Vec<Vec<Seg>> = vec![];
    let mut w = vec![];
    for i in 1..crate::gen::upto(6, 3) {
        crate::gen::word(6, i, &mut w);
        o.push(w.iter().map(|x| segs[*x].clone()).collect());
    }
    o
}

/// One value unlike the others among n: 3..16 and a ladder, in an array, an object or the values of a key.
pub const ODD: &str = "containers of n values (3..16, 32, 33, 64, 65, 128, 129, 256, 257; array, object, values of one key) that are all numbers, all strings, all null or of every kind in turn, but for one of any of 22 kinds at the first, second, middle, last but one or last place";
const NS: &[usize] = &[3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 32, 33, 64, 65, 128, 129, 256, 257];
const DIMS: [usize; 5] = [3, NS.len(), 4, 22, 5];

pub struct Odd {
    pub form: usize,
    pub values: Vec<Rv>,
    pub place: usize,
}

pub fn odd_count() -> u64 {
    crate::gen::product(&DIMS)
}

pub fn odd(i: u64, kinds: &[Rv]) -> Option<Odd> {
    let d = crate::gen::digits(i, &DIMS);
    let n = NS[d[1]];
    let place = [0, 1, n / 2, n - 2, n - 1][d[4]];
    if d[4] > 0 && [0, 1, n / 2, n - 2, n - 1][..d[4]].contains(&place) {
        return None;
    }
    let mut values: Vec<Rv> = (0..n)
        .map(|i| match d[2] {
            0 => Rv::Num(i as f64),
            1 => Rv::s(&format!("s{}", i)),
            2 => Rv::Null,
            _ => kinds[(i * 7 + d[3]) % kinds.len()].clone(),
        })
        .collect();
    values[place] = kinds[d[3]].clone();
    Some(Odd { form: d[0], values, place })
}

impl Odd {
    pub fn key(&self, i: usize) -> String {
        match self.form {
            1 => format!("k{}", i),
            _ => "k".into(),
        }
    }
    pub fn doc(&self) -> Rv {
        match self.form {
            0 => Rv::Arr(self.values.clone()),
            1 => Rv::Obj(self.values.iter().enumerate().map(|(i, v)| (format!("k{}", i), vec![v.clone()])).collect()),
            _ => Rv::Obj([("k".to_string(), self.values.clone()), ("l".to_string(), vec![Rv::Null])].into_iter().collect()),
        }
    }
    fn seg(&self, i: usize) -> Seg {
        match self.form {
            0 => Seg::Idx(i),
            _ => Seg::Key(self.key(i)),
        }
    }
    /// the places at and around the odd value, and into it
    pub fn paths(&self) -> Vec<Vec<Seg>> {
        let n = self.values.len();
        let mut at: Vec<usize> = vec![0, self.place, self.place + 1, n - 1, n];
        at.dedup();
        let mut o: Vec<Vec<Seg>> = at.iter().map(|i| vec![self.seg(*i)]).collect();
        for s in [Seg::Key("a".into()), Seg::Idx(0), Seg::Idx(2)] {
            o.push(vec![self.seg(self.place), s]);
        }
        o.push(vec![Seg::Key("x".into())]);
        o.push(vec![Seg::Idx(n + 2)]);
        o
    }
}

/// The family of these containers.
pub fn odd_family<F>(run: &mut crate::engine::Run, what: &str, case: F)
where
    F: Fn(u64, &Odd, &mut crate::engine::Tally) -> Result<(), crate::engine::Fail> + Sync,
{
    let kinds = crate::related::kinds();
    run.family(
        "one-unlike",
        &if what.is_empty() { ODD.to_string() } else { format!("{}; {}", ODD, what) },
        odd_count(),
        |i, o| {
            crate::gen::put_idx(&[i as usize], o);
            odd(i, &kinds).is_some()
        },
        |p| odd(crate::gen::idx(p)[0] as u64, &kinds).map(|o| crate::engine::shorten(&o.doc().canon())).unwrap_or_default(),
        |p, t| {
            let i = crate::gen::idx(p)[0] as u64;
            case(i, &odd(i, &kinds).expect("case"), t)
        },
    );
}
