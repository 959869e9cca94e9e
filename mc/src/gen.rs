//! Index-based enumerators: every family is a bijection (or a filtered injection) from 0..n.
use crate::rv::Rv;

/// number of strings over k symbols of length 0..=len
pub fn upto(k: u64, len: u32) -> u64 {
    let mut t = 0u64;
    let mut p = 1u64;
    for _ in 0..=len {
        t += p;
        p *= k;
    }
    t
}

/// the i-th word (shortlex) over k symbols, as symbol numbers
pub fn word(k: u64, mut i: u64, out: &mut Vec<usize>) {
    out.clear();
    let mut l = 0u32;
    let mut p = 1u64;
    while i >= p {
        i -= p;
        p *= k;
        l += 1;
    }
    for _ in 0..l {
        out.push((i % k) as usize);
        i /= k;
    }
    out.reverse();
}

pub fn push_word(alpha: &[&str], i: u64, out: &mut Vec<u8>) {
    let mut w = Vec::new();
    word(alpha.len() as u64, i, &mut w);
    for s in w {
        out.extend_from_slice(alpha[s].as_bytes());
    }
}

pub fn chr(out: &mut Vec<u8>, c: char) {
    let mut b = [0u8; 4];
    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
}

/// i-th Unicode scalar value (1_112_064 of them)
pub const SCALARS: u64 = 0x110000 - 0x800;
pub fn scalar(i: u64) -> char {
    let u = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(u as u32).unwrap()
}

// ------------------------------------------------------------- edits of a text

/// number of single edits of a text of l characters over an alphabet of a characters
pub fn edits(l: usize, a: usize) -> u64 {
    ((l + 1) * a + l * a + l + l + l.saturating_sub(1)) as u64
}
/// apply edit e: insert, replace, delete, double, swap with the next
pub fn edit(t: &[char], alpha: &[char], e: u64) -> Vec<char> {
    let (l, a) = (t.len(), alpha.len());
    let mut e = e as usize;
    let mut v = t.to_vec();
    if e < (l + 1) * a {
        v.insert(e / a, alpha[e % a]);
        return v;
    }
    e -= (l + 1) * a;
    if e < l * a {
        v[e / a] = alpha[e % a];
        return v;
    }
    e -= l * a;
    if e < l {
        v.remove(e);
        return v;
    }
    e -= l;
    if e < l {
        let c = v[e];
        v.insert(e, c);
        return v;
    }
    e -= l;
    v.swap(e, e + 1);
    v
}

// ------------------------------------------------------------- documents

/// All arrays of at most `n` elements over `items`.
pub fn arrays(items: &[Rv], n: usize) -> Vec<Rv> {
    let mut out = vec![];
    let mut w = vec![];
    for i in 0..upto(items.len() as u64, n as u32) {
        word(items.len() as u64, i, &mut w);
        out.push(Rv::Arr(w.iter().map(|x| items[*x].clone()).collect()));
    }
    out
}

/// All objects over `keys` in which every key has at most `per_key` values and there are at most `total` members.
pub fn objects(keys: &[&str], items: &[Rv], per_key: usize, total: usize) -> Vec<Rv> {
    let k = items.len() as u64;
    let lists: Vec<Vec<usize>> = (0..upto(k, per_key as u32))
        .map(|i| {
            let mut w = vec![];
            word(k, i, &mut w);
            w
        })
        .collect();
    let mut acc: Vec<Vec<&Vec<usize>>> = vec![vec![]];
    for _ in keys {
        let mut n = vec![];
        for a in &acc {
            let used: usize = a.iter().map(|x| x.len()).sum();
            for l in &lists {
                // the lists come shortest first
                if used + l.len() > total {
                    break;
                }
                let mut b = a.clone();
                b.push(l);
                n.push(b);
            }
        }
        acc = n;
    }
    acc.iter()
        .map(|ls| {
            let mut m = std::collections::BTreeMap::new();
            for (key, l) in keys.iter().zip(ls) {
                if !l.is_empty() {
                    m.insert(key.to_string(), l.iter().map(|x| items[*x].clone()).collect::<Vec<_>>());
                }
            }
            Rv::Obj(m)
        })
        .collect()
}

/// Documents of nesting at most `depth`: leaves, then arrays and objects over everything shallower.
pub fn docs(leaves: &[Rv], keys: &[&str], depth: usize, width: usize, per_key: usize, total: usize) -> Vec<Rv> {
    let mut cur: Vec<Rv> = leaves.to_vec();
    for _ in 0..depth {
        let mut next = leaves.to_vec();
        next.extend(arrays(&cur, width));
        next.extend(objects(keys, &cur, per_key, total));
        cur = next;
    }
    cur
}

/// Join byte strings into one payload and split it again.
pub fn pack(parts: &[&[u8]], out: &mut Vec<u8>) {
    for p in parts {
        out.extend_from_slice(&(p.len() as u32).to_le_bytes());
        out.extend_from_slice(p);
    }
}
pub fn unpack(p: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i + 4 <= p.len() {
        let n = u32::from_le_bytes(p[i..i + 4].try_into().unwrap()) as usize;
        v.push(&p[i + 4..i + 4 + n]);
        i += 4 + n;
    }
    v
}
pub fn st(p: &[u8]) -> &str {
    std::str::from_utf8(p).expect("payload is text")
}
pub fn idx(p: &[u8]) -> Vec<usize> {
    p.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()) as usize).collect()
}
pub fn put_idx(v: &[usize], out: &mut Vec<u8>) {
    for x in v {
        out.extend_from_slice(&(*x as u32).to_le_bytes());
    }
}
/// split i into mixed-radix digits
pub fn digits(mut i: u64, radix: &[usize]) -> Vec<usize> {
    let mut v = Vec::with_capacity(radix.len());
    for r in radix {
        v.push((i % *r as u64) as usize);
        i /= *r as u64;
    }
    v
}
pub fn product(radix: &[usize]) -> u64 {
    radix.iter().map(|x| *x as u64).product()
}

// ------------------------------------------------------------- characters

/// All controls, the characters JSON treats specially, digits and letters of escapes, and the edges of every encoding length.
pub fn class_chars() -> Vec<char> {
    let mut v: Vec<char> = (0..0x20u8).map(|b| b as char).collect();
    v.extend("\"\\/ au0nD#.]},:\u{7f}\u{80}\u{a0}\u{7ff}\u{800}\u{2028}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f600}\u{10ffff}".chars());
    v
}
pub fn class_word(cs: &[char], i: u64, out: &mut Vec<u8>) {
    let mut w = vec![];
    word(cs.len() as u64, i, &mut w);
    for x in w {
        chr(out, cs[x]);
    }
}

/// Characters that combine with, cancel or look like one another: Latin, combining marks, Greek final sigma, jamo,
/// kana marks, joiners, direction marks, selectors, flags, skin tones, noncharacters, private use, edges of planes.
pub fn mixed_chars() -> Vec<char> {
    let r: &[(u32, u32)] = &[
        (0, 0x17f), (0x1c4, 0x1cc), (0x2b0, 0x2b8), (0x300, 0x330), (0x338, 0x338), (0x345, 0x345), (0x36f, 0x36f), (0x391, 0x393), (0x3c2, 0x3c4), (0x5d0, 0x5d1), (0x5b0, 0x5b1), (0x644, 0x644), (0x627, 0x627),
        (0x7fe, 0x801), (0x1100, 0x1102), (0x1161, 0x1162), (0x11a8, 0x11a9), (0xac00, 0xac01), (0x1e9e, 0x1e9e), (0x2000, 0x200f), (0x2028, 0x202f), (0x2060, 0x2064), (0x20dd, 0x20dd), (0x20e3, 0x20e3), (0x212a, 0x212b),
        (0x3000, 0x3000), (0x304b, 0x304c), (0x3099, 0x309a), (0xd7fe, 0xd7ff), (0xe000, 0xe001), (0xf8ff, 0xf900), (0xfb00, 0xfb01), (0xfe0e, 0xfe0f), (0xfeff, 0xfeff), (0xff0e, 0xff11), (0xfff9, 0xfffd), (0xfffe, 0x10001),
        (0x1d15e, 0x1d15e), (0x1f1e6, 0x1f1e7), (0x1f3fb, 0x1f3fc), (0x1f600, 0x1f601), (0x1fffe, 0x20000), (0xe0001, 0xe0001), (0xe0100, 0xe0101), (0xffffe, 0x100000), (0x10fffe, 0x10ffff),
    ];
    r.iter().flat_map(|(a, b)| *a..=*b).filter_map(char::from_u32).collect()
}
