//! C01 acceptance, C02 denotation, C03 totality: families of texts.
use crate::engine::*;
use crate::gen::*;
use crate::rv::{self, Rv};
use json::{ErrorKind, Json};

pub type TextCase = fn(&[u8], &mut Tally) -> Result<(), Fail>;

fn parse_kind(k: &ErrorKind) -> bool {
    use ErrorKind::*;
    matches!(
        k,
        InvalidJson | ParseObjectError | ParseArrayError | ParseStringError | ParseNumberError | ParseBooleanError | ParseNullError
    )
}

pub fn accept(p: &[u8], t: &mut Tally) -> Result<(), Fail> {
    let s = st(p);
    let want = rv::parse(s).is_some();
    t.calls += 1;
    t.validated += 1;
    match Json::parse(s) {
        Ok(j) => {
            if want {
                t.out("accepted");
                Ok(())
            } else {
                fail("Json::parse accepts a text that is not JSON", "an error", format!("Ok({:?})", j))
            }
        }
        Err(e) => {
            if want {
                fail("Json::parse refuses a JSON text", format!("{}", rv::parse(s).unwrap().canon()), e.to_string())
            } else if parse_kind(&e.kind) {
                t.out("refused");
                Ok(())
            } else {
                fail("Json::parse fails with a kind that is not a parse kind", "a parse kind", e.to_string())
            }
        }
    }
}

pub fn denote(p: &[u8], t: &mut Tally) -> Result<(), Fail> {
    let s = st(p);
    t.calls += 1;
    match (Json::parse(s), rv::parse(s)) {
        (Ok(j), Some(w)) => {
            t.validated += 1;
            t.out(w.kind());
            if rv::same(&j, &w) {
                Ok(())
            } else {
                fail("the parsed value is not what the text denotes", w.canon(), format!("{:?}", j))
            }
        }
        _ => {
            // acceptance is C01
            t.out("refused");
            Ok(())
        }
    }
}

/// Everything a user might do with a text: parse it, print it, convert it.
pub fn total(p: &[u8], t: &mut Tally) -> Result<(), Fail> {
    let s = st(p);
    t.calls += 1;
    t.validated += 1;
    match Json::parse(s) {
        Ok(j) => {
            let _ = j.to_string();
            let _ = j.convert::<f64>();
            let _ = j.convert::<u8>();
            let _ = j.convert::<i64>();
            let _ = j.convert::<String>();
            let _ = j.convert::<Vec<Json>>();
            let _ = j.convert::<Vec<(String, Json)>>();
            let _ = j.convert::<std::collections::HashMap<String, Option<u32>>>();
            t.calls += 8;
            t.out("value");
        }
        Err(e) => {
            let _ = e.to_string();
            t.out("error");
        }
    }
    // the text as a path as well
    let mut j = Json::parse("{\"a\":[1,{\"b\":2}]}").unwrap();
    let _ = j.get(s).is_ok();
    let _ = j.del(s).is_ok();
    t.calls += 2;
    Ok(())
}

pub const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("[", "]"),
    ("{\"k\":", "}"),
    ("[1,", "]"),
    ("[", ",1]"),
    ("{\"k\":", ",\"l\":1}"),
    ("{\"l\":1,\"k\":", "}"),
    (" ", " "),
    ("[[", "]]"),
    ("[{\"k\":", "}]"),
    ("{\"k\":[", "]}"),
];
/// contexts in which the string literal is the key
pub const KCTX: &[(&str, &str)] = &[("{", ":1}"), ("[{", " :[]}]"), ("{\"a\":1,", ":2}"), ("{", ":1,\"z\":2}")];

pub const BASE: &[&str] = &[
    "null",
    "true",
    "false",
    "0",
    "-1",
    "10.5e+2",
    "\"\"",
    "\"a\"",
    "\"\\n\"",
    "\"\\u00e9\"",
    "\"\\ud83d\\ude00\"",
    "[]",
    "{}",
    "[1]",
    "[1,2]",
    "[ ]",
    "{ }",
    "[[]]",
    "[{}]",
    "[\"]\"]",
    "[\"[\"]",
    "[\"}\",\"{\"]",
    "[\"\\\"\"]",
    "[\"\\\\\"]",
    "{\"a\":1}",
    "{\"a\":{}}",
    "{\"a\":[]}",
    "{\"a\":\"}\"}",
    "{\":\":\":\"}",
    "{\"\\\"\":1}",
    "{\"a\":1,\"b\":2}",
    "{\"a\":1,\"a\":2}",
    "{\"a\" : [1 , {\"b\" : null}] }",
    "[1,[2,[3]],{\"a\":[4]}]",
    " [ true , false ] ",
    "[\"a,b\",\"c\"]",
    "{\"a,b\":\"c:d\",\"e\":[\"f\"]}",
    "[-0.0,1e5,1E-5]",
    "{\"\":\"\"}",
    "[[[[1]]]]",
    "{\"a\":{\"b\":{\"c\":\"d\"}}}",
    "[\"\\/\\b\\f\\t\\r\"]",
];

const EDITS: &[char] = &[
    '[', ']', '{', '}', ',', ':', '"', '\\', '1', '0', '-', '+', '.', 'e', 'E', 'n', 't', 'f', 'u', 'a', 'D', ' ', '\t', '\n',
    '\r', '\x0b', '\x0c', '/', '\'', '\u{a0}', '\u{feff}', '\u{e9}', '\u{1f600}', '\0', '\x1f', '\x7f', '\u{2028}', '#',
];
const EDITS2: &[char] = &['[', ']', '{', '}', ',', ':', '"', '\\', '1', '0', '-', '.', 'e', 'n', ' ', '\n', 'u'];

fn show(p: &[u8]) -> String {
    format!("{:?}", st(p))
}

/// The families of texts; `deep` selects longer words.
pub fn families(run: &mut Run, case: TextCase, deep: u32) {
    let th = run.thorough;
    let l = |q: u32, t: u32| if th { t } else { q.min(deep) };

    let a: &[&str] = &["[", "]", "{", "}", ",", ":", "\"", "\\", "1", "0", " ", "-", "a"];
    let n = upto(a.len() as u64, l(7, 8));
    run.family("chars", "all words over the 13 characters []{},:\"\\10 -a", n, |i, o| { push_word(a, i, o); true }, show, case);

    let a: &[&str] = &["[", "]", "{", "}", ",", ":", "1", "\"a\"", "\"]\"", " "];
    let n = upto(a.len() as u64, l(7, 8));
    run.family("tokens", "all sequences over the tokens [ ] { } , : 1 \"a\" \"]\" and a space", n, |i, o| { push_word(a, i, o); true }, show, case);

    let a: &[&str] = &["[", "]", "{", "}", ",", "\"a\":", "\"b\":", "null", "\"}\"", "-0.5"];
    let n = upto(a.len() as u64, l(7, 8));
    run.family("members", "all sequences over [ ] { } , \"a\": \"b\": null \"}\" -0.5", n, |i, o| { push_word(a, i, o); true }, show, case);

    // a complete tail for sequences of members and elements, so that long valid texts are dense
    let a: &[&str] = &["1,", "[2],", "{\"a\":3},", "\"[\",", "[],", "{},", "\"\\\"\",", " ,", "\"a\":4,", "[[5],6],"];
    let n = 2 * upto(a.len() as u64, l(6, 7));
    run.family(
        "elements",
        "arrays and objects with all sequences of ten kinds of elements and a final one",
        n,
        |i, o| {
            let (open, last, close) = [("[", "7", "]"), ("{\"k\":", "7", "}")][(i % 2) as usize];
            o.extend_from_slice(open.as_bytes());
            push_word(a, i / 2, o);
            o.extend_from_slice(last.as_bytes());
            o.extend_from_slice(close.as_bytes());
            true
        },
        show,
        case,
    );

    let a: &[&str] = &["0", "1", "9", "-", "+", ".", "e", "E"];
    let w = upto(a.len() as u64, l(7, 8));
    let n = w * CTX.len() as u64;
    run.family(
        "numbers",
        "all words over 0 1 9 - + . e E in eleven contexts",
        n,
        |i, o| {
            let (p, s) = CTX[(i % CTX.len() as u64) as usize];
            o.extend_from_slice(p.as_bytes());
            push_word(a, i / CTX.len() as u64, o);
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );

    // digits and exponents at scale
    let ints: Vec<String> = number_texts(th);
    let ints_r = &ints;
    run.family(
        "long-numbers",
        "integer part x fraction x exponent texts of up to several hundred digits, around every range limit",
        ints.len() as u64 * 3,
        |i, o| {
            let (p, s) = [("", ""), ("[", ",1]"), ("{\"k\":", "}")][(i % 3) as usize];
            o.extend_from_slice(p.as_bytes());
            o.extend_from_slice(ints_r[(i / 3) as usize].as_bytes());
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );

    // the three literals and their neighbourhood
    let lits: Vec<Vec<char>> = ["null", "true", "false"].iter().map(|x| x.chars().collect()).collect();
    let la: Vec<char> = "nultrefasNULTRE01\" \t[]{},:_\u{e9}\0".chars().collect();
    let per = edits(6, la.len());
    let nn = 3 * per * per * 3;
    run.family(
        "literals",
        "null, true, false and every one- and two-character edit of them, alone, in an array and as a member",
        if th { nn } else { 3 * per * per },
        |i, o| {
            let per2 = per * per;
            let c = (i / (3 * per2)) as usize;
            let k = (i / per2 % 3) as usize;
            let (e1, e2) = (i % per2 / per, i % per);
            let t = &lits[k];
            if e1 >= edits(t.len(), la.len()) {
                return false;
            }
            let t1 = edit(t, &la, e1);
            if e2 >= edits(t1.len(), la.len()) {
                return false;
            }
            let t2 = edit(&t1, &la, e2);
            let (p, s) = [("", ""), ("[", "]"), ("{\"k\":", "}")][c];
            o.extend_from_slice(p.as_bytes());
            for ch in t2 {
                chr(o, ch);
            }
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );

    // string bodies
    let a: &[&str] = &["a", "\"", "\\", "u", "0", "D", "8", "n", "/", "\u{e9}", "\n", "]", "}", ","];
    let w = upto(a.len() as u64, l(5, 6));
    let ctx: Vec<(&str, &str)> = CTX.iter().chain(KCTX).copied().collect();
    let cx = &ctx;
    run.family(
        "string-bodies",
        "quoted words over a \" \\ u 0 D 8 n / e-acute LF ] } , as value and as key in fifteen contexts",
        w * ctx.len() as u64,
        |i, o| {
            let (p, s) = cx[(i % cx.len() as u64) as usize];
            o.extend_from_slice(p.as_bytes());
            o.push(b'"');
            push_word(a, i / cx.len() as u64, o);
            o.push(b'"');
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );

    let a: &[&str] = &["\\u", "D83D", "d83d", "DE00", "dFfF", "DBFF", "dc00", "0041", "D7FF", "E000", "\\", "\"", "x", "12"];
    let w = upto(a.len() as u64, l(5, 6));
    run.family(
        "surrogate-sequences",
        "quoted sequences over \\u, surrogate and other hex groups, short groups, a backslash, a quote",
        w * 4,
        |i, o| {
            let (p, s) = [("", ""), ("[", "]"), ("{\"k\":", "}"), ("{", ":0}")][(i % 4) as usize];
            o.extend_from_slice(p.as_bytes());
            o.push(b'"');
            push_word(a, i / 4, o);
            o.push(b'"');
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );

    run.family(
        "u-escapes",
        "\\uXXXX for all 65536 code units, lower, upper and mixed case, as value, array element and key",
        65536 * 3 * 3,
        |i, o| {
            let u = i % 65536;
            let c = i / 65536 % 3;
            let (p, s) = [("\"", "\""), ("[\"x", "y\"]"), ("{\"", "\":1}")][(i / (65536 * 3)) as usize];
            let h = match c {
                0 => format!("{:04x}", u),
                1 => format!("{:04X}", u),
                _ => format!("{:02x}{:02X}", u >> 8, u & 255),
            };
            o.extend_from_slice(format!("{}\\u{}{}", p, h, s).as_bytes());
            true
        },
        show,
        case,
    );

    let hi: Vec<u32> = (0xD7FE..0xE002).collect();
    let lo: Vec<u32> = if th {
        (0xD7FE..0xE002).chain([0, 0x41, 0x7F, 0x80, 0xFFFF]).collect()
    } else {
        [0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDC01, 0xDD55, 0xDFFE, 0xDFFF, 0xE000, 0, 0x41, 0xFFFF].into_iter().chain((0xDC00..0xE000).step_by(37)).collect()
    };
    run.family(
        "surrogate-pairs",
        "\\uXXXX\\uYYYY for every XXXX in and around the surrogate range with all (thorough) or 40 (quick) YYYY, plus the transposed grid",
        (hi.len() * lo.len() * 2) as u64,
        |i, o| {
            let tr = i % 2 == 1;
            let i = (i / 2) as usize;
            let (a, b) = (hi[i % hi.len()], lo[i / hi.len()]);
            let (a, b) = if tr { (b, a) } else { (a, b) };
            o.extend_from_slice(format!("[\"\\u{:04x}\\u{:04X}\"]", a, b).as_bytes());
            true
        },
        show,
        case,
    );

    // every Unicode scalar value at every kind of place
    let places: &[(&str, &str)] = &[
        ("\"", "\""),
        ("\"a", "b\""),
        ("\"\\", "\""),
        ("\"\\u", "000\""),
        ("\"\\u000", "\""),
        ("", "1"),
        ("1", ""),
        ("[", "]"),
        ("[1", "]"),
        ("[1,", "2]"),
        ("{", "\"a\":1}"),
        ("{\"a\"", ":1}"),
        ("{\"a\":", "1}"),
        ("{\"a\":1", "}"),
        ("{\"", "\":1}"),
        ("1", "2"),
        ("\"\\ud83d", "\\ude00\""),
        ("[]", ""),
        ("nul", ""),
    ];
    let pc = places.len() as u64;
    let lim = SCALARS;
    run.family(
        "scalars",
        "every Unicode scalar value at nineteen kinds of places: in strings, after a backslash, as a hex digit, around and inside tokens",
        lim * pc,
        |i, o| {
            let (p, s) = places[(i % pc) as usize];
            o.extend_from_slice(p.as_bytes());
            chr(o, scalar(i / pc));
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );
    // whitespace in every gap
    let gaps: Vec<(String, String)> = BASE
        .iter()
        .flat_map(|b| {
            let c: Vec<char> = b.chars().collect();
            (0..=c.len()).map(move |i| (c[..i].iter().collect::<String>(), c[i..].iter().collect::<String>())).collect::<Vec<_>>()
        })
        .collect();
    let ws: &[&str] = &[" ", "\t", "\n", "\r", "\x0b", "\x0c", "\u{a0}", "\u{feff}", "\u{85}", "\u{2003}", "\0", "\u{1680}", "\x08"];
    let w2 = upto(ws.len() as u64, 2);
    run.family(
        "whitespace",
        "one or two whitespace or whitespace-like characters at every position of 42 base documents",
        gaps.len() as u64 * w2,
        |i, o| {
            let (a, b) = &gaps[(i / w2) as usize];
            o.extend_from_slice(a.as_bytes());
            push_word(ws, i % w2, o);
            o.extend_from_slice(b.as_bytes());
            true
        },
        show,
        case,
    );

    // edits of base documents
    let base: Vec<Vec<char>> = BASE.iter().map(|x| x.chars().collect()).collect();
    let maxl = base.iter().map(|x| x.len()).max().unwrap();
    let per = edits(maxl, EDITS.len());
    run.family(
        "edits-1",
        "every one-character edit (38 characters: insert, replace; delete, double, swap) of 42 base documents",
        base.len() as u64 * per,
        |i, o| {
            let b = &base[(i / per) as usize];
            if i % per >= edits(b.len(), EDITS.len()) {
                return false;
            }
            for c in edit(b, EDITS, i % per) {
                chr(o, c);
            }
            true
        },
        show,
        case,
    );
    let lim = if th { 16 } else { 9 };
    let small: Vec<&Vec<char>> = base.iter().filter(|x| x.len() <= lim && x.len() >= 2).collect();
    let per = edits(lim + 1, EDITS2.len());
    run.family(
        "edits-2",
        "every pair of one-character edits (17 characters) of the base documents of at most 9 (thorough: 16) characters",
        small.len() as u64 * per * per,
        |i, o| {
            let b = small[(i / (per * per)) as usize];
            let (e1, e2) = (i / per % per, i % per);
            if e1 >= edits(b.len(), EDITS2.len()) {
                return false;
            }
            let b1 = edit(b, EDITS2, e1);
            if e2 >= edits(b1.len(), EDITS2.len()) {
                return false;
            }
            for c in edit(&b1, EDITS2, e2) {
                chr(o, c);
            }
            true
        },
        show,
        case,
    );

    // truncations: every prefix and suffix of longer texts
    let long: Vec<String> = vec![
        BASE.join(","),
        format!("[{}]", BASE.join(",")),
        format!("{{{}}}", BASE.iter().enumerate().map(|(i, b)| format!("\"k{}\":{}", i, b)).collect::<Vec<_>>().join(" , ")),
    ];
    let cuts: Vec<(usize, usize)> = long.iter().enumerate().flat_map(|(k, s)| (0..=s.chars().count()).map(move |i| (k, i))).collect();
    run.family(
        "truncations",
        "every prefix and every suffix of long documents made of all base documents",
        cuts.len() as u64 * 2,
        |i, o| {
            let (k, c) = cuts[(i / 2) as usize];
            let t: Vec<char> = long[k].chars().collect();
            let part = if i % 2 == 0 { &t[..c] } else { &t[c..] };
            for ch in part {
                chr(o, *ch);
            }
            true
        },
        show,
        case,
    );

    sizes(run, case);
    if deep >= 8 {
        duplicates(run, case);
    }
}

pub fn number_texts(th: bool) -> Vec<String> {
    let mut ip: Vec<String> = vec!["0", "1", "9", "10", "123", "00", "01", "9007199254740992", "9007199254740993", "9007199254740995", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "4294967296", "2147483648", "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368", "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858369"]
        .into_iter()
        .map(String::from)
        .collect();
    for l in [15, 16, 17, 18, 19, 20, 21, 25, 39, 40, 100, 128, 255, 256, 300, 308, 309, 310, 400] {
        for d in ["1", "9", "123456789"] {
            ip.push(d.repeat(l / d.len() + 1)[..l].to_string());
        }
        ip.push(format!("1{}", "0".repeat(l)));
        ip.push(format!("1{}1", "0".repeat(l)));
    }
    let mut fr: Vec<String> = vec!["", ".0", ".5", ".25", ".1", ".3333333333333333", ".99999999999999994", ".99999999999999995", ".000001", ".", ".0e"].into_iter().map(String::from).collect();
    for l in [17, 20, 60, 324, 400] {
        fr.push(format!(".{}1", "0".repeat(l)));
        fr.push(format!(".{}", "9".repeat(l)));
    }
    let mut ex: Vec<String> = vec!["".into()];
    let es: Vec<i32> = if th { (-400..=400).collect() } else { vec![-400, -345, -330, -325, -324, -323, -322, -310, -309, -308, -307, -306, -100, -23, -22, -16, -5, -1, 0, 1, 2, 5, 15, 16, 22, 23, 100, 290, 300, 306, 307, 308, 309, 310, 400] };
    for e in es {
        ex.push(format!("e{}", e));
        if e >= 0 {
            ex.push(format!("E+{}", e));
            ex.push(format!("e00{}", e));
        } else {
            ex.push(format!("E-0{}", -e));
        }
    }
    ex.extend(["e99999999999", "e-99999999999", "e18446744073709551616", "e-18446744073709551616", "e", "E+", "e-", "e1.0"].iter().map(|x| x.to_string()));
    let mut v = vec![];
    for sg in ["", "-"] {
        for i in &ip {
            for f in &fr {
                for e in &ex {
                    if i.len() > 30 && f.len() > 30 && !th {
                        continue;
                    }
                    v.push(format!("{}{}{}{}", sg, i, f, e));
                }
            }
        }
    }
    v
}

/// Parametric sizes: nesting, width, lengths, runs. Small sizes completely, larger ones in a ladder.
pub fn sizes(run: &mut Run, case: TextCase) {
    let th = run.thorough;
    let ladder: Vec<usize> = (0..=130).chain([150, 200, 254, 255, 256, 257, 258, 300, 400, 511, 512, 513, 700]).chain(if th { vec![1000, 1023, 1024, 1025] } else { vec![] }).collect();
    let wide: Vec<usize> = (0..=260).chain([300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 10001, 16384, 32767, 32768, 32769, 65535, 65536, 65537]).chain(if th { vec![16383, 16385, 40000, 50000, 99999, 100000, 100001, 131072, 131073] } else { vec![] }).collect();
    type G = fn(usize) -> String;
    let nest: &[(&str, G)] = &[
        ("[^n ]^n", |n| "[".repeat(n) + &"]".repeat(n)),
        ("[^n 1 ]^n", |n| "[".repeat(n) + "1" + &"]".repeat(n)),
        ("[^n ]^(n+1)", |n| "[".repeat(n) + "1" + &"]".repeat(n + 1)),
        ("[^(n+1) ]^n", |n| "[".repeat(n + 1) + "1" + &"]".repeat(n)),
        ("{\"a\":^n 1 }^n", |n| "{\"a\":".repeat(n) + "1" + &"}".repeat(n)),
        ("{\"a\":^n {} }^n", |n| "{\"a\":".repeat(n) + "{}" + &"}".repeat(n)),
        ("{\"a\":^n }^n", |n| "{\"a\":".repeat(n) + &"}".repeat(n)),
        ("[{\"a\":^n []", |n| "[{\"a\":".repeat(n / 2) + "[]" + &"}]".repeat(n / 2)),
        ("[ 0,^n", |n| "[0,".repeat(n) + "\"]\"" + &"]".repeat(n)),
        ("[^n ,0]", |n| "[".repeat(n) + "\"[\"" + &",0]".repeat(n)),
        ("mixed close", |n| "[".repeat(n) + "1" + &"]".repeat(n / 2) + "}" + &"]".repeat(n - n / 2)),
        ("spaced", |n| "[ ".repeat(n) + "1" + &" ]".repeat(n)),
        ("{\"a\":1,\"a\":^n", |n| "{\"a\":1,\"a\":".repeat(n) + "2" + &"}".repeat(n)),
    ];
    run.family(
        "nesting",
        "thirteen nesting shapes at every depth 0..130 and a ladder to 700 (thorough 1025)",
        (nest.len() * ladder.len()) as u64,
        |i, o| {
            let d = digits(i, &[nest.len(), ladder.len()]);
            o.extend_from_slice((nest[d[0]].1)(ladder[d[1]]).as_bytes());
            true
        },
        |p| shorten(&show(p)),
        case,
    );
    let width: &[(&str, G)] = &[
        ("array of n ones", |n| format!("[{}]", vec!["1"; n].join(","))),
        ("array of n strings", |n| format!("[{}]", vec!["\"],[\""; n].join(", "))),
        ("array of n arrays", |n| format!("[{}]", vec!["[1,2]"; n].join(","))),
        ("array of n objects", |n| format!("[{}]", vec!["{\"a\":1}"; n].join(","))),
        ("n distinct members", |n| format!("{{{}}}", (0..n).map(|i| format!("\"k{}\":{}", i, i)).collect::<Vec<_>>().join(","))),
        ("n values of one key", |n| format!("{{{}}}", (0..n).map(|i| format!("\"k\":{}", i)).collect::<Vec<_>>().join(","))),
        ("two keys alternating", |n| format!("{{{}}}", (0..n).map(|i| format!("\"{}\":{}", ["a", "b"][i % 2], i)).collect::<Vec<_>>().join(","))),
        ("trailing comma", |n| format!("[{}]", "1,".repeat(n))),
        ("string of n a", |n| format!("\"{}\"", "a".repeat(n))),
        ("string of n escapes", |n| format!("\"{}\"", "\\n".repeat(n))),
        ("string of n quotes", |n| format!("[\"{}\"]", "\\\"".repeat(n))),
        ("string of n backslashes", |n| format!("[\"{}\"]", "\\".repeat(n))),
        ("string of n u escapes", |n| format!("{{\"{}\":1}}", "\\u00e9".repeat(n))),
        ("string of n pairs", |n| format!("\"{}\"", "\\ud83d\\ude00".repeat(n))),
        ("string of n wide chars", |n| format!("[\"{}\"]", "\u{1f600}\u{e9}".repeat(n))),
        ("string of n brackets", |n| format!("[\"{}\"]", "[{".repeat(n))),
        ("n spaces around", |n| format!("{}1{}", " ".repeat(n), " \t".repeat(n))),
        ("n spaces inside", |n| format!("[{}1{},{}2{}]", " ".repeat(n), "\n".repeat(n), "\t".repeat(n), "\r".repeat(n))),
        ("n spaces in object", |n| format!("{{{0}\"a\"{0}:{0}1{0},{0}\"b\"{0}:{0}2{0}}}", " \n".repeat(n))),
        ("n digits", |n| "1".repeat(n)),
        ("n digit fraction", |n| format!("0.{}", "3".repeat(n))),
        ("n zeros", |n| "0".repeat(n)),
        ("n minus", |n| format!("{}1", "-".repeat(n))),
        ("n digit exponent", |n| format!("1e{}1", "0".repeat(n))),
        ("n quotes", |n| "\"".repeat(n)),
        ("n commas", |n| format!("[1{}2]", ",".repeat(n))),
        ("n colons", |n| format!("{{\"a\"{}1}}", ":".repeat(n))),
        ("n nulls", |n| "null".repeat(n)),
        ("n empty arrays", |n| "[]".repeat(n)),
        ("n closers", |n| format!("[1{}", "]".repeat(n))),
        ("key of n a", |n| format!("{{\"{}\":1}}", "a".repeat(n))),
        ("n unclosed", |n| format!("[\"{}", "a".repeat(n))),
    ];
    run.family(
        "widths",
        "32 parametric shapes (elements, members, repeated keys, string lengths, whitespace runs, digit runs) at every size 0..260 and a ladder to 65537 (thorough 131073)",
        (width.len() * wide.len()) as u64,
        |i, o| {
            let d = digits(i, &[width.len(), wide.len()]);
            let n = wide[d[1]];
            o.extend_from_slice((width[d[0]].1)(n).as_bytes());
            true
        },
        |p| shorten(&show(p)),
        case,
    );
}

/// Objects with repeated keys: every sequence of members over three keys (one written in two ways).
pub fn duplicates(run: &mut Run, case: TextCase) {
    let keys = ["\"a\"", "\"b\"", "\"\\u0061\"", "\"\""];
    let max = if run.thorough { 9 } else { 7 };
    let n = upto(4, max);
    run.family(
        "repeated-keys",
        "every sequence of up to 7 (thorough 9) members over the keys a, b, a written as \\u0061, and the empty key, values numbered",
        n * 2,
        |i, o| {
            let mut w = vec![];
            word(4, i / 2, &mut w);
            let m: Vec<String> = w.iter().enumerate().map(|(k, x)| format!("{}:{}", keys[*x], k)).collect();
            let s = if i % 2 == 0 { format!("{{{}}}", m.join(",")) } else { format!("[0,{{\"x\":{{{}}},\"x\":1}}]", m.join(" , ")) };
            o.extend_from_slice(s.as_bytes());
            true
        },
        show,
        case,
    );
}

/// Valid documents over rich leaves, printed with four spacing styles.
pub fn valid_docs(run: &mut Run, case: TextCase) {
    let leaves: Vec<Rv> = ["null", "true", "-1.5e300", "\"a]\\\"\\u00e9\"", "\"\""].iter().map(|x| rv::parse(x).unwrap()).collect();
    let d1 = docs(&leaves, &["a", "b\"]"], 1, 2, 2, 3);
    let small: Vec<Rv> = d1.iter().filter(|d| d.size() <= 3).cloned().collect();
    let mut all = d1.clone();
    all.extend(arrays(&small, 2));
    all.extend(objects(&["k", "\u{1f600}"], &small, 2, 2));
    let texts: Vec<String> = all.iter().map(|d| d.text()).collect();
    let tx = &texts;
    run.family(
        "documents",
        "all documents of nesting 2 over five leaves, two keys, at most two values per key, in four layouts",
        texts.len() as u64 * 4,
        |i, o| {
            let s = &tx[(i / 4) as usize];
            match i % 4 {
                0 => o.extend_from_slice(s.as_bytes()),
                m => {
                    let mut in_str = false;
                    let mut esc = false;
                    for c in s.chars() {
                        let st = "[]{},:".contains(c) && !in_str;
                        if st && m & 1 == 1 {
                            o.extend_from_slice(b" \n");
                        }
                        chr(o, c);
                        if st && m & 2 == 2 {
                            o.extend_from_slice(b"\t\r ");
                        }
                        if in_str {
                            if esc {
                                esc = false
                            } else if c == '\\' {
                                esc = true
                            } else if c == '"' {
                                in_str = false
                            }
                        } else if c == '"' {
                            in_str = true
                        }
                    }
                }
            }
            true
        },
        show,
        case,
    );
}

/// How a character is written in a text: raw (with the escape it needs), short escape or \\u.
fn written(c: char, how: usize, o: &mut String) {
    let short = [('"', "\\\""), ('\\', "\\\\"), ('\u{8}', "\\b"), ('\u{c}', "\\f"), ('\n', "\\n"), ('\r', "\\r"), ('\t', "\\t")];
    let e = short.iter().find(|x| x.0 == c);
    match e {
        Some(e) if how == 0 => o.push_str(e.1),
        _ if how == 0 && (c as u32) >= 0x20 => o.push(c),
        _ => {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&if how == 1 { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
            }
        }
    }
}

/// Neighbouring characters, and neighbouring values with wrong separators.
pub fn neighbours(run: &mut Run, case: TextCase) {
    let cc = class_chars();
    run.family(
        "character-triples",
        "every string of up to three of 62 characters (all controls, specials, edges of every encoding length), written raw, in \\u escapes, and mixed, as a value or a key",
        upto(cc.len() as u64, 3) * 2,
        |i, o| {
            let mut w = vec![];
            word(cc.len() as u64, i / 2, &mut w);
            let mut s = String::new();
            for (n, x) in w.iter().enumerate() {
                written(cc[*x], if i % 2 == 0 { 0 } else { n % 2 }, &mut s);
            }
            o.extend_from_slice(if i / 2 % 2 == 0 { format!("[\"{}\"]", s) } else { format!("{{\"{}\":1}}", s) }.as_bytes());
            true
        },
        show,
        case,
    );
    let mx = mixed_chars();
    run.family(
        "character-pairs",
        "every ordered pair of about 570 characters that combine with, cancel or look like one another, written raw, in \\u escapes and mixed",
        product(&[mx.len(), mx.len(), 2]),
        |i, o| {
            let d = digits(i, &[mx.len(), mx.len(), 2]);
            let mut s = String::new();
            written(mx[d[0]], d[2], &mut s);
            written(mx[d[1]], if d[2] == 0 { 0 } else { 2 * (d[0] % 2) }, &mut s);
            o.extend_from_slice(format!("\"x{}y\"", s).as_bytes());
            true
        },
        show,
        case,
    );
    let ks: Vec<String> = crate::related::kinds().iter().map(|x| x.text()).collect();
    let n = ks.len();
    let forms: Vec<&str> = "A B|AB|A,B|A:B|[A B]|[AB]|[A,,B]|[A,B,]|[A,B, ]|[,A,B]|[ ,A]|[A:B]|[A;B]|[A,B|A,B]|[A,B}|[A,B]]|[[A,B]|{A:B}|{A,B}|{A B}|{\"k\" A}|{\"k\",A}|{\"k\"::A}|{\"k\":A:B}|{\"k\":A,B}|{\"k\":A B}|{\"k\":A \"j\":B}|{\"k\":A,,\"j\":B}|{\"k\":A,\"j\":B,}|{\"k\":A,\"j\":B, }|{,\"k\":A,\"j\":B}|{\"k\":A,\"j\":}|{\"k\":A,\"j\"}|{\"k\":A,:B}|{\"k\":A;\"j\":B}|{\"k\"=A}|{k:A,\"j\":B}|{'k':A}|{\"k\":A,\"j\":B|\"k\":A,\"j\":B}|{\"k\":A]|{\"k\":A}}|{\"k\":A,A:B}|{\"k\":A,\"j\":B}A|[A,B]B|[A]//|[A/**/,B]|{\"k\":A,{\"j\":B}}|[A,\"k\":B]|[\"k\":A,B]|A[]|A{}|[]A|{}A|[1,A,B ,]|[{},[],A B]|{\"k\":[A B],\"j\":1}|{\"k\":[A,B,]}|[{\"k\":A,}]|[{\"k\":A B}]|[A,B,A,B,]|{\"k\":A,\"k\":B,\"k\":A,}|{A:B,\"j\":B}|{\"k\":A,A:B,\"j\":B}|{\"k\":1,\"l\":2,A:B,\"j\":B}|{\"k\":A,\"k\":B,A:B,\"k\":1}|{\"k\":1,\"j\":A B,\"l\":1}|{\"k\":1,\"j\" A,\"l\":B}|{\"k\":1,\"j\":A:B,\"l\":1}|{\"k\":1,A,\"l\":B}|{\"k\":A,\"j\",\"l\":B}|{\"k\":A,\"j\":,\"l\":B}|{\"k\":A,:B,\"l\":1}|{\"k\":A,:,\"l\":B}|[1,A B,2]|[1,A:B,2]|[1,A,,B,2]|[1,A,B 2]|[1,A;B,2]|[1,{A:B},2]|[1,{\"a\":A,B},2]|{\"k\":[1,A B],\"l\":2}|{\"k\":[A,{\"a\" B}],\"l\":2}|{\"k\":{A:B},\"j\":1}|{\"k\":{\"a\":A,},\"j\":B}|{\"k\":{\"a\":A B},\"j\":1}".split('|').collect();
    run.family(
        "separators",
        "87 arrangements with wrong, missing or doubled separators, brackets and keys around every pair of 22 values of every kind",
        product(&[n, n, forms.len()]),
        |i, o| {
            let d = digits(i, &[n, n, forms.len()]);
            o.extend_from_slice(forms[d[2]].replace('B', "\u{1}").replace('A', &ks[d[0]]).replace('\u{1}', &ks[d[1]]).as_bytes());
            true
        },
        show,
        case,
    );
}

/// values apart, in an odd one out
fn odd_texts(run: &mut Run, case: TextCase) {
    crate::beside::odd_family(run, "written without spaces, and with spaces and line ends everywhere", |_, o, t| {
        let s = o.doc().text();
        case(s.as_bytes(), t)?;
        let mut w = String::new();
        let mut inside = false;
        let mut esc = false;
        for c in s.chars() {
            if !inside && ",:[]{}".contains(c) {
                w += " \n";
                w.push(c);
                w += "\t \r\n";
            } else {
                w.push(c);
            }
            if esc {
                esc = false;
            } else if inside && c == '\\' {
                esc = true;
            } else if c == '"' {
                inside = !inside;
            }
        }
        case(w.as_bytes(), t)
    });
}

pub fn c01(run: &mut Run) {
    families(run, accept, 9);
    neighbours(run, accept);
    odd_texts(run, accept);
    crate::related::key_texts(run, accept);
    valid_docs(run, accept);
}

pub fn c02(run: &mut Run) {
    duplicates(run, denote);
    crate::related::key_texts(run, denote);
    valid_docs(run, denote);
    families(run, denote, 6);
    neighbours(run, denote);
    odd_texts(run, denote);
}
