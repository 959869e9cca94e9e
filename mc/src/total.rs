//! C03: nothing crashes.
use crate::engine::*;
use crate::gen::*;
use crate::ops::{all_ops, apply_real, op_docs};
use crate::rv::{self};
use crate::{paths, texts};
use json::Json;
use std::collections::HashMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn c03(run: &mut Run) {
    texts::families(run, texts::total, if run.thorough { 9 } else { 5 });
    paths::families(run, paths::What::Total);
    let docs = op_docs(run.thorough);
    let tx: Vec<String> = docs.iter().map(|x| x.text()).collect();
    let ops = all_ops();
    run.family(
        "documents-x-operations",
        "every document of nesting 2 x about 2000 operations with arguments of every kind, positions up to usize::MAX and malformed paths; encoding and seven conversions afterwards",
        tx.len() as u64,
        |i, o| {
            o.extend_from_slice(tx[i as usize].as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| {
            let j = rv::parse(st(p)).unwrap().build();
            t.validated += 1;
            for op in &ops {
                let mut c = j.clone();
                t.calls += 2;
                if let Err(e) = apply_real(&mut c, op) {
                    t.out("error");
                    let _ = format!("{} {:?}", e, e);
                } else {
                    t.out("value");
                }
                let _ = c.to_string();
            }
            t.calls += 9;
            let _ = j.convert::<Json>().is_ok();
            let _ = j.convert::<u8>().is_ok();
            let _ = j.convert::<Vec<i128>>().is_ok();
            let _ = j.convert::<HashMap<u8, Option<f32>>>().is_ok();
            let _ = j.convert::<Vec<(char, Vec<bool>)>>().is_ok();
            let _ = j.convert::<Option<Vec<String>>>().is_ok();
            let _ = j._kind();
            let _ = format!("{:?}", j);
            Ok(())
        },
    );
    // numbers of any size at any type
    let nums = texts::number_texts(false);
    run.family(
        "numbers-x-types",
        "every long number text decoded at every number type (any value or an error, but no crash), NaN and infinities converted and encoded",
        nums.len() as u64,
        |i, o| {
            o.extend_from_slice(nums[i as usize].as_bytes());
            true
        },
        |p| shorten(st(p)),
        |p, t| {
            t.calls += 16;
            t.validated += 1;
            let s = st(p);
            macro_rules! n { ($($t:ty)*) => { $( let _ = json::decode::<$t>(s).map(|x| json::encode(&x)); )* } }
            n!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
            for f in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -f64::NAN] {
                let j = Json::Number(f);
                let _ = j.convert::<u8>();
                let _ = j.convert::<i128>();
                let _ = j.convert::<f32>();
                let _ = j.to_string();
            }
            Ok(())
        },
    );
    // deep documents, long paths: executions that can take the process down, one child process each
    let mut list: Vec<(String, usize)> = vec![];
    for (shape, _) in PROBES {
        for n in [100usize, 500, 1000, 1500, 2000] {
            list.push((shape.to_string(), n));
        }
        list.push((shape.to_string(), DEEP));
    }
    let known = known_findings();
    let exe = std::env::current_exe().expect("exe");
    let found = std::sync::Mutex::new(Vec::<(usize, String)>::new());
    run.family(
        "depth-probes",
        "nesting and path length: each shape at 100..2000 levels must work within an 8 MB stack; at 20 000 levels within 256 KB (that is, in a stack that does not grow with the input) a crash is the known finding if it is listed as such",
        list.len() as u64,
        |i, o| {
            o.extend_from_slice(format!("{}:{}", list[i as usize].0, list[i as usize].1).as_bytes());
            true
        },
        |p| st(p).to_string(),
        |p, t| {
            t.calls += 1;
            t.validated += 1;
            let (shape, n) = st(p).split_once(':').unwrap();
            let mut c = Command::new(&exe).args(["probe", shape, n]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| Fail { what: "harness: spawn".into(), expected: String::new(), got: e.to_string() })?;
            let t0 = Instant::now();
            let st_ = loop {
                match c.try_wait() {
                    Ok(Some(s)) => break Some(s),
                    Ok(None) if t0.elapsed() > Duration::from_secs(30) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break None;
                    }
                    Ok(None) => std::thread::sleep(Duration::from_millis(2)),
                    Err(_) => break None,
                }
            };
            let how = match st_.map(|s| s.code()) {
                Some(Some(0)) => {
                    t.out("returned");
                    return Ok(());
                }
                Some(Some(c)) => format!("the process ended with code {}", c),
                Some(None) => "the process was killed by a signal (stack overflow)".to_string(),
                None => "no answer within 30 s".to_string(),
            };
            let levels: usize = n.parse().unwrap();
            let id = format!("depth-{}", shape);
            if levels >= DEEP {
                if let Some(i) = known.iter().position(|k| k.0 == id) {
                    t.out("known finding");
                    found.lock().unwrap().push((i, how));
                    return Ok(());
                }
                if st_.is_none() {
                    // quadratic time at this size, not endless
                    t.out("slow");
                    return Ok(());
                }
            }
            fail(format!("{} at {} levels", shape, n), "a value or an error", how)
        },
    );
    let mut seen: Vec<usize> = found.into_inner().unwrap().into_iter().map(|x| x.0).collect();
    seen.sort();
    seen.dedup();
    for i in seen {
        run.known.push(format!("{}: {}", known[i].0, known[i].1));
    }
}

/// lines "KNOWN-FINDING: property=C03 <id> <what>" of the known-findings file
fn known_findings() -> Vec<(String, String)> {
    let p: PathBuf = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")).join("known-findings.txt");
    std::fs::read_to_string(p)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix("KNOWN-FINDING: property=C03 "))
        .filter_map(|l| l.split_once(' '))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

const DEEP: usize = 20_000;
type Probe = fn(usize);
pub const PROBES: &[(&str, Probe)] = &[
    ("parse-arrays", |n| {
        let _ = Json::parse(&format!("{}{}", "[".repeat(n), "]".repeat(n))).map(std::mem::forget);
    }),
    ("parse-objects", |n| {
        let _ = Json::parse(&format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n))).map(std::mem::forget);
    }),
    ("parse-unclosed-arrays", |n| {
        let _ = Json::parse(&"[".repeat(n)).map(std::mem::forget);
    }),
    ("parse-unclosed-objects", |n| {
        let _ = Json::parse(&"{\"a\":".repeat(n)).map(std::mem::forget);
    }),
    ("parse-closers", |n| {
        let _ = Json::parse(&"]".repeat(n)).map(std::mem::forget);
        let _ = Json::parse(&format!("[{}", "}".repeat(n))).map(std::mem::forget);
    }),
    ("encode", |n| {
        let j = nest(n);
        let s = j.to_string();
        assert!(s.len() > n);
        std::mem::forget(j);
    }),
    ("get-path", |n| {
        let j = nest(n);
        let p = vec!["a"; n].join(".");
        let _ = j.get(&p).is_ok();
        std::mem::forget(j);
    }),
    ("missing-path", |n| {
        let j = Json::Null;
        let p = vec!["a"; n].join(".");
        let _ = j.get(&p).is_ok();
        let _ = j.get(&vec!["#0"; n].join(".")).is_ok();
    }),
    ("set-path", |n| {
        let mut j = Json::Null;
        let p = vec!["a"; n].join(".");
        let _ = j.set(&p, 1).is_ok();
        std::mem::forget(j);
    }),
    ("del-path", |n| {
        let mut j = nest(n);
        let p = vec!["a"; n].join(".");
        let _ = j.del(&p).is_ok();
        std::mem::forget(j);
    }),
    ("dots", |n| {
        let _ = Json::Null.get(&".".repeat(n)).is_ok();
    }),
    ("escapes", |n| {
        let _ = Json::Null.get(&"\\.".repeat(n)).is_ok();
        let _ = Json::parse(&format!("\"{}\"", "\\\\".repeat(n))).is_ok();
        let _ = Json::parse(&format!("\"{}", "\\".repeat(n))).is_ok();
    }),
];

/// objects nested n deep, made without the code under test
fn nest(n: usize) -> Json {
    let mut j = Json::Number(1.0);
    for _ in 0..n {
        let mut h = HashMap::new();
        h.insert("a".to_string(), (j, std::collections::LinkedList::new()));
        j = Json::Object(h);
    }
    j
}

pub fn probe(shape: &str, n: &str) -> i32 {
    let n: usize = n.parse().unwrap_or(0);
    let f = match PROBES.iter().find(|x| x.0 == shape) {
        Some(f) => f.1,
        None => return 2,
    };
    // the usual main-thread stack; too little for 20 000 nested calls
    let kb = if n >= DEEP { 256 } else { 8192 };
    match std::thread::Builder::new().stack_size(kb << 10).spawn(move || f(n)).unwrap().join() {
        Ok(()) => 0,
        Err(_) => 101,
    }
}
