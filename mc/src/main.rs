use mc::engine::*;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

fn usage() -> ! {
    eprintln!("usage: mc check <ID> <root> | mc worker <ID> <root> <journal> | mc slot <ID> <family> <file> | mc replay <file> | mc list");
    exit(2)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false)
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for (id, _) in mc::checks() {
                println!("{}", id);
            }
        }
        Some("check") if a.len() == 4 => parent(&a[2], Path::new(&a[3])),
        Some("worker") if a.len() == 5 => worker(&a[2], Path::new(&a[3]), Path::new(&a[4])),
        Some("slot") if a.len() == 5 => {
            let p = std::fs::read(&a[4]).expect("payload");
            exit(replay(&a[2], &a[3], p))
        }
        Some("replay") if a.len() == 3 => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let v = mc::rv::parse(&t).expect("replay file is JSON");
            let f = |k: &str| match &v {
                mc::rv::Rv::Obj(m) => match m.get(k).and_then(|x| x.last()) {
                    Some(mc::rv::Rv::Str(s)) => s.clone(),
                    _ => panic!("no {}", k),
                },
                _ => panic!("bad file"),
            };
            let code = replay(&f("property"), &f("family"), unhex(&f("payload_hex")));
            if code == 1 {
                println!("VIOLATION property={} replay={}", f("property"), a[2]);
            }
            exit(code)
        }
        Some("probe") if a.len() == 4 => exit(mc::probe(&a[2], &a[3])),
        _ => usage(),
    }
}

fn find(id: &str) -> mc::Check {
    match mc::checks().into_iter().find(|x| x.0 == id) {
        Some(x) => x.1,
        None => {
            eprintln!("no check {}", id);
            exit(2)
        }
    }
}

/// Re-execute one case in this process: 1 if it fails, 0 if it passes, 2 if there is no such family.
fn replay(id: &str, family: &str, payload: Vec<u8>) -> i32 {
    limit_memory(12 << 30);
    let mut run = Run::new(id, thorough());
    run.mode = Mode::Replay;
    run.replay_family = family.into();
    run.replay_payload = payload;
    let f = find(id);
    // the same stack as an exploring thread has
    let run = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            f(&mut run);
            run
        })
        .unwrap()
        .join()
        .unwrap();
    if !run.replayed {
        eprintln!("no family {} in {}", family, id);
        return 2;
    }
    match run.violation {
        Some(v) => {
            println!("{}: {}\n  expected: {}\n  got:      {}", v.family, v.fail.what, shorten(&v.fail.expected), shorten(&v.fail.got));
            1
        }
        None => {
            println!("the case passes");
            0
        }
    }
}

fn report(root: &Path, id: &str, v: &Violation) {
    let p = write_replay(&root.join("replays"), id, v);
    println!("{}: {}", v.family, v.fail.what);
    println!("  expected: {}", shorten(&v.fail.expected));
    println!("  got:      {}", shorten(&v.fail.got));
    println!("VIOLATION property={} replay={}", id, p.display());
}

fn worker(id: &str, root: &Path, journal: &Path) -> ! {
    limit_memory(20 << 30);
    let t0 = Instant::now();
    let mut run = Run::new(id, thorough());
    run.journal(journal);
    run.fam_file = Some(journal.with_extension("families"));
    find(id)(&mut run);
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let ev = evidence(&run, seed, t0.elapsed().as_secs_f64(), "");
    let dir = root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), ev).expect("evidence");
    for f in &run.stats {
        println!(
            "  {:<28} states={:<10} transitions={:<11} validated={:<10} {:>6.2}s {}",
            f.name, f.states, f.transitions, f.tally.validated, f.secs, f.note
        );
    }
    for k in &run.known {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    let code = match &run.violation {
        Some(v) => {
            report(root, id, v);
            1
        }
        None => {
            println!("{}: held on everything explored ({:.1}s)", id, t0.elapsed().as_secs_f64());
            0
        }
    };
    // skip destructors of large structures
    use std::io::Write;
    let _ = std::io::stdout().flush();
    exit(code)
}

fn wait(mut c: std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => return Some(s),
            None if t0.elapsed() > Duration::from_secs(secs) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

fn parent(id: &str, root: &Path) -> ! {
    let _ = find(id);
    let work: PathBuf = root.join(".work").join(format!("{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let journal = work.join("journal");
    let exe = std::env::current_exe().expect("exe");
    let t0 = Instant::now();
    let c = Command::new(&exe).args(["worker", id]).arg(root).arg(&journal).spawn().expect("worker");
    let pid = c.id();
    let limit = if thorough() { 6 * 3600 } else { 800 };
    let st = wait(c, limit);
    let done = |code: i32| -> ! {
        // what an abnormally ended worker left
        for e in std::fs::read_dir(root.join(".work")).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("rc-{}-", pid)) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let _ = std::fs::remove_dir_all(&work);
        exit(code)
    };
    match st.and_then(|s| s.code()) {
        Some(0) => done(0),
        Some(1) => done(1),
        c => {
            // the worker died, hung or ran out of memory: some case in flight may be to blame
            println!("{}: worker ended abnormally ({:?}); re-executing the cases in flight one by one", id, c.map(|x| x.to_string()).unwrap_or_else(|| "signal or time limit".into()));
            let fams: Vec<String> = std::fs::read_to_string(journal.with_extension("families")).unwrap_or_default().lines().map(String::from).collect();
            let mut kids = vec![];
            for (k, (fam, payload)) in read_slots(&journal).into_iter().enumerate() {
                let name = match fams.get(fam as usize - 1) {
                    Some(n) => n.clone(),
                    None => continue,
                };
                let f = work.join(format!("slot{}", k));
                std::fs::write(&f, &payload).expect("slot");
                let c = Command::new(&exe).args(["slot", id, &name]).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("slot");
                kids.push((name, payload, c));
            }
            let mut found = None;
            for (name, payload, c) in kids {
                let st = wait(c, 3 * HANG_SECS);
                let got = match st.map(|s| s.code()) {
                    None => format!("no answer within {} s", 3 * HANG_SECS),
                    Some(None) => "the process was killed by a signal (abort, stack overflow or out of memory)".to_string(),
                    Some(Some(1)) => "the case fails when re-executed alone".to_string(),
                    Some(Some(101)) => "the process panicked".to_string(),
                    Some(Some(_)) => continue,
                };
                found = Some(Violation { family: name, payload, fail: Fail { what: "the call does not return normally".into(), expected: "a normal return".into(), got } });
            }
            match found {
                Some(v) => {
                    report(root, id, &v);
                    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
                    let mut run = Run::new(id, thorough());
                    run.violation = Some(v);
                    let _ = std::fs::create_dir_all(root.join("evidence"));
                    let _ = std::fs::write(root.join("evidence").join(format!("{}.json", id)), evidence(&run, seed, t0.elapsed().as_secs_f64(), ""));
                    done(1)
                }
                None => {
                    println!("{}: no single case reproduces it: an error of the check", id);
                    done(2)
                }
            }
        }
    }
}
