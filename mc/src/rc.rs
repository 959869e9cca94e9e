//! Generated programs: compiling them against /repo's crates and talking to them.
use crate::engine::{fail, Fail};
use crate::rv::{self, Rv};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Kit {
    pub dir: PathBuf,
    deps: PathBuf,
    arts: HashMap<String, PathBuf>,
}

static KITS: AtomicUsize = AtomicUsize::new(0);

impl Kit {
    pub fn new() -> Kit {
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let dir = root.join(".work").join(format!("rc-{}-{}", std::process::id(), KITS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&dir).expect("work dir");
        let mut arts = HashMap::new();
        let log = std::fs::read_to_string(root.join("target/dv.json")).expect("target/dv.json (run.sh build)");
        for l in log.lines() {
            let m = match rv::parse(l) {
                Some(Rv::Obj(m)) => m,
                _ => continue,
            };
            let get = |k: &str| m.get(k).and_then(|v| v.last());
            if get("reason") != Some(&Rv::s("compiler-artifact")) {
                continue;
            }
            let name = match get("target") {
                Some(Rv::Obj(t)) => match t.get("name").and_then(|v| v.last()) {
                    Some(Rv::Str(s)) => s.replace('-', "_"),
                    _ => continue,
                },
                _ => continue,
            };
            if let Some(Rv::Arr(fs)) = get("filenames") {
                for f in fs {
                    if let Rv::Str(f) = f {
                        if f.ends_with(".rlib") || f.ends_with(".so") {
                            arts.insert(name.clone(), PathBuf::from(f));
                        }
                    }
                }
            }
        }
        Kit { dir, deps: root.join("target/dv/debug/deps"), arts }
    }

    pub fn art(&self, name: &str) -> (String, PathBuf) {
        (name.to_string(), self.arts.get(name).unwrap_or_else(|| panic!("no artifact {}", name)).clone())
    }

    /// The command that compiles `name`; the output lands in dir.
    pub fn rustc(&self, name: &str, src: &str, kind: &str, externs: &[(String, PathBuf)]) -> Command {
        let f = self.dir.join(format!("{}.rs", name));
        std::fs::write(&f, src).expect("source");
        let mut c = Command::new("rustc");
        c.args(["--edition", "2021", "--crate-name", name, "--crate-type", kind, "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4", "-Awarnings", "--cap-lints=allow"]);
        c.arg("-L").arg(format!("dependency={}", self.deps.display()));
        c.arg("-L").arg(format!("dependency={}", self.dir.display()));
        for (n, p) in externs {
            c.arg("--extern").arg(format!("{}={}", n, p.display()));
        }
        c.arg("--out-dir").arg(&self.dir).arg(&f);
        c.env_remove("RUSTFLAGS").stdin(Stdio::null()).stdout(Stdio::null());
        c
    }
    pub fn output(&self, name: &str, kind: &str) -> PathBuf {
        self.dir.join(match kind {
            "bin" => name.to_string(),
            "proc-macro" => format!("lib{}.so", name),
            _ => format!("lib{}.rlib", name),
        })
    }
    pub fn compile(&self, name: &str, src: &str, kind: &str, externs: &[(String, PathBuf)]) -> Result<(String, PathBuf), String> {
        let err = self.dir.join(format!("{}.err", name));
        let mut c = self.rustc(name, src, kind, externs);
        c.stderr(std::fs::File::create(&err).expect("err file"));
        let st = wait(c.spawn().expect("rustc"), 400);
        let text = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
        match st {
            Some(s) if s.success() => Ok((name.to_string(), self.output(name, kind))),
            Some(_) => Err(text),
            None => Err("rustc did not finish within 400 s".into()),
        }
    }
    /// Compile many crates, at most eight at a time.
    pub fn compile_all(&self, jobs: &[(String, String)], kind: &str, externs: &[(String, PathBuf)]) -> Vec<Result<(String, PathBuf), String>> {
        let next = AtomicUsize::new(0);
        let out = Mutex::new(vec![None; jobs.len()]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = self.compile(&jobs[i].0, &jobs[i].1, kind, externs);
                    out.lock().unwrap()[i] = Some(r);
                });
            }
        });
        out.into_inner().unwrap().into_iter().map(|x| x.unwrap()).collect()
    }
}
/// A place for output nobody reads. Not `/dev/null`: rustc renames what it wrote over the path it
/// was given, and as root that puts a regular file where the device was.
pub fn scratch(kit: &Kit) -> PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    kit.dir.join(format!("out-{}.rmeta", N.fetch_add(1, Ordering::Relaxed)))
}

impl Drop for Kit {
    fn drop(&mut self) {
        if std::env::var("KEEP_WORK").is_err() {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

pub fn wait(mut c: Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) => return Some(s),
            None if t0.elapsed() > Duration::from_secs(secs) => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    }
}

/// Pieces of generated code, each of which must compile. `wrap` makes a crate of some of them.
/// Ok: the crates; Err: (piece, diagnostics) for a piece that does not compile.
pub fn compile_pieces(kit: &Kit, prefix: &str, pieces: &[String], chunk: usize, kind: &str, externs: &[(String, PathBuf)], wrap: &(dyn Fn(&[(usize, &String)]) -> String + Sync)) -> Result<Vec<(String, PathBuf)>, (usize, String)> {
    let all: Vec<(usize, &String)> = pieces.iter().enumerate().collect();
    let chunks: Vec<&[(usize, &String)]> = all.chunks(chunk.max(1)).collect();
    let jobs: Vec<(String, String)> = chunks.iter().enumerate().map(|(i, c)| (format!("{}{}", prefix, i), wrap(c))).collect();
    let res = kit.compile_all(&jobs, kind, externs);
    for (i, r) in res.iter().enumerate() {
        if let Err(e) = r {
            // the smallest prefix that does not compile ends in the culprit
            let c = chunks[i];
            let (mut lo, mut hi, mut msg) = (0, c.len(), e.clone());
            while hi - lo > 1 {
                // several cut points at a time
                let step = ((hi - lo) / 8).max(1);
                let cuts: Vec<usize> = (1..8).map(|k| lo + k * step).filter(|x| *x < hi).collect();
                let jobs: Vec<(String, String)> = cuts.iter().map(|n| (format!("{}{}_{}_{}_{}", prefix, i, n, lo, hi), wrap(&c[..*n]))).collect();
                for (n, r) in cuts.iter().zip(kit.compile_all(&jobs, kind, externs)) {
                    match r {
                        Ok(_) => lo = *n,
                        Err(m) => {
                            hi = *n;
                            msg = m;
                            break;
                        }
                    }
                }
            }
            // a piece that fails alone is the better witness
            let alone = kit.compile(&format!("{}_alone", prefix), &wrap(&c[hi - 1..hi]), kind, externs);
            return Err((c[hi - 1].0, alone.err().unwrap_or(msg)));
        }
    }
    Ok(res.into_iter().map(|x| x.unwrap()).collect())
}

/// A process that answers one line with one line.
pub struct Server {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Server {
    pub fn start(c: &mut Command) -> Result<Server, Fail> {
        let mut child = match c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => return fail("harness: server does not start", "", e.to_string()),
        };
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Ok(Server { child, to, from })
    }
    pub fn ask(&mut self, q: &str) -> Option<String> {
        if self.to.write_all(format!("{}\n", esc(q)).as_bytes()).is_err() || self.to.flush().is_err() {
            return None;
        }
        loop {
            let mut l = String::new();
            match self.from.read_line(&mut l) {
                Ok(n) if n > 0 && l.ends_with('\n') => {
                    if let Some(x) = l.strip_prefix('>') {
                        return Some(unesc(x.trim_end_matches('\n')));
                    }
                }
                _ => return None,
            }
        }
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// One server per exploring thread, started on first use.
pub struct Pool<F: Fn() -> Command + Sync> {
    id: usize,
    make: F,
}
thread_local! {
    static SERVERS: RefCell<HashMap<usize, Server>> = RefCell::new(HashMap::new());
}
impl<F: Fn() -> Command + Sync> Pool<F> {
    pub fn new(make: F) -> Self {
        Pool { id: KITS.fetch_add(1, Ordering::Relaxed), make }
    }
    /// The answer, or a failure if the process died over the question.
    pub fn ask(&self, q: &str) -> Result<String, Fail> {
        SERVERS.with(|m| {
            let mut m = m.borrow_mut();
            if !m.contains_key(&self.id) {
                m.insert(self.id, Server::start(&mut (self.make)())?);
            }
            match m.get_mut(&self.id).unwrap().ask(q) {
                Some(a) => Ok(a),
                None => {
                    m.remove(&self.id);
                    fail("the process running the code under test died", "an answer", "end of output")
                }
            }
        })
    }
}

pub fn exists(p: &Path) -> bool {
    p.exists()
}
