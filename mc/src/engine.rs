//! The explorer: exhaustive enumeration of case families on the real code, in
//! parallel, with every case journalled so that a crash or a hang of the code under
//! test becomes a replayable case instead of an error of the check.
use std::cell::Cell;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn _exit(c: i32) -> !;
}

pub const SLOT: usize = 1 << 20;
const HDR: usize = 32;
pub const HANG_SECS: u64 = 25;

/// What a failing case looks like.
#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    pub expected: String,
    pub got: String,
}

pub fn fail<T>(what: impl Into<String>, expected: impl Into<String>, got: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { what: what.into(), expected: expected.into(), got: got.into() })
}

/// Per-thread counters.
#[derive(Default, Clone)]
pub struct Tally {
    /// calls into the implementation
    pub calls: u64,
    /// cases in which the implementation produced a result that was compared in full with the model
    pub validated: u64,
    /// outcome classes seen (small table)
    pub outcomes: std::collections::BTreeMap<&'static str, u64>,
}
impl Tally {
    pub fn out(&mut self, k: &'static str) {
        *self.outcomes.entry(k).or_insert(0) += 1;
    }
    fn merge(&mut self, o: &Tally) {
        self.calls += o.calls;
        self.validated += o.validated;
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
    }
}

#[derive(Clone)]
pub struct Violation {
    pub family: String,
    pub payload: Vec<u8>,
    pub fail: Fail,
}

pub struct FamStat {
    pub name: String,
    pub desc: String,
    pub states: u64,
    pub transitions: u64,
    pub tally: Tally,
    pub samples: Vec<String>,
    pub secs: f64,
    pub note: String,
}

#[derive(PartialEq, Clone, Copy)]
pub enum Mode {
    Explore,
    Replay,
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub mode: Mode,
    pub replay_family: String,
    pub replay_payload: Vec<u8>,
    pub replayed: bool,
    pub stats: Vec<FamStat>,
    pub violation: Option<Violation>,
    pub threads: usize,
    pub known: Vec<String>,
    base: usize,
    fam_no: u32,
    pub fam_names: Vec<String>,
    pub assumptions: Vec<String>,
    pub fam_file: Option<PathBuf>,
}

thread_local! {
    static LAST_PANIC: Cell<Option<String>> = Cell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if QUIET.with(|q| q.get()) {
            LAST_PANIC.with(|p| p.set(Some(format!("panic at {}: {}", loc, msg))));
        } else {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
    }));
}

/// Run one piece of code, turning a panic into a message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.take()).unwrap_or_else(|| "panic".into()))
}

#[derive(Clone, Copy)]
pub struct Slot(*mut u8);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
impl Slot {
    #[inline]
    fn set(&self, fam: u32, p: &[u8]) {
        unsafe {
            let n = p.len().min(SLOT - HDR);
            std::ptr::write_volatile(self.0 as *mut u64, std::ptr::read_volatile(self.0 as *mut u64) + 1);
            std::ptr::write_volatile(self.0.add(8) as *mut u32, fam);
            std::ptr::write_volatile(self.0.add(12) as *mut u32, n as u32);
            std::ptr::copy_nonoverlapping(p.as_ptr(), self.0.add(HDR), n);
            std::ptr::write_volatile(self.0.add(16) as *mut u32, 1);
        }
    }
    #[inline]
    fn idle(&self) {
        unsafe { std::ptr::write_volatile(self.0.add(16) as *mut u32, 0) }
    }
    fn seq(&self) -> (u64, bool) {
        unsafe {
            (
                std::ptr::read_volatile(self.0 as *const u64),
                std::ptr::read_volatile(self.0.add(16) as *const u32) == 1,
            )
        }
    }
}

pub fn read_slots(f: &Path) -> Vec<(u32, Vec<u8>)> {
    let b = std::fs::read(f).unwrap_or_default();
    let mut v = Vec::new();
    for s in b.chunks(SLOT) {
        if s.len() < HDR {
            continue;
        }
        let busy = u32::from_le_bytes(s[16..20].try_into().unwrap()) == 1;
        if busy {
            let fam = u32::from_le_bytes(s[8..12].try_into().unwrap());
            let n = u32::from_le_bytes(s[12..16].try_into().unwrap()) as usize;
            if HDR + n <= s.len() {
                v.push((fam, s[HDR..HDR + n].to_vec()));
            }
        }
    }
    v
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
        setrlimit(4, &[0, 0]);
    }
}

impl Run {
    pub fn new(prop: &str, thorough: bool) -> Run {
        Run {
            prop: prop.into(),
            thorough,
            mode: Mode::Explore,
            replay_family: String::new(),
            replay_payload: vec![],
            replayed: false,
            stats: vec![],
            violation: None,
            threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16),
            known: vec![],
            base: 0,
            fam_no: 0,
            fam_names: vec![],
            assumptions: vec![],
            fam_file: None,
        }
    }

    /// Journal + watchdog (worker processes only).
    pub fn journal(&mut self, file: &Path) {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(file).expect("journal");
        f.set_len((SLOT * self.threads) as u64).expect("journal size");
        let p = unsafe { mmap(std::ptr::null_mut(), SLOT * self.threads, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        self.base = p as usize;
        let base = self.base;
        let n = self.threads;
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                for (i, l) in last.iter_mut().enumerate() {
                    let (s, busy) = Slot((base + i * SLOT) as *mut u8).seq();
                    if s != l.0 || !busy {
                        *l = (s, Instant::now());
                    } else if l.1.elapsed().as_secs() >= HANG_SECS {
                        unsafe { _exit(77) }
                    }
                }
            }
        });
    }

    pub fn slot(&self, i: usize) -> Option<Slot> {
        if self.base == 0 {
            None
        } else {
            Some(Slot((self.base + i * SLOT) as *mut u8))
        }
    }

    fn begin(&mut self, name: &str) -> u32 {
        self.fam_no += 1;
        assert!(!self.fam_names.iter().any(|x| x == name), "family name used twice: {}", name);
        self.fam_names.push(name.to_string());
        if let Some(f) = &self.fam_file {
            let _ = std::fs::write(f, self.fam_names.join("\n"));
        }
        self.fam_no
    }

    fn one<F>(case: &F, p: &[u8], t: &mut Tally) -> Result<(), Fail>
    where
        F: Fn(&[u8], &mut Tally) -> Result<(), Fail>,
    {
        match guarded(|| case(p, t)) {
            Ok(r) => r,
            Err(m) => fail("the call panicked", "a normal return", m),
        }
    }

    /// Exhaustively run `case` on payloads gen(0..n). gen returns false for indices outside the family.
    pub fn family<G, F, D>(&mut self, name: &str, desc: &str, n: u64, gen: G, show: D, case: F)
    where
        G: Fn(u64, &mut Vec<u8>) -> bool + Sync,
        F: Fn(&[u8], &mut Tally) -> Result<(), Fail> + Sync,
        D: Fn(&[u8]) -> String,
    {
        let fam = self.begin(name);
        if self.mode == Mode::Replay {
            if self.replay_family == name {
                self.replayed = true;
                let mut t = Tally::default();
                println!("replaying {} case: {}", name, show(&self.replay_payload));
                if let Err(f) = Self::one(&case, &self.replay_payload.clone(), &mut t) {
                    self.violation = Some(Violation { family: name.into(), payload: self.replay_payload.clone(), fail: f });
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let best = Mutex::new(None::<(u64, Vec<u8>, Fail)>);
        let stop_at = AtomicU64::new(u64::MAX);
        let states = AtomicU64::new(0);
        let total = Mutex::new(Tally::default());
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 20000);
        let sample_idx: Vec<u64> = (0..4u64).map(|k| n / 5 * (k + 1)).collect();
        std::thread::scope(|s| {
            for ti in 0..self.threads {
                let slot = self.slot(ti);
                let (next, best, stop_at, states, total, gen, case) = (&next, &best, &stop_at, &states, &total, &gen, &case);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut buf = Vec::with_capacity(256);
                        let mut t = Tally::default();
                        let mut cnt = 0u64;
                        'o: loop {
                            let lo = next.fetch_add(chunk, Ordering::Relaxed);
                            if lo >= n {
                                break;
                            }
                            for i in lo..(lo + chunk).min(n) {
                                if i >= stop_at.load(Ordering::Relaxed) {
                                    break 'o;
                                }
                                buf.clear();
                                if !gen(i, &mut buf) {
                                    continue;
                                }
                                cnt += 1;
                                if let Some(sl) = slot {
                                    sl.set(fam, &buf);
                                }
                                let r = Self::one(case, &buf, &mut t);
                                if let Some(sl) = slot {
                                    sl.idle();
                                }
                                if let Err(f) = r {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |x| x.0 > i) {
                                        *b = Some((i, buf.clone(), f));
                                        stop_at.fetch_min(i, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        if let Some(sl) = slot {
                            sl.idle();
                        }
                        states.fetch_add(cnt, Ordering::Relaxed);
                        total.lock().unwrap().merge(&t);
                    })
                    .expect("spawn");
            }
        });
        let mut samples = vec![];
        if n > 0 {
            for i in sample_idx {
                let mut b = vec![];
                if i < n && gen(i, &mut b) {
                    let s = show(&b);
                    if !samples.contains(&s) {
                        samples.push(s);
                    }
                }
            }
        }
        let tally = total.into_inner().unwrap();
        self.stats.push(FamStat {
            name: name.into(),
            desc: desc.into(),
            states: states.into_inner(),
            transitions: tally.calls,
            tally,
            samples,
            secs: t0.elapsed().as_secs_f64(),
            note: String::new(),
        });
        if let Some((_, p, f)) = best.into_inner().unwrap() {
            self.violation = Some(Violation { family: name.into(), payload: p, fail: f });
        }
    }

    /// Explicit-state breadth-first search over the real implementation.
    ///
    /// A state is (real value, model); `step(state, op, tally)` applies operation number `op`
    /// to a copy, checks it against the model and returns the successor (None: op does not apply
    /// or leads outside the bound). States are identified by `key` (the canonical form of the model; the
    /// real value is checked structurally equal to the model after every step, and it has no
    /// state besides its structure, so states with equal keys have the same futures).
    #[allow(clippy::too_many_arguments)]
    pub fn bfs<S, I, K, F, N>(
        &mut self,
        name: &str,
        desc: &str,
        n_init: u8,
        init: I,
        n_ops: u16,
        op_name: N,
        key: K,
        max_depth: usize,
        max_states: usize,
        step: F,
    ) where
        S: Send + Sync + Clone,
        I: Fn(u8) -> S + Sync,
        K: Fn(&S) -> u128 + Sync,
        N: Fn(u16) -> String + Sync,
        F: Fn(&S, u16, &mut Tally) -> Result<Option<S>, Fail> + Sync,
    {
        let fam = self.begin(name);
        let show = |p: &[u8]| {
            let mut o = format!("init#{}", p[0]);
            for c in p[1..].chunks(2) {
                let _ = write!(o, " ; {}", op_name(u16::from_le_bytes([c[0], c[1]])));
            }
            o
        };
        if self.mode == Mode::Replay {
            if self.replay_family == name {
                self.replayed = true;
                let p = self.replay_payload.clone();
                println!("replaying history: {}", show(&p));
                let mut t = Tally::default();
                let mut s = init(p[0]);
                for c in p[1..].chunks(2) {
                    let op = u16::from_le_bytes([c[0], c[1]]);
                    let r = match guarded(|| step(&s, op, &mut t)) {
                        Ok(r) => r,
                        Err(m) => fail("the call panicked", "a normal return", m),
                    };
                    match r {
                        Ok(Some(n)) => s = n,
                        Ok(None) => {}
                        Err(f) => {
                            self.violation = Some(Violation { family: name.into(), payload: p.clone(), fail: f });
                            return;
                        }
                    }
                }
            }
            return;
        }
        if self.violation.is_some() {
            return;
        }
        let t0 = Instant::now();
        const SH: usize = 64;
        let seen: Vec<Mutex<HashSet<u128>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
        let mut frontier: Vec<(Vec<u8>, S)> = vec![];
        for i in 0..n_init {
            let s = init(i);
            let k = key(&s);
            if seen[(k as usize) % SH].lock().unwrap().insert(k) {
                frontier.push((vec![i], s));
            }
        }
        let mut total = Tally::default();
        let mut states = frontier.len();
        let mut transitions = 0u64;
        let mut depth_done = 0;
        let mut levels = vec![frontier.len()];
        let mut capped = false;
        let mut last: Vec<u8> = vec![0];
        let mut viol: Option<(Vec<u8>, Fail)> = None;
        for depth in 1..=max_depth {
            if frontier.is_empty() {
                break;
            }
            let grow = depth < max_depth;
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let out = Mutex::new((Vec::<(Vec<u8>, S)>::new(), Tally::default(), 0u64, 0usize, None::<(Vec<u8>, Fail)>));
            let fr = &frontier;
            std::thread::scope(|sc| {
                for ti in 0..self.threads {
                    let slot = self.slot(ti);
                    let (next, stop, out, seen, step, key) = (&next, &stop, &out, &seen, &step, &key);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut t = Tally::default();
                            let mut loc = vec![];
                            let mut tr = 0u64;
                            let mut fresh = 0usize;
                            let mut bad: Option<(Vec<u8>, Fail)> = None;
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                                if i >= fr.len() {
                                    break;
                                }
                                let (h, s) = &fr[i];
                                let mut hist = h.clone();
                                let hl = hist.len();
                                for op in 0..n_ops {
                                    hist.truncate(hl);
                                    hist.extend_from_slice(&op.to_le_bytes());
                                    if let Some(sl) = slot {
                                        sl.set(fam, &hist);
                                    }
                                    let r = match guarded(|| step(s, op, &mut t)) {
                                        Ok(r) => r,
                                        Err(m) => fail("the call panicked", "a normal return", m),
                                    };
                                    match r {
                                        Ok(None) => {}
                                        Ok(Some(n)) => {
                                            tr += 1;
                                            let k = key(&n);
                                            if seen[(k as usize) % SH].lock().unwrap().insert(k) {
                                                fresh += 1;
                                                if grow {
                                                    loc.push((hist.clone(), n));
                                                }
                                            }
                                        }
                                        Err(f) => {
                                            if bad.as_ref().map_or(true, |b| b.0 > hist) {
                                                bad = Some((hist.clone(), f));
                                            }
                                            stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                    }
                                }
                            }
                            if let Some(sl) = slot {
                                sl.idle();
                            }
                            let mut o = out.lock().unwrap();
                            o.0.append(&mut loc);
                            o.1.merge(&t);
                            o.2 += tr;
                            o.3 += fresh;
                            if let Some(b) = bad {
                                if o.4.as_ref().map_or(true, |x| x.0 > b.0) {
                                    o.4 = Some(b);
                                }
                            }
                        })
                        .expect("spawn");
                }
            });
            let (nf, t, tr, fresh, bad) = out.into_inner().unwrap();
            total.merge(&t);
            transitions += tr;
            states += fresh;
            levels.push(fresh);
            if let Some(b) = bad {
                viol = Some(b);
                break;
            }
            depth_done = depth;
            if let Some(x) = nf.last() {
                last = x.0.clone();
            }
            frontier = nf;
            if states > max_states {
                capped = depth < max_depth;
                break;
            }
        }
        let samples = vec![show(&last)];
        self.stats.push(FamStat {
            name: name.into(),
            desc: desc.into(),
            states: states as u64,
            transitions,
            tally: total,
            samples,
            secs: t0.elapsed().as_secs_f64(),
            note: format!(
                "breadth-first to depth {} completely{}; new states per level {:?}",
                depth_done,
                if capped { " (state cap reached: deeper levels not explored)" } else { "" },
                levels
            ),
        });
        if let Some((p, f)) = viol {
            self.violation = Some(Violation { family: name.into(), payload: p, fail: f });
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn shorten(s: &str) -> String {
    if s.chars().count() > 400 {
        let h: String = s.chars().take(200).collect();
        let t: String = s.chars().rev().take(100).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{} …({} chars)… {}", h, s.chars().count(), t)
    } else {
        s.to_string()
    }
}

/// 128-bit FNV-like hash for state identity.
pub fn h128(s: &[u8]) -> u128 {
    let mut a: u128 = 0x6c62272e07bb014262b821756295c58d;
    for b in s {
        a ^= *b as u128;
        a = a.wrapping_mul(0x0000000001000000000000000000013B);
    }
    a ^ (a >> 61)
}

pub fn evidence(run: &Run, seed: i64, wall: f64, extra: &str) -> String {
    let mut o = String::new();
    let st: u64 = run.stats.iter().map(|x| x.states).sum();
    let tr: u64 = run.stats.iter().map(|x| x.transitions).sum();
    let va: u64 = run.stats.iter().map(|x| x.tally.validated).sum();
    let _ = write!(
        o,
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":true,",
        js(&run.prop),
        if run.thorough { "thorough" } else { "quick" },
        seed,
        st,
        tr,
        va
    );
    o.push_str("\"counting\":\"states: distinct cases (inputs, documents, histories or programs) enumerated; transitions: calls into (or operation steps of) the real implementation; traces_validated_against_impl: cases whose result was compared in full with the reference model\",");
    o.push_str("\"samples\":[");
    let mut first = true;
    for f in &run.stats {
        for s in f.samples.iter().take(3) {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&js(&format!("{}: {}", f.name, shorten(s))));
        }
    }
    o.push_str("],\"families\":[");
    for (i, f) in run.stats.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let outs: Vec<String> = f.tally.outcomes.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let _ = write!(
            o,
            "{{\"name\":{},\"what\":{},\"states\":{},\"transitions\":{},\"validated\":{},\"outcomes\":{{{}}},\"note\":{},\"secs\":{:.2}}}",
            js(&f.name),
            js(&f.desc),
            f.states,
            f.transitions,
            f.tally.validated,
            outs.join(","),
            js(&f.note),
            f.secs
        );
    }
    let _ = write!(o, "]{}}},", extra);
    let a: Vec<String> = run.assumptions.iter().map(|x| js(x)).collect();
    let _ = write!(
        o,
        "\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        a.join(","),
        wall,
        if run.violation.is_some() { 1 } else { 0 }
    );
    o
}

pub fn write_replay(dir: &Path, prop: &str, v: &Violation) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let id = h128(&[v.family.as_bytes(), &v.payload].concat()) as u64;
    let p = dir.join(format!("{}-{:016x}.json", prop, id));
    let text = format!(
        "{{\n \"property\": {},\n \"family\": {},\n \"payload_hex\": \"{}\",\n \"payload_text\": {},\n \"what\": {},\n \"expected\": {},\n \"got\": {},\n \"replay\": \"bash /verif/run.sh replay <this file>\"\n}}\n",
        js(prop),
        js(&v.family),
        hex(&v.payload),
        js(&shorten(&String::from_utf8_lossy(&v.payload))),
        js(&shorten(&v.fail.what)),
        js(&shorten(&v.fail.expected)),
        js(&shorten(&v.fail.got))
    );
    let _ = std::fs::write(&p, text);
    p
}
