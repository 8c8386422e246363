//! Bounded exhaustive exploration: a check is a list of sections, a section is a finite indexed space of cases, and
//! every index is run against the real code. Cases are run on eight threads with a panic boundary; which case each
//! thread is running is kept in a shared mapping, so that the supervising process can name (and confirm in isolation)
//! a case that aborts, overflows the stack or never ends.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub const THREADS: usize = 8;
pub const HANG_SECS: u64 = 40;

#[repr(C)]
pub struct Slot {
    pub section: AtomicU64,
    pub index: AtomicU64,
    pub started_ms: AtomicU64,
    pub active: AtomicU64,
}

pub struct Fail {
    pub section: String,
    pub index: u64,
    pub key: String,
    pub msg: String,
}

pub struct SectionStats {
    pub name: String,
    pub cases: u64,
    pub distinct: u64,
    pub calls: u64,
    pub compared: u64,
    pub runs: u64,
    pub outcomes: u64,
    pub exhaustive: bool,
    pub bounds: String,
    pub secs: f64,
}

pub struct Ck {
    pub id: String,
    pub thorough: bool,
    pub start: Instant,
    pub only: Option<(String, u64)>,
    pub only_section: Option<String>,
    pub fails: Mutex<Vec<Fail>>,
    pub stats: Mutex<Vec<SectionStats>>,
    pub samples: Mutex<Vec<String>>,
    pub slots: *const Slot,
    pub stop: AtomicBool,
    pub nfails: AtomicU64,
    ///those among them which are not listed as known
    pub news: AtomicU64,
    pub known: BTreeMap<String, String>,
    pub section_names: Mutex<Vec<String>>,
}
unsafe impl Sync for Ck {}

///What one case can report.
pub struct L<'a> {
    pub ck: &'a Ck,
    section: &'a str,
    pub index: u64,
    pub calls: u64,
    pub compared: u64,
    pub nontrivial: bool,
    pub case_hash: u64,
    pub outcome: u64,
    ///executions that this case stands for
    pub runs: u64,
    ///there was more to explore
    pub cut: bool,
    states: Vec<u64>,
    slot: &'a Slot,
    fails: Vec<(String, String)>,
    pub want_sample: bool,
    pub sample: Option<String>,
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    #[derive(Default)]
    struct F(u64);
    impl Hasher for F {
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0.rotate_left(5) ^ u64::from(*x)).wrapping_mul(0x517c_c1b7_2722_0a95);
            }
        }
        fn finish(&self) -> u64 {
            let mut h = self.0;
            h ^= h >> 29;
            h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
            h ^ (h >> 32)
        }
    }
    let mut f = F::default();
    t.hash(&mut f);
    f.finish()
}

impl<'a> L<'a> {
    ///Counts calls into the code under test.
    #[inline]
    pub fn call(&mut self, n: u64) {
        self.calls += n;
    }
    ///The identity of this case, for counting distinct ones, and whether it exercises anything.
    #[inline]
    pub fn case<T: Hash + ?Sized>(&mut self, t: &T, nontrivial: bool) {
        self.case_hash = h64(t);
        self.nontrivial = nontrivial;
    }
    ///One execution of many, and what it came to.
    #[inline]
    pub fn run(&mut self, state: u64) {
        self.runs += 1;
        if self.states.len() < 200_000 {
            self.states.push(state);
        }
        self.slot.started_ms.store(now_ms(self.ck.start), Ordering::Relaxed);
    }
    ///Still at it.
    #[inline]
    pub fn alive(&self) {
        self.slot.started_ms.store(now_ms(self.ck.start), Ordering::Relaxed);
    }
    #[inline]
    pub fn saw(&mut self, what: u64) {
        self.outcome = what;
    }
    #[inline]
    pub fn check(&mut self, ok: bool, key: impl FnOnce() -> String, msg: impl FnOnce() -> String) -> bool {
        self.compared += 1;
        if !ok {
            let k = key();
            let m = msg();
            self.fails.push((k, m));
        }
        ok
    }
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        self.compared += 1;
        self.fails.push((key.into(), msg.into()));
    }
    #[inline]
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(Cell::get) {
            LAST_PANIC.with(|l| *l.borrow_mut() = i.to_string().replace('\n', " "));
        } else {
            old(i);
        }
    }));
}

///Runs something which may panic, giving back the panic's message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn now_ms(start: Instant) -> u64 {
    start.elapsed().as_millis() as u64 + 1
}

impl Ck {
    ///Whether there is a violation to report and enough time has gone into looking for more of them.
    pub fn told(&self) -> bool {
        self.news.load(Ordering::Relaxed) > 0 && self.start.elapsed().as_secs() > 60
    }
    pub fn section<F>(&self, name: &str, bounds: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut L) + Sync,
    {
        let sec_no = {
            let mut v = self.section_names.lock().unwrap();
            v.push(name.to_string());
            (v.len() - 1) as u64
        };
        if let Some((s, i)) = &self.only {
            if s == name {
                self.run_range(name, sec_no, &f, &AtomicU64::new(*i), *i + 1, bounds, 1);
            }
            return;
        }
        if let Some(s) = &self.only_section {
            if s != name {
                return;
            }
        }
        self.run_range(name, sec_no, &f, &AtomicU64::new(0), n, bounds, THREADS);
    }

    fn run_range<F>(&self, name: &str, sec_no: u64, f: &F, next: &AtomicU64, end: u64, bounds: &str, threads: usize)
    where
        F: Fn(u64, &mut L) + Sync,
    {
        let t0 = Instant::now();
        let total = end - next.load(Ordering::Relaxed);
        let chunk = (total / (threads as u64 * 64)).clamp(1, 4096);
        let agg = Mutex::new((0_u64, 0_u64, 0_u64, Vec::<u64>::new(), HashSet::<u64>::new(), 0_u64, 0_u64, false));
        std::thread::scope(|sc| {
            for t in 0..threads {
                let agg = &agg;
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = unsafe { &*self.slots.add(t) };
                        let mut calls = 0;
                        let mut compared = 0;
                        let mut cases = 0;
                        let mut runs = 0;
                        let mut cut = false;
                        let mut trivial = 0_u64;
                        let mut hashes = Vec::new();
                        let mut outcomes = HashSet::new();
                        'outer: loop {
                            let from = next.fetch_add(chunk, Ordering::Relaxed);
                            if from >= end {
                                break;
                            }
                            for i in from..(from + chunk).min(end) {
                                if self.told() {
                                    self.stop.store(true, Ordering::Relaxed);
                                }
                                if self.stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                slot.section.store(sec_no, Ordering::Relaxed);
                                slot.index.store(i, Ordering::Relaxed);
                                slot.started_ms.store(now_ms(self.start), Ordering::Relaxed);
                                slot.active.store(1, Ordering::Release);
                                let mut l = L {
                                    ck: self,
                                    section: name,
                                    index: i,
                                    calls: 0,
                                    compared: 0,
                                    nontrivial: true,
                                    case_hash: h64(&i),
                                    outcome: 0,
                                    runs: 0,
                                    cut: false,
                                    states: vec![],
                                    slot,
                                    fails: vec![],
                                    want_sample: i == from && (from / chunk) % 97 == 0,
                                    sample: None,
                                };
                                foldhash::control::set_seed(0);
                                crate::alloc::reset();
                                let r = guarded(|| f(i, &mut l));
                                slot.active.store(0, Ordering::Release);
                                if let Err(p) = r {
                                    l.fails.push((format!("panic@{}", panic_site(&p)), format!("panicked: {p}")));
                                }
                                calls += l.calls;
                                compared += l.compared;
                                cases += 1;
                                runs += l.runs.max(1);
                                cut |= l.cut;
                                if l.nontrivial {
                                    if l.states.is_empty() {
                                        hashes.push(l.case_hash);
                                    } else {
                                        l.states.sort_unstable();
                                        l.states.dedup();
                                        hashes.extend(l.states.drain(..).map(|s| h64(&(l.case_hash, s))));
                                    }
                                    if hashes.len() % (1 << 22) == 0 {
                                        hashes.sort_unstable();
                                        hashes.dedup();
                                    }
                                } else {
                                    trivial += 1;
                                }
                                if outcomes.len() < 100_000 {
                                    outcomes.insert(l.outcome);
                                }
                                if let Some(s) = l.sample.take() {
                                    let mut v = self.samples.lock().unwrap();
                                    if v.iter().filter(|x| x.starts_with(name)).count() < 3 {
                                        v.push(format!("{name}[{i}]: {}", trunc(&s, 300)));
                                    }
                                }
                                for (key, msg) in l.fails {
                                    if !self.known.contains_key(&format!("{name}:{key}")) {
                                        self.news.fetch_add(1, Ordering::Relaxed);
                                    }
                                    let n = self.nfails.fetch_add(1, Ordering::Relaxed);
                                    if n < 2000 {
                                        self.fails.lock().unwrap().push(Fail {
                                            section: l.section.to_string(),
                                            index: i,
                                            key: format!("{name}:{key}"),
                                            msg: trunc(&msg, 600),
                                        });
                                    } else {
                                        //enough to tell what is wrong
                                        self.stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        hashes.sort_unstable();
                        hashes.dedup();
                        let mut a = agg.lock().unwrap();
                        a.0 += calls;
                        a.1 += compared;
                        a.2 += cases;
                        a.3.extend(hashes);
                        a.4.extend(outcomes);
                        a.5 += trivial;
                        a.6 += runs;
                        a.7 |= cut;
                    })
                    .unwrap();
            }
        });
        let (calls, compared, cases, mut hashes, outcomes, _trivial, runs, cut) = agg.into_inner().unwrap();
        hashes.sort_unstable();
        hashes.dedup();
        self.stats.lock().unwrap().push(SectionStats {
            name: name.to_string(),
            cases,
            distinct: hashes.len() as u64,
            calls,
            compared,
            runs,
            outcomes: outcomes.len() as u64,
            exhaustive: cases == total && !cut,
            bounds: bounds.to_string(),
            secs: t0.elapsed().as_secs_f64(),
        });
        if std::env::var("VERIF_VERBOSE").is_ok() {
            let s = self.stats.lock().unwrap();
            let s = s.last().unwrap();
            eprintln!("  {:<28} cases {:>10} runs {:>10} distinct {:>10} calls {:>11} outcomes {:>6} {:.2}s", s.name, s.cases, s.runs, s.distinct, s.calls, s.outcomes, s.secs);
        }
    }
}

fn panic_site(p: &str) -> String {
    //"panicked at crates/x.rs:1:2: message": the file only, as lines move
    let s = p.strip_prefix("panicked at ").unwrap_or(p);
    let file = s.split(':').next().unwrap_or("?");
    file.rsplit('/').next().unwrap_or(file).to_string()
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{head}... ({} chars)", s.chars().count())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(200) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

///Entries of the known findings file for this property: the part of each key after `key=`.
pub fn known(id: &str, file: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for line in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let Some(rest) = line.strip_prefix("finding: property=") else { continue };
        let Some((p, rest)) = rest.split_once(' ') else { continue };
        if p != id {
            continue;
        }
        let Some(rest) = rest.strip_prefix("key=") else { continue };
        let (k, d) = rest.split_once(' ').unwrap_or((rest, ""));
        out.insert(k.to_string(), d.to_string());
    }
    out
}
