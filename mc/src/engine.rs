//! Exhaustive exploration engine.
//!
//! A check is a list of `Family`s.  Every family is a finite, indexable space
//! of cases (documents, operation histories, configurations, ...), and a run
//! visits *every* index of every family: there is no sampling anywhere.
//! Each case is executed on the real implementation; the check's closure
//! compares what it observes against the property's oracle.

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Hash64 = u64;

pub fn fnv(bytes: &[u8]) -> Hash64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// Per-thread context handed to every case.
#[derive(Default)]
pub struct Cx {
    /// Distinct abstract (model / observed) states.
    pub states: HashSet<Hash64>,
    /// Distinct non-trivial outcomes.
    pub nontrivial: HashSet<Hash64>,
    /// Steps taken by the reference model or the enumeration (see each check).
    pub transitions: u64,
    /// Complete executions of the implementation compared with the oracle.
    pub runs: u64,
    /// Free counters shown in the evidence.
    pub counters: std::collections::BTreeMap<&'static str, u64>,
    /// Keys for checks which need maximums.
    pub maxima: std::collections::BTreeMap<&'static str, u64>,
}

impl Cx {
    pub fn state(&mut self, s: &str) {
        self.states.insert(fnv(s.as_bytes()));
    }
    pub fn nontrivial(&mut self, s: &str) {
        self.nontrivial.insert(fnv(s.as_bytes()));
    }
    pub fn bump(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    fn merge(&mut self, o: Cx) {
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
        self.transitions += o.transitions;
        self.runs += o.runs;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
    }
}

pub type RunFn = Box<dyn Fn(u64, &mut Cx) -> Result<(), String> + Sync + Send>;
pub type ShowFn = Box<dyn Fn(u64) -> String + Sync + Send>;

pub struct Family {
    pub name: String,
    pub len: u64,
    pub bound: String,
    pub run: RunFn,
    pub show: ShowFn,
}

/// All words over `alphabet` of length 0..=max_len, indexable.
#[derive(Clone)]
pub struct Words {
    pub alphabet: Vec<String>,
    pub max_len: usize,
}

impl Words {
    pub fn new(alphabet: &[&str], max_len: usize) -> Self {
        Words { alphabet: alphabet.iter().map(|s| s.to_string()).collect(), max_len }
    }
    pub fn count(&self) -> u64 {
        let a = self.alphabet.len() as u64;
        let mut total = 0u64;
        let mut p = 1u64;
        for _ in 0..=self.max_len {
            total += p;
            p *= a;
        }
        total
    }
    /// Index -> symbol sequence (shortest words first).
    pub fn word(&self, mut i: u64) -> Vec<usize> {
        let a = self.alphabet.len() as u64;
        let mut len = 0usize;
        let mut p = 1u64;
        while i >= p {
            i -= p;
            p *= a;
            len += 1;
        }
        let mut out = vec![0usize; len];
        for k in (0..len).rev() {
            out[k] = (i % a) as usize;
            i /= a;
        }
        out
    }
    pub fn text(&self, w: &[usize]) -> String {
        let mut s = String::new();
        for &k in w {
            s.push_str(&self.alphabet[k]);
        }
        s
    }
    pub fn doc(&self, i: u64) -> String {
        self.text(&self.word(i))
    }
}

/// Family over documents `prefix + word + suffix`.
pub fn word_family<F>(name: &str, alphabet: &[&str], max_len: usize, prefix: &str, suffix: &str, f: F) -> Family
where
    F: Fn(&str, &[usize], &mut Cx) -> Result<(), String> + Sync + Send + 'static,
{
    let words = Words::new(alphabet, max_len);
    let (p, s) = (prefix.to_string(), suffix.to_string());
    let (w2, p2, s2) = (words.clone(), p.clone(), s.clone());
    Family {
        name: name.to_string(),
        len: words.count(),
        bound: format!("all words of length 0..={} over {} symbols {:?}{}", max_len, alphabet.len(), alphabet,
            if prefix.is_empty() && suffix.is_empty() { String::new() } else { format!(" inside {:?}..{:?}", prefix, suffix) }),
        run: Box::new(move |i, cx| {
            let w = words.word(i);
            let doc = format!("{}{}{}", p, words.text(&w), s);
            if !w.is_empty() {
                cx.transitions += 1;
            }
            f(&doc, &w, cx)
        }),
        show: Box::new(move |i| format!("{}{}{}", p2, w2.doc(i), s2)),
    }
}

/// Family over an explicit list of cases.
pub fn list_family<T, F>(name: &str, bound: &str, cases: Vec<T>, show: fn(&T) -> String, f: F) -> Family
where
    T: Sync + Send + 'static,
    F: Fn(&T, &mut Cx) -> Result<(), String> + Sync + Send + 'static,
{
    let cases = std::sync::Arc::new(cases);
    let c2 = cases.clone();
    Family {
        name: name.to_string(),
        len: cases.len() as u64,
        bound: bound.to_string(),
        run: Box::new(move |i, cx| {
            cx.transitions += 1;
            f(&cases[i as usize], cx)
        }),
        show: Box::new(move |i| show(&c2[i as usize])),
    }
}

/// Mixed-radix product of small dimensions.
pub fn product_family<F>(name: &str, bound: &str, dims: &[usize], show: ShowFnV, f: F) -> Family
where
    F: Fn(&[usize], &mut Cx) -> Result<(), String> + Sync + Send + 'static,
{
    let d = dims.to_vec();
    let d2 = d.clone();
    let len = d.iter().map(|&x| x as u64).product();
    Family {
        name: name.to_string(),
        len,
        bound: bound.to_string(),
        run: Box::new(move |i, cx| {
            cx.transitions += 1;
            f(&unmix(i, &d), cx)
        }),
        show: Box::new(move |i| show(&unmix(i, &d2))),
    }
}
pub type ShowFnV = Box<dyn Fn(&[usize]) -> String + Sync + Send>;

pub fn unmix(mut i: u64, dims: &[usize]) -> Vec<usize> {
    let mut out = vec![0; dims.len()];
    for k in (0..dims.len()).rev() {
        out[k] = (i % dims[k] as u64) as usize;
        i /= dims[k] as u64;
    }
    out
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub input: String,
    pub msg: String,
}

pub struct Report {
    pub cx: Cx,
    pub evaluated: u64,
    pub total: u64,
    pub per_family: Vec<(String, u64, String)>,
    pub violations: Vec<Violation>,
    pub samples: Vec<String>,
    pub truncated: bool,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run `f`, turning a panic of the code under test into a message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

/// Shared slots: which case each thread is working on (survives a crash).
pub struct Slots {
    ptr: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}
pub const SLOT_WORDS: usize = 4; // active, family, index, start-millis
pub const MAX_THREADS: usize = 64;

impl Slots {
    pub fn open(path: &str) -> Slots {
        use std::os::fd::AsRawFd;
        let bytes = SLOT_WORDS * MAX_THREADS * 8;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slot file");
        f.set_len(bytes as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), bytes, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED);
        Slots { ptr: ptr as *mut u64 }
    }
    fn at(&self, t: usize, k: usize) -> &AtomicU64 {
        unsafe { &*(self.ptr.add(t * SLOT_WORDS + k) as *const AtomicU64) }
    }
    pub fn set(&self, t: usize, family: usize, index: u64, now: u64) {
        self.at(t, 1).store(family as u64, Ordering::Relaxed);
        self.at(t, 2).store(index, Ordering::Relaxed);
        self.at(t, 3).store(now, Ordering::Relaxed);
        self.at(t, 0).store(1, Ordering::Release);
    }
    pub fn clear(&self, t: usize) {
        self.at(t, 0).store(0, Ordering::Release);
    }
    pub fn active(&self) -> Vec<(usize, u64, u64)> {
        (0..MAX_THREADS)
            .filter(|&t| self.at(t, 0).load(Ordering::Acquire) == 1)
            .map(|t| {
                (
                    self.at(t, 1).load(Ordering::Relaxed) as usize,
                    self.at(t, 2).load(Ordering::Relaxed),
                    self.at(t, 3).load(Ordering::Relaxed),
                )
            })
            .collect()
    }
}

pub const STACK: usize = 16 << 20;
const HANG_MS: u64 = 30_000;

/// Explore all families completely.
pub fn explore(families: &[Family], slots: Option<&Slots>, skip: &HashSet<(usize, u64)>, max_viol: usize) -> Report {
    let threads: usize = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let t0 = Instant::now();
    let mut acc = Cx::default();
    let mut violations: Vec<Violation> = Vec::new();
    let mut evaluated = 0u64;
    let mut per_family = Vec::new();
    let mut samples = Vec::new();
    let mut truncated = false;
    let done_all = AtomicBool::new(false);

    for (fi, fam) in families.iter().enumerate() {
        if truncated {
            break;
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let chunk = (fam.len / (threads as u64 * 64)).clamp(1, 4096);
        let viol = Mutex::new(Vec::<Violation>::new());
        let merged = Mutex::new((Cx::default(), 0u64));
        std::thread::scope(|s| {
            for t in 0..threads {
                let (next, stop, viol, merged, done_all) = (&next, &stop, &viol, &merged, &done_all);
                let _ = done_all;
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut cx = Cx::default();
                        let mut n = 0u64;
                        'outer: loop {
                            let start = next.fetch_add(chunk, Ordering::Relaxed);
                            if start >= fam.len {
                                break;
                            }
                            for i in start..(start + chunk).min(fam.len) {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                if !skip.is_empty() && skip.contains(&(fi, i)) {
                                    continue;
                                }
                                if let Some(sl) = slots {
                                    sl.set(t, fi, i, t0.elapsed().as_millis() as u64);
                                }
                                n += 1;
                                let r = match guard(|| (fam.run)(i, &mut cx)) {
                                    Ok(r) => r,
                                    Err(p) => Err(p),
                                };
                                if let Err(msg) = r {
                                    let mut v = viol.lock().unwrap();
                                    v.push(Violation { family: fam.name.clone(), index: i, input: (fam.show)(i), msg });
                                    if v.len() >= max_viol {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        if let Some(sl) = slots {
                            sl.clear(t);
                        }
                        let mut m = merged.lock().unwrap();
                        m.0.merge(cx);
                        m.1 += n;
                    })
                    .expect("spawn");
            }
            if let Some(sl) = slots {
                // Watchdog for hangs of the code under test.
                s.spawn(|| loop {
                    std::thread::sleep(Duration::from_millis(50));
                    let act = sl.active();
                    if act.is_empty() && next.load(Ordering::Relaxed) >= fam.len || stop.load(Ordering::Relaxed) && act.is_empty() {
                        break;
                    }
                    let now = t0.elapsed().as_millis() as u64;
                    for (f, i, st) in act {
                        if f == fi && now.saturating_sub(st) > HANG_MS {
                            println!("MC-HANG {f} {i}");
                            std::process::exit(86);
                        }
                    }
                });
            }
        });
        let (cx, n) = merged.into_inner().unwrap();
        if std::env::var_os("MC_TIMES").is_some() {
            eprintln!("{:8.1}s {n:9} {}", t0.elapsed().as_secs_f64(), fam.name);
        }
        acc.merge(cx);
        evaluated += n;
        per_family.push((fam.name.clone(), n, fam.bound.clone()));
        if fam.len > 0 {
            for k in [fam.len / 3, fam.len - 1] {
                if samples.len() < 16 {
                    let mut s = (fam.show)(k);
                    if s.len() > 300 {
                        let mut cut = 300;
                        while !s.is_char_boundary(cut) {
                            cut -= 1;
                        }
                        s.truncate(cut);
                        s.push('…');
                    }
                    samples.push(format!("{}: {:?}", fam.name, s));
                }
            }
        }
        let mut v = viol.into_inner().unwrap();
        v.sort_by_key(|v| v.index);
        violations.append(&mut v);
        if stop.load(Ordering::Relaxed) {
            truncated = true;
        }
    }
    done_all.store(true, Ordering::Relaxed);
    let total = families.iter().map(|f| f.len).sum();
    Report { cx: acc, evaluated, total, per_family, violations, samples, truncated }
}
