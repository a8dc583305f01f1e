//! Search / replay framework: every case is (tag, ints). Deterministic for a given seed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// inclusive range
    pub fn r(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[(self.next() % v.len() as u64) as usize]
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.next() % one_in == 0
    }
}

/// counting allocator: a runaway loop in the code under test ends the search with a report
pub struct Counting;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static OOM: AtomicBool = AtomicBool::new(false);
const LIMIT: usize = 3 << 30;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        if s > LIMIT && !OOM.swap(true, Ordering::Relaxed) {
            // let the watchdog report; it polls quickly
        }
        if s > LIMIT + (LIMIT >> 1) {
            // block this thread for ever: the watchdog ends the process
            loop {
                std::thread::sleep(Duration::from_millis(50));
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}

pub type Check = fn(&str, &[i64]) -> Result<(), String>;

pub struct Gen<'a> {
    pub rng: Rng,
    pub worker: usize,
    pub workers: usize,
    pub thorough: bool,
    scales: &'static [i64],
    counter: u64,
    sink: &'a mut dyn FnMut(&str, &[i64]) -> bool,
    pub stop: bool,
    deadline: Instant,
    pub n_exh: u64,
    pub n_rnd: u64,
}
impl<'a> Gen<'a> {
    /// a case of the exhaustive part: sharded over the workers
    pub fn ex(&mut self, tag: &str, v: &[i64]) {
        if self.stop {
            return;
        }
        self.counter += 1;
        if self.counter as usize % self.workers != self.worker {
            return;
        }
        self.n_exh += 1;
        if !(self.sink)(tag, v) {
            self.stop = true;
        }
    }
    /// a random case (each worker has its own stream)
    pub fn rnd(&mut self, tag: &str, v: &[i64]) {
        if self.stop {
            return;
        }
        self.n_rnd += 1;
        let k = if self.scales.is_empty() || self.n_rnd % 3 != 0 { 0 } else { *self.rng.pick(self.scales) };
        // double precision keeps the exact answers over a wider range
        let k = if k == 0 || tag.contains("32") || !self.rng.chance(2) { k } else { 4 * k };
        if !(if k == 0 { (self.sink)(tag, v) } else { (self.sink)(&format!("{}:{}", tag, k), v) }) {
            self.stop = true;
        }
        if self.n_rnd % 64 == 0 && Instant::now() > self.deadline {
            self.stop = true;
        }
    }
    pub fn scale(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        n / self.workers as u64 + 1
    }
}
pub type Generator = fn(&mut Gen);

pub struct Prop {
    pub id: &'static str,
    pub gen: Generator,
    pub check: Check,
    pub bound: &'static str,
    /// powers of two a third of the random cases are scaled by
    pub scales: &'static [i64],
}

pub fn guarded(check: Check, tag: &str, v: &[i64]) -> Result<(), String> {
    match std::panic::catch_unwind(|| check(crate::geo::scaled(tag), v)) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            Err(format!("the code under test panicked: {}", m))
        }
    }
}

pub fn case_str(tag: &str, v: &[i64]) -> String {
    let mut s = String::from(tag);
    for i in v {
        s.push(' ');
        s.push_str(&i.to_string());
    }
    s
}

pub struct Outcome {
    pub exh: u64,
    pub rnd: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
}

pub fn search(p: &Prop, seed: u64, thorough: bool, secs: u64, max_fail: usize, known: &[String]) -> Outcome {
    let workers = 8usize;
    let fails: Arc<Mutex<Vec<(String, String)>>> = Arc::new(Mutex::new(vec![]));
    let totals = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
    let seen: Arc<Mutex<std::collections::HashSet<u64>>> = Arc::new(Mutex::new(Default::default()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let current: Arc<Vec<Mutex<(Option<Instant>, String)>>> =
        Arc::new((0..workers).map(|_| Mutex::new((None, String::new()))).collect());
    let deadline = Instant::now() + Duration::from_secs(secs);
    std::panic::set_hook(Box::new(|_| {}));
    let done = Arc::new(AtomicBool::new(false));
    {
        // watchdog
        let current = current.clone();
        let done = done.clone();
        let id = p.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            if done.load(Ordering::Relaxed) {
                return;
            }
            let oom = OOM.load(Ordering::Relaxed);
            let mut worst: Option<(Duration, String)> = None;
            for m in current.iter() {
                if let Ok(g) = m.try_lock() {
                    if let Some(t) = g.0 {
                        let e = t.elapsed();
                        if worst.as_ref().map_or(true, |w| e > w.0) {
                            worst = Some((e, g.1.clone()));
                        }
                    }
                }
            }
            if let Some((e, c)) = worst {
                if e > Duration::from_secs(20) || (oom && e > Duration::from_millis(300)) {
                    println!("FAIL {} | {} | the call did not return within {:.1}s (does not terminate{})", id, c, e.as_secs_f64(), if oom {", memory exhausted"} else {""});
                    use std::io::Write;
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        });
    }
    let known: Arc<Vec<String>> = Arc::new(known.to_vec());
    let mut hs = vec![];
    for w in 0..workers {
        let (gen, check, scales) = (p.gen, p.check, p.scales);
        let fails = fails.clone();
        let totals = totals.clone();
        let current = current.clone();
        let known = known.clone();
        let (seen, samples) = (seen.clone(), samples.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut mine = std::collections::HashSet::<u64>::new();
                    let mut n = 0u64;
                    let mut sink = |tag: &str, v: &[i64]| -> bool {
                        n += 1;
                        if mine.len() < 1_000_000 && v.windows(2).any(|w| w[0] != w[1]) {
                            let mut h = 0xcbf29ce484222325u64;
                            for b in tag.bytes() {
                                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                            }
                            for i in v {
                                h = (h ^ *i as u64).wrapping_mul(0x100000001b3);
                                h ^= h >> 29;
                            }
                            let _ = mine.insert(h);
                        }
                        if w == 0 && n.is_power_of_two() && n.trailing_zeros() % 3 == 1 {
                            samples.lock().unwrap().push(case_str(tag, v));
                        }
                        {
                            let mut g = current[w].lock().unwrap();
                            g.0 = Some(Instant::now());
                            g.1 = case_str(tag, v);
                        }
                        let r = guarded(check, tag, v);
                        current[w].lock().unwrap().0 = None;
                        if let Err(e) = r {
                            let c = case_str(tag, v);
                            if known.iter().any(|k| *k == c) {
                                return true;
                            }
                            let mut f = fails.lock().unwrap();
                            f.push((c, e));
                            return f.len() < max_fail;
                        }
                        true
                    };
                    let mut g = Gen {
                        rng: Rng::new(seed.wrapping_mul(1000003).wrapping_add(w as u64)),
                        worker: w,
                        workers,
                        thorough,
                        scales,
                        counter: 0,
                        sink: &mut sink,
                        stop: false,
                        deadline,
                        n_exh: 0,
                        n_rnd: 0,
                    };
                    gen(&mut g);
                    let _ = totals.0.fetch_add(g.n_exh, Ordering::Relaxed);
                    let _ = totals.1.fetch_add(g.n_rnd, Ordering::Relaxed);
                    seen.lock().unwrap().extend(mine);
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    done.store(true, Ordering::Relaxed);
    let _ = std::panic::take_hook();
    let samples = std::mem::take(&mut *samples.lock().unwrap());
    let mut f = std::mem::take(&mut *fails.lock().unwrap());
    f.sort_by_key(|x| (x.0.len(), x.0.clone()));
    Outcome {
        exh: totals.0.load(Ordering::Relaxed),
        rnd: totals.1.load(Ordering::Relaxed),
        distinct: { let n = seen.lock().unwrap().len() as u64; n },
        samples,
        failures: f,
    }
}
