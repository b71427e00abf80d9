//! Runs sections of cases, catches panics, hangs and excess, counts what ran.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    /// description of the input, set by the case before it calls the code under test
    pub input: String,
    nontrivial: bool,
}
impl Case {
    pub fn input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub section: String,
    pub case: u64,
    pub input: String,
    pub what: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub trace: Option<String>,
    pub evals: u64,
    pub sections: BTreeMap<String, u64>,
    pub rules: Vec<String>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: Vec<(String, String)>,
    pub failure: Option<Failure>,
    pub scale: u64,
}

static CASE_STARTED: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<(String, u64, String)> = Mutex::new((String::new(), 0, String::new()));

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// A case that runs for this long is reported as not terminating.
const CASE_LIMIT_MS: u64 = 60_000;

pub fn watchdog(print: fn(&Failure)) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let st = CASE_STARTED.load(Ordering::SeqCst);
        if st != 0 && now_ms() > st + CASE_LIMIT_MS {
            let (section, case, input) = CURRENT.lock().map(|g| g.clone()).unwrap_or_default();
            print(&Failure { section, case, input, what: format!("no answer within {} s", CASE_LIMIT_MS / 1000) });
            std::process::exit(1);
        }
    });
}

pub fn set_current_input(s: &str) {
    if let Ok(mut g) = CURRENT.lock() {
        g.2 = s.to_string();
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    PANIC_MSG.with(|p| p.borrow().clone())
}

/// Run f; a panic becomes Err(message).
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", last_panic()))
}

impl Ctx {
    pub fn rule(&mut self, s: &str) {
        self.rules.push(s.to_string());
    }
    /// Run n cases of a section. The closure gets a case with its own generator.
    pub fn section(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Case) -> Result<(), String>) {
        if self.failure.is_some() {
            return;
        }
        let (lo, hi) = match &self.only {
            Some((s, _)) if s != name => return,
            Some((_, c)) => (*c, *c + 1),
            None => (0, n),
        };
        for idx in lo..hi {
            let mut case = Case { rng: Rng::new(self.seed, name, idx), idx, input: String::new(), nontrivial: true };
            if let Ok(mut g) = CURRENT.lock() {
                *g = (name.to_string(), idx, String::new());
            }
            if let Some(t) = &self.trace {
                let _ = std::fs::write(t, format!("{name}\n{idx}\n"));
            }
            CASE_STARTED.store(now_ms(), Ordering::SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
            CASE_STARTED.store(0, Ordering::SeqCst);
            let r = match r {
                Ok(r) => r,
                Err(_) => Err(format!("panicked: {}", last_panic())),
            };
            self.evals += 1;
            *self.sections.entry(name.to_string()).or_default() += 1;
            if !case.input.is_empty() && case.nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (name, &case.input).hash(&mut h);
                if self.distinct.insert(h.finish()) && self.samples.len() < 12 && idx % (n / 3 + 1) == 0 {
                    let mut s: String = case.input.chars().take(300).collect();
                    if s.len() < case.input.len() {
                        s.push('…');
                    }
                    self.samples.push(format!("{name}: {s}"));
                }
            }
            if let Err(what) = r {
                self.failure = Some(Failure { section: name.to_string(), case: idx, input: case.input.clone(), what });
                return;
            }
        }
    }
    /// quick/thorough case counts
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        (if self.thorough { thorough } else { quick }) * self.scale
    }
    /// A known finding: run f; if it fails with the recorded behaviour note it, and never fail the check.
    pub fn known(&mut self, id: &str, what: &str, f: impl FnOnce() -> bool) {
        if self.only.is_some() {
            return;
        }
        let broken = catch_unwind(AssertUnwindSafe(f)).unwrap_or(true);
        if broken {
            self.known.push((id.to_string(), what.to_string()));
        }
    }
}

pub fn check(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if cond { Ok(()) } else { Err(msg()) }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
