//! Run context: counts what was observed, keeps samples, records violations, writes evidence.
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value as Json};
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::atomic::{AtomicU64, Ordering},
    time::Instant,
};

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub rng: StdRng,
    pub root: PathBuf,
    pub assumptions: Vec<String>,
    evaluations: u64,
    events: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    required: Vec<(String, u64)>,
    samples: Vec<Json>,
    sampled_classes: HashSet<String>,
    violations: Vec<(String, Json)>,
    known_seen: BTreeMap<String, u64>,
    known: Vec<(String, String)>,
    pub extra: BTreeMap<String, Json>,
    pub exhaustive: Option<bool>,
    start: Instant,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload_str(info.payload());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into())
}

/// Run `f`, turning a panic into an `Err` that says where it happened.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let r = catch_unwind(AssertUnwindSafe(f));
    LAST_JUDGED.store(now_ms(), Ordering::Relaxed);
    r.map_err(|p| {
        LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .unwrap_or_else(|| format!("panicked: {}", payload_str(&*p)))
    })
}

pub fn hash_of(t: &impl Hash) -> u64 {
    // FNV-1a over the std hasher's input would need a custom Hasher; SipHash with fixed keys is stable.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(property: &str, thorough: bool, seed: u64, root: PathBuf) -> Self {
        let known = std::fs::read_to_string(root.join("KNOWN_FINDINGS"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // finding: property=C00 key=<exact key> <description>
                let l = l.strip_prefix("finding: property=")?;
                let (p, rest) = l.split_once(' ')?;
                if p != property {
                    return None;
                }
                let rest = rest.strip_prefix("key=")?;
                let (k, d) = rest.split_once(' ')?;
                Some((k.to_string(), d.to_string()))
            })
            .collect();
        Self {
            property: property.into(),
            thorough,
            seed,
            level: "exploration",
            rule: String::new(),
            rng: StdRng::seed_from_u64(seed ^ hash_of(&property)),
            root,
            assumptions: vec![],
            evaluations: 0,
            events: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            required: vec![],
            samples: vec![],
            sampled_classes: HashSet::new(),
            violations: vec![],
            known_seen: BTreeMap::new(),
            known,
            extra: BTreeMap::new(),
            exhaustive: None,
            start: Instant::now(),
        }
    }

    /// Number of iterations: `quick` in the quick tier, `thorough` in the thorough one.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn fork_rng(&mut self) -> StdRng {
        StdRng::seed_from_u64(self.rng.gen())
    }

    /// Count boundary events seen by the recording monitors.
    pub fn events(&mut self, n: usize) {
        self.events += n as u64;
    }

    /// The run is inconclusive unless at least `n` executions of this class were judged.
    pub fn require(&mut self, class: &str, n: u64) {
        self.required.push((class.into(), n));
    }

    /// Judge one execution. `key` identifies the case for the distinct count (None: trivial case).
    /// Returns true if it held.
    pub fn judge(
        &mut self,
        class: &str,
        key: Option<&str>,
        case: impl FnOnce() -> Json,
        verdict: Result<(), String>,
    ) -> bool {
        self.evaluations += 1;
        LAST_JUDGED.store(now_ms(), Ordering::Relaxed);
        *self.classes.entry(class.into()).or_default() += 1;
        if let Some(k) = key {
            self.distinct.insert(hash_of(&(class, k)));
        }
        match verdict {
            Ok(()) => {
                if self.samples.len() < 24 && self.sampled_classes.insert(class.into()) {
                    let c = case();
                    self.samples.push(json!({"class": class, "case": clip(&c)}));
                }
                true
            }
            Err(msg) => {
                let c = case();
                self.violate(class, msg, c);
                false
            }
        }
    }

    pub fn violate(&mut self, signature: &str, msg: String, case: Json) {
        if let Some((k, _)) = self.known.iter().find(|(k, _)| k == signature) {
            *self.known_seen.entry(k.clone()).or_default() += 1;
            return;
        }
        if self.violations.len() < 20 {
            self.violations.push((
                signature.into(),
                json!({
                    "property": self.property, "class": signature, "what": msg, "case": case,
                    "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                    "replay": format!("VERIF_SEED={} ./check.sh {} {}", self.seed, self.property,
                        if self.thorough {"thorough"} else {"quick"}),
                }),
            ));
        }
    }

    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Enough violations were collected, or the time is up; a workload may stop early.
    pub fn saturated(&self) -> bool {
        self.violations.len() >= 20 || self.time_is_up()
    }

    /// A machine this slow explores less, and says so in the evidence.
    fn time_is_up(&self) -> bool {
        now_ms() / 1000 > if self.thorough { 4000 } else { 420 }
    }

    pub fn finish(mut self) -> i32 {
        let mut missing = vec![];
        for (c, n) in &self.required {
            let got = self.classes.get(c).copied().unwrap_or(0);
            if got < *n {
                missing.push(format!("{c}: {got} < {n}"));
            }
        }
        let early = self.time_is_up();
        if early {
            self.extra.insert("stopped_early".into(), json!(missing));
        }
        let mut coverage = json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule,
            "samples": self.samples,
            "boundary_events_observed": self.events,
            "judged_by_class": self.classes,
        });
        for (k, v) in std::mem::take(&mut self.extra) {
            coverage[k] = v;
        }
        if let Some(e) = self.exhaustive {
            coverage["exhaustive"] = json!(e);
        }
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .unwrap();
        for (k, d) in &self.known {
            if let Some(n) = self.known_seen.get(k) {
                println!("KNOWN-FINDING: property={} {d} ({n} executions)", self.property);
            }
        }
        println!(
            "{}: {} executions judged, {} distinct, {} boundary events, {} classes, {:.1}s",
            self.property,
            self.evaluations,
            self.distinct.len(),
            self.events,
            self.classes.len(),
            self.start.elapsed().as_secs_f64()
        );
        if !self.violations.is_empty() {
            let rdir = self.root.join("replays");
            std::fs::create_dir_all(&rdir).unwrap();
            let path = rdir.join(format!("{}-seed{}.json", self.property, self.seed));
            let all: Vec<_> = self.violations.iter().map(|v| v.1.clone()).collect();
            std::fs::write(&path, serde_json::to_string_pretty(&all).unwrap() + "\n").unwrap();
            for (sig, v) in self.violations.iter().take(5) {
                println!("  [{sig}] {}", clip_str(&v["what"].as_str().unwrap_or("").to_string(), 600));
            }
            println!(
                "VIOLATION property={} replay={}",
                self.property,
                path.display()
            );
            return 1;
        }
        if !missing.is_empty() && !early {
            println!("INCONCLUSIVE property={} not reached: {}", self.property, missing.join(", "));
            return 3;
        }
        0
    }
}

fn clip_str(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        s.chars().take(n).collect::<String>() + "…"
    }
}

fn clip(v: &Json) -> Json {
    match v {
        Json::String(s) => Json::String(clip_str(s, 400)),
        Json::Array(a) => Json::Array(a.iter().take(20).map(clip).collect()),
        Json::Object(o) => Json::Object(o.iter().map(|(k, v)| (k.clone(), clip(v))).collect()),
        v => v.clone(),
    }
}

/// Milliseconds since the start at which an execution last came back or was judged.
static LAST_JUDGED: AtomicU64 = AtomicU64::new(0);
/// An execution of microseconds that has not come back after this long never will.
const STUCK_MS: u64 = 150_000;

/// Milliseconds since the start as the watchdog last saw it: its thread's clock is never moved.
static NOW: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    NOW.load(Ordering::Relaxed)
}

fn watchdog(property: String, seed: u64, root: PathBuf, limit_s: u64) {
    let start = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        NOW.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
        let (now, last) = (now_ms(), LAST_JUDGED.load(Ordering::Relaxed));
        if now.saturating_sub(last) > STUCK_MS {
            let dir = root.join("replays");
            std::fs::create_dir_all(&dir).ok();
            let path = dir.join(format!("{property}-seed{seed}.json"));
            std::fs::write(
                &path,
                json!([{"property": property, "class": "hang", "seed": seed, "what": "an execution did not return",
                    "replay": format!("VERIF_SEED={seed} ./check.sh {property}")}]).to_string() + "\n",
            )
            .ok();
            println!("  [hang] an execution has not returned for {} s", STUCK_MS / 1000);
            println!("VIOLATION property={property} replay={}", path.display());
            std::process::exit(1);
        }
        if now > limit_s * 1000 {
            // Says nothing about the property.
            println!("INCONCLUSIVE property={property} watchdog after {limit_s}s");
            std::process::exit(3);
        }
    });
}

pub fn main(find: fn(&str) -> Option<fn(&mut Ctx)>) -> ! {
    let mut property = String::new();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut root = PathBuf::from("/verif");
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        let v = args.next().unwrap_or_default();
        match a.as_str() {
            "--property" => property = v,
            "--tier" => tier = v,
            "--seed" => seed = v.parse().expect("seed"),
            "--root" => root = v.into(),
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2)
            }
        }
    }
    let thorough = tier == "thorough";
    install_panic_hook();
    watchdog(property.clone(), seed, root.clone(), if thorough { 5400 } else { 700 });
    let mut ctx = Ctx::new(&property, thorough, seed, root);
    let Some(run) = find(&property) else {
        eprintln!("no check for {property}");
        std::process::exit(2)
    };
    // A panic outside a guarded execution comes from the code under test or the workload: report it as such.
    if let Err(p) = guard(|| run(&mut ctx)) {
        ctx.violate("panic", p, json!("outside a judged execution"));
    }
    std::process::exit(ctx.finish())
}

/// `Err` with a description unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}
