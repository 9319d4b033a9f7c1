//! A deterministic executor: polls tasks in an order a scheduler chooses, and detects stuck tasks.
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, OnceLock,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub const STEP_LIMIT: usize = 100_000;

/// How long to wait for a wake-up from elsewhere (a timer, a helper task) before calling a future stuck.
const PATIENCE: Duration = Duration::from_secs(10);
static STUCK: AtomicBool = AtomicBool::new(false);

/// A runtime for code under test that uses tokio's timers or tasks; its own code never needs one.
fn runtime() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime"))
}

pub fn enter() -> tokio::runtime::EnterGuard<'static> {
    runtime().enter()
}

/// Drive a future to completion on this thread. Panics (reported as a violation by the caller's guard) if it
/// suspends without having arranged to be woken, or does not finish within a large number of steps.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let _in_runtime = runtime().enter();
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..STEP_LIMIT {
        if !flag.0.swap(false, Ordering::SeqCst) {
            // Wait at full length only until the first stuck future, so that many of them do not exhaust the time.
            let patience = if STUCK.load(Ordering::SeqCst) { Duration::from_millis(20) } else { PATIENCE };
            let start = Instant::now();
            while !flag.0.swap(false, Ordering::SeqCst) {
                if start.elapsed() > patience {
                    STUCK.store(true, Ordering::SeqCst);
                    panic!("future suspended forever: nothing will wake it");
                }
                std::thread::park_timeout(Duration::from_millis(1));
            }
        }
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future did not complete within {STEP_LIMIT} steps");
}

/// Poll at most `k` times, then drop the future (abandonment at the k-th suspension point).
pub fn run_then_drop<F: Future>(f: F, k: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..k {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}

/// Suspend once.
pub struct Yield(bool);
pub fn yield_now() -> Yield {
    Yield(false)
}
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

pub type Task = Pin<Box<dyn Future<Output = ()>>>;

#[derive(Debug, PartialEq)]
pub enum RunEnd {
    Done,
    Stuck(Vec<usize>),
    StepLimit,
}

/// Run the tasks to completion; at every step `choose(runnable)` picks the index (into `runnable`) to poll.
pub fn run_schedule(tasks: Vec<Task>, choose: impl FnMut(&[usize]) -> usize) -> RunEnd {
    run_schedule_despite(tasks, &[], choose)
}

/// The same with tasks that are known never to finish: when only they are left, nothing is waited for.
pub fn run_schedule_despite(mut tasks: Vec<Task>, hanging: &[usize], mut choose: impl FnMut(&[usize]) -> usize) -> RunEnd {
    let _in_runtime = runtime().enter();
    let flags: Vec<_> = tasks.iter().map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<_> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut done = vec![false; tasks.len()];
    for _ in 0..STEP_LIMIT {
        let live: Vec<usize> = (0..tasks.len()).filter(|i| !done[*i]).collect();
        if live.is_empty() {
            return RunEnd::Done;
        }
        let runnable: Vec<usize> = live
            .iter()
            .copied()
            .filter(|i| flags[*i].0.load(Ordering::SeqCst))
            .collect();
        if runnable.is_empty() {
            if live.iter().any(|i| !hanging.contains(i)) && woken_elsewhere(&live, &flags) {
                continue;
            }
            return RunEnd::Stuck(live);
        }
        let i = runnable[choose(&runnable)];
        flags[i].0.store(false, Ordering::SeqCst);
        let mut cx = Context::from_waker(&wakers[i]);
        if tasks[i].as_mut().poll(&mut cx).is_ready() {
            done[i] = true;
        }
    }
    RunEnd::StepLimit
}

/// A timer or a helper task of the code under test may still wake one.
fn woken_elsewhere(live: &[usize], flags: &[Arc<Flag>]) -> bool {
    let patience = if STUCK.load(Ordering::SeqCst) { Duration::from_millis(20) } else { PATIENCE };
    let start = Instant::now();
    while start.elapsed() <= patience {
        if live.iter().any(|i| flags[*i].0.load(Ordering::SeqCst)) {
            return true;
        }
        std::thread::park_timeout(Duration::from_millis(1));
    }
    STUCK.store(true, Ordering::SeqCst);
    false
}

/// Enumerates schedules depth first: replays a prefix of choices, then takes choice 0, and remembers the widths.
#[derive(Default)]
pub struct Dfs {
    prefix: Vec<usize>,
    widths: Vec<usize>,
    pos: usize,
}
impl Dfs {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn begin(&mut self) {
        self.pos = 0;
        self.widths.clear();
    }
    pub fn choose(&mut self, width: usize) -> usize {
        let c = self.prefix.get(self.pos).copied().unwrap_or(0);
        if self.pos >= self.prefix.len() {
            self.prefix.push(0);
        }
        self.widths.push(width);
        self.pos += 1;
        c.min(width - 1)
    }
    pub fn trace(&self) -> Vec<usize> {
        self.prefix[..self.pos].to_vec()
    }
    /// Advance to the next schedule; false when all were visited.
    pub fn next(&mut self) -> bool {
        self.prefix.truncate(self.pos);
        while let Some(c) = self.prefix.pop() {
            let i = self.prefix.len();
            if c + 1 < self.widths[i] {
                self.prefix.push(c + 1);
                return true;
            }
        }
        false
    }
}
