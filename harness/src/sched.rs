//! A stateless model checker for real threads.
//!
//! The threads of a scenario are OS threads of which exactly one runs at a time. Control changes
//! hands only at scheduling points: the hook in the lock shim (shim/tokio), explicit `step()`
//! calls of the harness's environment, a future that is not ready, and the end of a thread. The
//! explorer enumerates every choice at every point, bounded by the number of preemptions
//! (switching away from a thread that could go on), as in CHESS.
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    /// Found a lock taken; tries again after some other thread has got on.
    Spinning,
    Done,
}

#[derive(Clone, Debug)]
pub struct Point {
    /// Runnable threads; the running one first if it is still runnable.
    pub enabled: Vec<usize>,
    pub running_enabled: bool,
    pub choice: usize,
    pub what: &'static str,
}

struct State {
    status: Vec<St>,
    current: Option<usize>,
    prefix: Vec<usize>,
    points: Vec<Point>,
    steps: u64,
    clock: u64,
    abort: bool,
    deadlock: bool,
    diverged: bool,
    panics: Vec<String>,
    live: usize,
    /// The thread that was last given control, and for how many points in a row.
    streak: (usize, u64),
    spun: bool,
}

struct Ctl {
    m: Mutex<State>,
    cv: Vec<Condvar>,
    done: Condvar,
}

/// Points in a row after which a thread counts as spinning.
const SPIN: u64 = 300;
const MAX_STEPS: u64 = 20_000;

/// The payload with which threads of an abandoned execution unwind.
struct Abandoned;

thread_local! {
    static ME: RefCell<Option<(Arc<Ctl>, usize)>> = const { RefCell::new(None) };
}

fn lock(ctl: &Ctl) -> MutexGuard<'_, State> {
    ctl.m.lock().unwrap_or_else(|e| e.into_inner())
}

impl Ctl {
    /// Choose who runs next. `me` is the thread that gives up control.
    fn choose(&self, s: &mut State, me: Option<usize>, what: &'static str) {
        let retry = what.ends_with("retry");
        for (t, st) in s.status.iter_mut().enumerate() {
            if retry && Some(t) == me {
                *st = St::Spinning;
            } else if !retry && *st == St::Spinning {
                *st = St::Ready;
            }
        }
        let mut enabled: Vec<usize> = vec![];
        let running_enabled = me.is_some_and(|t| s.status[t] == St::Ready);
        if let (Some(t), true) = (me, running_enabled) {
            enabled.push(t);
        }
        for t in 0..s.status.len() {
            if s.status[t] == St::Ready && !(running_enabled && Some(t) == me) {
                enabled.push(t);
            }
        }
        s.steps += 1;
        if enabled.is_empty() {
            s.current = None;
            if s.status.iter().any(|x| *x != St::Done) {
                s.deadlock = true;
                s.abort = true;
                for cv in &self.cv {
                    cv.notify_all();
                }
            }
            self.done.notify_all();
            return;
        }
        // A thread that spins must not keep the others from running for ever.
        let spinning = running_enabled && s.streak.1 > SPIN && enabled.len() > 1;
        if s.steps > MAX_STEPS {
            s.spun = true;
            s.abort = true;
            for cv in &self.cv {
                cv.notify_all();
            }
            self.done.notify_all();
            return;
        }
        let choice = if enabled.len() == 1 {
            0
        } else if spinning {
            1
        } else {
            let i = s.points.len();
            let c = s.prefix.get(i).copied().unwrap_or(0);
            if c >= enabled.len() {
                s.diverged = true;
            }
            let c = c.min(enabled.len() - 1);
            s.points.push(Point {
                enabled: enabled.clone(),
                running_enabled,
                choice: c,
                what,
            });
            c
        };
        s.streak = if s.streak.0 == enabled[choice] {
            (s.streak.0, s.streak.1 + 1)
        } else {
            (enabled[choice], 0)
        };
        s.current = Some(enabled[choice]);
        self.cv[enabled[choice]].notify_all();
    }

    fn wait_turn(&self, mut s: MutexGuard<'_, State>, me: usize) {
        while s.current != Some(me) && !s.abort {
            s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        let abort = s.abort;
        drop(s);
        if abort {
            std::panic::resume_unwind(Box::new(Abandoned));
        }
    }

    fn yield_now(&self, me: usize, what: &'static str) {
        let mut s = lock(self);
        if s.abort {
            drop(s);
            std::panic::resume_unwind(Box::new(Abandoned));
        }
        self.choose(&mut s, Some(me), what);
        self.wait_turn(s, me);
    }
}

/// A scheduling point of the harness's own environment. Does nothing outside an exploration.
pub fn step(what: &'static str) {
    if std::thread::panicking() {
        return;
    }
    let me = ME.with(|m| m.borrow().clone());
    if let Some((ctl, t)) = me {
        ctl.yield_now(t, what);
    }
}

/// A logical time that increases with every call, for real-time order between operations.
pub fn stamp() -> u64 {
    ME.with(|m| {
        m.borrow()
            .as_ref()
            .map(|(ctl, _)| {
                let mut s = lock(ctl);
                s.clock += 1;
                s.clock
            })
            .unwrap_or(0)
    })
}

struct ThreadWaker {
    ctl: Arc<Ctl>,
    t: usize,
    woken: std::sync::atomic::AtomicBool,
}

impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut s = lock(&self.ctl);
        if s.status[self.t] == St::Blocked {
            s.status[self.t] = St::Ready;
        }
    }
}

/// Run a future on this (explored) thread; waiting makes the thread not runnable.
pub fn block_on<F: Future>(f: F) -> F::Output {
    use std::sync::atomic::Ordering::SeqCst;
    let Some((ctl, t)) = ME.with(|m| m.borrow().clone()) else {
        return crate::ctx::now(f);
    };
    let w = Arc::new(ThreadWaker {
        ctl: ctl.clone(),
        t,
        woken: false.into(),
    });
    let waker: Waker = w.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        w.woken.store(false, SeqCst);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        let mut s = lock(&ctl);
        if s.abort {
            drop(s);
            std::panic::resume_unwind(Box::new(Abandoned));
        }
        if !w.woken.load(SeqCst) {
            s.status[t] = St::Blocked;
        }
        ctl.choose(&mut s, Some(t), "pending");
        ctl.wait_turn(s, t);
    }
}

pub type Body = Box<dyn FnOnce() + Send>;

/// What one execution looked like.
#[derive(Debug)]
pub struct Execution {
    pub points: Vec<Point>,
    pub steps: u64,
    pub deadlock: bool,
    /// Some thread never got on although all were given their turns.
    pub livelock: bool,
    pub panics: Vec<String>,
}

impl Execution {
    pub fn schedule(&self) -> Vec<usize> {
        self.points.iter().map(|p| p.choice).collect()
    }
    fn preemptions_before(&self, i: usize) -> usize {
        self.points[..i]
            .iter()
            .filter(|p| p.running_enabled && p.choice != 0)
            .count()
    }
    pub fn preemptions(&self) -> usize {
        self.preemptions_before(self.points.len())
    }
}

pub const ENGINE: &str = "ENGINE: ";

/// Execute one schedule: the choices of `prefix`, then choice 0 at every later point.
pub fn execute(prefix: &[usize], bodies: Vec<Body>) -> Execution {
    let n = bodies.len();
    let ctl = Arc::new(Ctl {
        m: Mutex::new(State {
            status: vec![St::Ready; n],
            current: None,
            prefix: prefix.to_vec(),
            points: vec![],
            steps: 0,
            clock: 0,
            abort: false,
            deadlock: false,
            diverged: false,
            panics: vec![],
            live: n,
            streak: (0, 0),
            spun: false,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    let handles: Vec<_> = bodies
        .into_iter()
        .enumerate()
        .map(|(t, body)| {
            let ctl = ctl.clone();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((ctl.clone(), t)));
                    tokio::vp_hook::set(Some(Rc::new(step)));
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        ctl.wait_turn(lock(&ctl), t);
                        body()
                    }));
                    tokio::vp_hook::set(None);
                    ME.with(|m| *m.borrow_mut() = None);
                    let mut s = lock(&ctl);
                    s.status[t] = St::Done;
                    s.live -= 1;
                    if let Err(e) = r {
                        if !e.is::<Abandoned>() {
                            let text = crate::ctx::panic_text(e);
                            s.panics.push(format!("thread {t} panicked: {text}"));
                        }
                    }
                    if s.abort {
                        ctl.done.notify_all();
                    } else {
                        ctl.choose(&mut s, Some(t), "end");
                    }
                })
                .expect("cannot start a thread")
        })
        .collect();
    {
        let mut s = lock(&ctl);
        ctl.choose(&mut s, None, "start");
        while s.live > 0 {
            let (g, timeout) = ctl
                .done
                .wait_timeout(s, Duration::from_secs(60))
                .unwrap_or_else(|e| e.into_inner());
            s = g;
            if timeout.timed_out() && s.live > 0 {
                // A thread waits for something the scheduler cannot see.
                panic!("{ENGINE}an explored thread is stuck outside the scheduler's control");
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let mut s = lock(&ctl);
    if s.diverged || s.points.len() < prefix.len() {
        panic!("{ENGINE}a recorded schedule could not be replayed");
    }
    Execution {
        points: std::mem::take(&mut s.points),
        steps: s.steps,
        deadlock: s.deadlock,
        livelock: s.spun,
        panics: std::mem::take(&mut s.panics),
    }
}

/// Figures of one exploration.
#[derive(Default, Debug, Clone)]
pub struct Report {
    pub executions: u64,
    pub steps: u64,
    pub points: u64,
    pub max_points: usize,
    pub complete: bool,
}

/// Explore every schedule with at most `bound` preemptions. `run` gets a prefix, executes it and
/// checks it; it returns the execution, or the violation found.
pub fn explore<E>(
    bound: usize,
    max_executions: u64,
    mut run: impl FnMut(&[usize]) -> Result<Execution, E>,
) -> (Report, Option<(Vec<usize>, E)>) {
    let mut report = Report {
        complete: true,
        ..Default::default()
    };
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(prefix) = stack.pop() {
        if report.executions >= max_executions {
            report.complete = false;
            break;
        }
        let x = match run(&prefix) {
            Ok(x) => x,
            Err(e) => {
                report.executions += 1;
                return (report, Some((prefix, e)));
            }
        };
        report.executions += 1;
        report.steps += x.steps;
        report.points += x.points.len() as u64;
        report.max_points = report.max_points.max(x.points.len());
        let choices = x.schedule();
        let mut preempted = x.preemptions_before(prefix.len());
        for i in prefix.len()..x.points.len() {
            let p = &x.points[i];
            let cost = preempted + usize::from(p.running_enabled);
            if cost <= bound {
                for alt in 1..p.enabled.len() {
                    let mut next = choices[..i].to_vec();
                    next.push(alt);
                    stack.push(next);
                }
            }
            preempted += usize::from(p.running_enabled && p.choice != 0);
        }
    }
    (report, None)
}
