//! A stateless model checker for code that uses the hooked mutex (`rustfst::mc_sync`).
//! Threads are coroutines; every lock acquisition (and every explicit `point`) is a scheduling point.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use rustfst::mc_sync::{set_scheduler, Scheduler};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Begin,
    Lock(usize),
    Point,
}
fn dependent(a: Op, b: Op) -> bool {
    match (a, b) {
        (Op::Lock(x), Op::Lock(y)) => x == y,
        (Op::Point, Op::Point) => true,
        _ => false,
    }
}

struct Sched {
    cur: Cell<*const Yielder<(), Op>>,
    tid: Cell<usize>,
    held: RefCell<Vec<(usize, usize)>>,
}
impl Scheduler for Sched {
    fn lock(&self, m: usize) {
        let y = self.cur.get();
        if !y.is_null() {
            unsafe { &*y }.suspend(Op::Lock(m));
        }
    }
    fn unlock(&self, m: usize) {
        self.held.borrow_mut().retain(|h| h.0 != m)
    }
}
thread_local! {
    static SCHED: &'static Sched = Box::leak(Box::new(Sched { cur: Cell::new(std::ptr::null()), tid: Cell::new(0), held: RefCell::new(vec![]) }));
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(vec![]) };
}
/// A scheduling point in the harness (no effect outside an exploration or while the thread holds a lock).
pub fn point() {
    SCHED.with(|s| {
        let y = s.cur.get();
        if !y.is_null() && !s.held.borrow().iter().any(|h| h.1 == s.tid.get()) {
            unsafe { &*y }.suspend(Op::Point);
        }
    })
}

type Body<'a, R> = Box<dyn FnOnce() -> R + 'a>;
type Co<R> = Coroutine<(), Op, Result<R, String>, DefaultStack>;

struct Node {
    enabled: u32,
    sleep: u32,
    tried: u32,
    cur: usize,
    prev: Option<usize>,
    /// preemptions used before this choice
    used: usize,
}
impl Node {
    fn costs(&self, t: usize) -> usize {
        match self.prev {
            Some(p) if p != t && self.enabled & (1 << p) != 0 => 1,
            _ => 0,
        }
    }
    fn next(&self, bound: Option<usize>) -> Option<usize> {
        let free = self.enabled & !self.sleep & !self.tried;
        let ok = |t: usize| free & (1 << t) != 0 && bound.is_none_or(|b| self.used + self.costs(t) <= b);
        self.prev.into_iter().chain(0..32).find(|t| ok(*t))
    }
}

#[derive(Default, Debug, Clone, Copy)]
pub struct Stats {
    pub schedules: u64,
    pub steps: u64,
    pub redundant: u64,
}

/// Runs every schedule of the threads that `mk` makes and hands each outcome to `check`.
/// `preemptions`: bound on preemptive switches (None: no bound, with sleep-set reduction).
pub fn explore<'a, S, R: 'a>(
    mk: &dyn Fn() -> S,
    threads: &dyn Fn(&'a S) -> Vec<Body<'a, R>>,
    check: &dyn Fn(&S, Vec<R>) -> Result<(), String>,
    preemptions: Option<usize>,
    limit: u64,
) -> Result<(Stats, bool), String>
where
    S: 'a,
{
    let sched = SCHED.with(|s| *s);
    let mut stats = Stats::default();
    let mut stack: Vec<Node> = vec![];
    loop {
        let shared = Box::new(mk());
        // The coroutines end (or are leaked together with the state) before `shared` is dropped.
        let r: &'a S = unsafe { &*(&*shared as *const S) };
        let bodies = threads(r);
        let n = bodies.len();
        let yielders: Vec<Cell<*const Yielder<(), Op>>> = (0..n).map(|_| Cell::new(std::ptr::null())).collect();
        let yp = &yielders as *const Vec<Cell<*const Yielder<(), Op>>>;
        let mut cos: Vec<Co<R>> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                let st = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(512 * 1024).expect("stack"));
                unsafe {
                    Coroutine::with_stack_unchecked(st, move |y: &Yielder<(), Op>, ()| {
                        (&*yp)[i].set(y);
                        SCHED.with(|s| s.cur.set(y));
                        catch_unwind(AssertUnwindSafe(b)).map_err(|e| {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                            format!("thread {i} panicked: {}", m.unwrap_or_default())
                        })
                    })
                }
            })
            .collect();
        let mut pending: Vec<Option<Op>> = vec![Some(Op::Begin); n];
        let mut out: Vec<Option<Result<R, String>>> = (0..n).map(|_| None).collect();
        sched.held.borrow_mut().clear();
        set_scheduler(Some(sched));
        let mut depth = 0;
        let mut prev: Option<usize> = None;
        let (mut used, mut sleep) = (0usize, 0u32);
        let (mut wasted, mut lost) = (false, false);
        let mut path: Vec<usize> = vec![];
        let dead = loop {
            let mut enabled = 0u32;
            for (t, p) in pending.iter().enumerate() {
                let on = match p {
                    None => false,
                    Some(Op::Lock(m)) => !sched.held.borrow().iter().any(|h| h.0 == *m),
                    Some(_) => true,
                };
                enabled |= (on as u32) << t;
            }
            if enabled == 0 {
                break pending.iter().any(|p| p.is_some());
            }
            let t = if wasted {
                enabled.trailing_zeros() as usize
            } else if depth < stack.len() {
                if stack[depth].enabled != enabled {
                    // the execution does not repeat: it cannot be explored systematically
                    wasted = true;
                    lost = true;
                    enabled.trailing_zeros() as usize
                } else {
                    stack[depth].cur
                }
            } else {
                let mut nd = Node { enabled, sleep, tried: 0, cur: 0, prev, used };
                match nd.next(preemptions) {
                    Some(t) => {
                        nd.cur = t;
                        nd.tried = 1 << t;
                        stack.push(nd);
                        t
                    }
                    None => {
                        // every continuation is covered by another schedule: run on, do not count
                        wasted = true;
                        enabled.trailing_zeros() as usize
                    }
                }
            };
            if !wasted {
                let nd = &stack[depth];
                used = nd.used + nd.costs(t);
                if preemptions.is_none() {
                    let asleep = (nd.sleep | nd.tried) & !(1 << t);
                    sleep = 0;
                    for s in 0..n {
                        if asleep & (1 << s) != 0 && pending[s].is_some_and(|p| !dependent(p, pending[t].unwrap())) {
                            sleep |= 1 << s;
                        }
                    }
                }
            }
            depth += 1;
            prev = Some(t);
            path.push(t);
            stats.steps += 1;
            if let Some(Op::Lock(m)) = pending[t] {
                sched.held.borrow_mut().push((m, t));
            }
            sched.tid.set(t);
            sched.cur.set(yielders[t].get());
            match cos[t].resume(()) {
                CoroutineResult::Yield(op) => pending[t] = Some(op),
                CoroutineResult::Return(r) => {
                    pending[t] = None;
                    out[t] = Some(r);
                }
            }
            sched.cur.set(std::ptr::null());
        };
        set_scheduler(None);
        if dead {
            std::mem::forget(cos);
            std::mem::forget(shared);
            return Err(format!("deadlock in schedule {path:?}: threads wait for {pending:?}"));
        }
        for c in cos {
            STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
        }
        if lost {
            return Ok((stats, false));
        }
        if wasted {
            stats.redundant += 1;
        } else {
            stats.schedules += 1;
            let mut rs = vec![];
            for o in out {
                rs.push(o.unwrap().map_err(|e| format!("schedule {path:?}: {e}"))?);
            }
            check(&shared, rs).map_err(|e| format!("schedule {path:?}: {e}"))?;
        }
        // next schedule
        loop {
            let Some(nd) = stack.last_mut() else { return Ok((stats, true)) };
            match nd.next(preemptions) {
                Some(t) => {
                    nd.cur = t;
                    nd.tried |= 1 << t;
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
        if stats.schedules + stats.redundant >= limit {
            return Ok((stats, false));
        }
    }
}

/// Whether a (concrete) type may be shared between threads.
pub struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync + Send> Probe<T> {
    pub const SHARED: bool = true;
}
pub trait NotShared {
    const SHARED: bool = false;
}
impl<T> NotShared for Probe<T> {}
