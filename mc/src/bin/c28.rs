//! C28: queue disciplines against list models, over all operation histories.
use mc::*;
use rustfst::algorithms::queues::*;
use rustfst::algorithms::tr_filters::{AnyTrFilter, EpsilonTrFilter};
use rustfst::algorithms::{Queue, QueueType};
use rustfst::prelude::*;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
enum D {
    Fifo,
    Lifo,
    State,
    /// position of each state
    Top(Vec<usize>),
    Trivial,
    /// value of each state, smallest first
    Best(Vec<i32>),
    /// a comparator of the user: always the largest or always the smallest
    Cmp,
    Scc(Vec<usize>, Vec<D>),
}
fn queue(d: &D) -> Box<dyn Queue> {
    match d {
        D::Fifo => Box::<FifoQueue>::default(),
        D::Lifo => Box::<LifoQueue>::default(),
        D::State => Box::<StateOrderQueue>::default(),
        D::Top(o) => Box::new(TopOrderQueue::from_precomputed_order(o.iter().map(|x| *x as StateId).collect())),
        D::Trivial => Box::<TrivialQueue>::default(),
        D::Best(v) => Box::new(NaturalShortestFirstQueue::new(v.iter().map(|x| TropicalWeight::new(*x as f32)).collect::<Vec<_>>())),
        D::Cmp => Box::new(ShortestFirstQueue::new(|a: &StateId, b: &StateId| -> Ordering { a.cmp(b) })),
        D::Scc(c, q) => Box::new(SccQueue::new(q.iter().map(queue).collect(), c.iter().map(|x| *x as StateId).collect())),
    }
}
fn qtype(d: &D) -> QueueType {
    match d {
        D::Fifo => QueueType::FifoQueue,
        D::Lifo => QueueType::LifoQueue,
        D::State => QueueType::StateOrderQueue,
        D::Top(_) => QueueType::TopOrderQueue,
        D::Trivial => QueueType::TrivialQueue,
        D::Best(_) | D::Cmp => QueueType::ShortestFirstQueue,
        D::Scc(..) => QueueType::SccQueue,
    }
}
/// What may come next, given the pending states in order of arrival.
fn next(d: &D, pend: &[usize], dir: &Option<bool>) -> Vec<usize> {
    if pend.is_empty() {
        return vec![];
    }
    match d {
        D::Fifo => vec![pend[0]],
        D::Lifo => vec![*pend.last().unwrap()],
        D::State => vec![*pend.iter().min().unwrap()],
        D::Top(o) => vec![*pend.iter().min_by_key(|s| o[**s]).unwrap()],
        D::Trivial => vec![pend[0]],
        D::Best(v) => {
            let b = pend.iter().map(|s| v[*s]).min().unwrap();
            pend.iter().copied().filter(|s| v[*s] == b).collect()
        }
        D::Cmp => {
            let (a, b) = (*pend.iter().min().unwrap(), *pend.iter().max().unwrap());
            match dir {
                None => vec![a, b],
                Some(false) => vec![a],
                Some(true) => vec![b],
            }
        }
        D::Scc(c, q) => {
            let k = pend.iter().map(|s| c[*s]).min().unwrap();
            let p: Vec<usize> = pend.iter().copied().filter(|s| c[*s] == k).collect();
            next(&q[k], &p, dir)
        }
    }
}
fn is_set(d: &D, s: usize) -> bool {
    match d {
        D::State | D::Top(_) => true,
        D::Scc(c, q) => is_set(&q[c[s]], s),
        _ => false,
    }
}
/// A trivial queue takes one state at a time.
fn legal(d: &D, pend: &[usize], s: usize) -> bool {
    match d {
        D::Trivial => pend.is_empty(),
        D::Scc(c, q) => legal(&q[c[s]], &pend.iter().copied().filter(|t| c[*t] == c[s]).collect::<Vec<_>>(), s),
        _ => true,
    }
}
/// Ops: 0..n enqueue, n..2n update, then dequeue, head, clear
fn history(d: &D, n: usize, ops: &[usize]) -> Result<(), String> {
    let mut q = queue(d);
    let mut pend: Vec<usize> = vec![];
    let mut dir: Option<bool> = None;
    states(1);
    if q.queue_type() != qtype(d) {
        return Err("wrong queue type reported".into());
    }
    let name = |k: usize| match k {
        k if k < n => format!("enqueue {k}"),
        k if k < 2 * n => format!("update {}", k - n),
        k if k == 2 * n => "dequeue".into(),
        k if k == 2 * n + 1 => "head".into(),
        _ => "clear".into(),
    };
    for (step, o) in ops.iter().enumerate() {
        let at = || format!("after {:?}", ops[..=step].iter().map(|k| name(*k)).collect::<Vec<_>>());
        transitions(1);
        match *o {
            s if s < n => {
                if !legal(d, &pend, s) {
                    return Ok(());
                }
                q.enqueue(s as StateId);
                if !is_set(d, s) || !pend.contains(&s) {
                    pend.push(s);
                }
            }
            k if k < 2 * n => {
                if !pend.contains(&(k - n)) {
                    return Ok(());
                }
                q.update((k - n) as StateId);
            }
            k if k == 2 * n || k == 2 * n + 1 => {
                let deq = k == 2 * n;
                let got = if deq { q.dequeue() } else { q.head() }.map(|x| x as usize);
                let want = next(d, &pend, &dir);
                let fine = match got {
                    None => want.is_empty(),
                    Some(s) => want.contains(&s),
                };
                if !fine {
                    return Err(format!("{}: returned {got:?}, expected {want:?} (pending {pend:?})", at()));
                }
                if let Some(s) = got {
                    if want.len() > 1 && matches!(d, D::Cmp) && pend.iter().min() != pend.iter().max() {
                        dir = Some(s == *pend.iter().max().unwrap());
                    }
                    if deq {
                        let p = match d {
                            D::Lifo => pend.iter().rposition(|x| *x == s),
                            _ => pend.iter().position(|x| *x == s),
                        };
                        pend.remove(p.unwrap());
                    }
                }
            }
            _ => {
                q.clear();
                pend.clear();
            }
        }
        if q.is_empty() != pend.is_empty() {
            return Err(format!("{}: is_empty() = {}, pending {pend:?}", at(), q.is_empty()));
        }
        if pend.len() > 1 {
            nontrivial();
        }
    }
    // drain
    let mut left = pend.len() + 1;
    while !pend.is_empty() {
        let want = next(d, &pend, &dir);
        let got = q.dequeue().map(|x| x as usize);
        match got {
            Some(s) if want.contains(&s) => {
                if want.len() > 1 && matches!(d, D::Cmp) && pend.iter().min() != pend.iter().max() {
                    dir = Some(s == *pend.iter().max().unwrap());
                }
                let p = match d {
                    D::Lifo => pend.iter().rposition(|x| *x == s),
                    _ => pend.iter().position(|x| *x == s),
                };
                pend.remove(p.unwrap());
            }
            _ => return Err(format!("draining after {:?}: {got:?}, expected {want:?}", ops.iter().map(|k| name(*k)).collect::<Vec<_>>())),
        }
        left -= 1;
        if left == 0 {
            break;
        }
    }
    if !q.is_empty() || q.dequeue().is_some() || q.head().is_some() || !q.is_empty() {
        return Err("not empty after everything was delivered".into());
    }
    trace();
    Ok(())
}
/// A comparator over values that change: ops 0..n enqueue, then n*3 "give a pending state another value and
/// update", then dequeue and head. Every delivery must be at the same end of the current values.
fn changing(n: usize, ops: &[usize], in_scc: bool) -> Result<(), String> {
    use std::sync::{Arc, Mutex};
    let val = Arc::new(Mutex::new((0..n as i32).map(|i| i % 2).collect::<Vec<i32>>()));
    let v2 = val.clone();
    let sf: Box<dyn Queue> = Box::new(ShortestFirstQueue::new(move |a: &StateId, b: &StateId| -> Ordering {
        let v = v2.lock().unwrap();
        v[*a as usize].cmp(&v[*b as usize])
    }));
    let mut q: Box<dyn Queue> = if in_scc { Box::new(SccQueue::new(vec![Box::<TrivialQueue>::default(), sf], vec![1; n])) } else { sf };
    let mut pend: Vec<usize> = vec![];
    let (mut max, mut min) = (true, true);
    states(1);
    let tail = std::iter::repeat(4 * n).take(n + 1);
    for (step, o) in ops.iter().copied().chain(tail).enumerate() {
        transitions(1);
        let mut look = |got: Option<StateId>, pend: &[usize]| -> Result<(), String> {
            let v = val.lock().unwrap();
            match got {
                None if pend.is_empty() => Ok(()),
                Some(s) if pend.contains(&(s as usize)) => {
                    max &= pend.iter().all(|t| v[*t] <= v[s as usize]);
                    min &= pend.iter().all(|t| v[*t] >= v[s as usize]);
                    if !max && !min { Err(format!("operation {step}: {got:?} is not at the end of the queue, pending {pend:?} with values {v:?}")) } else { Ok(()) }
                }
                _ => Err(format!("operation {step}: {got:?}, pending {pend:?}")),
            }
        };
        match o {
            s if s < n => {
                if pend.contains(&s) {
                    return Ok(());
                }
                q.enqueue(s as StateId);
                pend.push(s);
            }
            k if k < 4 * n => {
                let (s, v) = ((k - n) / 3, (k - n) % 3);
                if !pend.contains(&s) {
                    return Ok(());
                }
                val.lock().unwrap()[s] = v as i32;
                q.update(s as StateId);
                if pend.len() > 1 {
                    nontrivial();
                }
            }
            k if k == 4 * n => {
                let got = q.dequeue();
                look(got, &pend)?;
                pend.retain(|s| Some(*s as StateId) != got);
            }
            _ => {
                let got = q.head();
                look(got, &pend)?;
            }
        }
        if q.is_empty() != pend.is_empty() {
            return Err(format!("operation {step}: is_empty() = {}, pending {pend:?}", q.is_empty()));
        }
    }
    trace();
    Ok(())
}

/// Queues chosen for, or built from, a machine: every pending state is delivered exactly once, and states
/// in topological queues come in an order of the transitions (automatic choice promises no order).
fn for_machine(a: &Aut, depth: u32) -> Result<(), String> {
    let base = a.fst_trop();
    let n = a.n;
    let reach = a.tc(|_| true);
    let ereach = a.tc(|t| t.i == 0 && t.o == 0);
    let dist: Vec<TropicalWeight> = (0..n).map(|s| TropicalWeight::new(((s * 2) % 3) as f32)).collect();
    for f in with_flags(&base) {
        for kind in 0..6 {
            // 0 auto, 1 auto with distances, 2 auto on epsilons only, 3 topological, 4 topological on epsilons, 5 auto (log)
            let lf: VectorFst<LogWeight> = a.build(|_, w| LogWeight::new(w as f32), |_, w| LogWeight::new(w as f32));
            let mk = || -> Result<Option<Box<dyn Queue>>, String> {
                Ok(Some(match kind {
                    0 => Box::new(ok("AutoQueue::new", AutoQueue::new(&f, None, &AnyTrFilter {}))?),
                    1 => Box::new(ok("AutoQueue::new", AutoQueue::new(&f, Some(&dist), &AnyTrFilter {}))?),
                    2 => Box::new(ok("AutoQueue::new", AutoQueue::new(&f, None, &EpsilonTrFilter {}))?),
                    3 if a.is_acyclic() => Box::new(TopOrderQueue::new(&f, &AnyTrFilter {})),
                    4 if (0..n).all(|s| !ereach[s][s]) => Box::new(TopOrderQueue::new(&f, &EpsilonTrFilter {})),
                    5 => Box::new(ok("AutoQueue::new", AutoQueue::new(&lf, None, &AnyTrFilter {}))?),
                    _ => return Ok(None),
                }))
            };
            if mk()?.is_none() {
                continue;
            }
            let (r, judged) = match kind {
                2 | 4 => (&ereach, kind == 4),
                _ => (&reach, kind == 3),
            };
            let sp = Seqs { m: 2 * n as u64 + 3, kmin: 0, kmax: depth };
            for i in 0..sp.len() {
                let ops = sp.get(i);
                let mut q = mk()?.unwrap();
                let mut pend: Vec<usize> = vec![];
                let mut legal = true;
                let drain = vec![2 * n; n + 1];
                for o in ops.iter().chain(drain.iter()) {
                    transitions(1);
                    match *o {
                        s if s < n => {
                            if pend.contains(&s) {
                                legal = false;
                                break;
                            }
                            q.enqueue(s as StateId);
                            pend.push(s);
                        }
                        k if k < 2 * n => {
                            if !pend.contains(&(k - n)) {
                                legal = false;
                                break;
                            }
                            q.update((k - n) as StateId);
                        }
                        k if k < 2 * n + 2 => {
                            let h = if k == 2 * n { q.dequeue() } else { q.head() }.map(|x| x as usize);
                            match h {
                                None if pend.is_empty() => (),
                                Some(s) if pend.contains(&s) => {
                                    if judged {
                                        if let Some(t) = pend.iter().find(|t| r[**t][s] && **t != s) {
                                            return Err(format!("kind {kind} ops {ops:?}: state {s} delivered before {t}, which leads to it"));
                                        }
                                    }
                                    if k == 2 * n {
                                        pend.retain(|x| *x != s);
                                    }
                                }
                                _ => return Err(format!("kind {kind} ops {ops:?}: returned {h:?} with {pend:?} pending")),
                            }
                        }
                        _ => {
                            q.clear();
                            pend.clear();
                        }
                    }
                    if q.is_empty() != pend.is_empty() {
                        return Err(format!("kind {kind} ops {ops:?}: is_empty() = {} with {pend:?} pending", q.is_empty()));
                    }
                }
                if legal {
                    trace();
                    states(1);
                    if ops.len() > 2 {
                        nontrivial();
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run("C28", "model_checking", |m| {
        let n = 3;
        let simple = vec![D::Fifo, D::Lifo, D::State, D::Trivial, D::Cmp, D::Top(vec![0, 1, 2]), D::Top(vec![2, 0, 1]), D::Top(vec![1, 2, 0]), D::Best(vec![0, 1, 2]), D::Best(vec![2, 0, 1]), D::Best(vec![1, 1, 0]), D::Best(vec![0, 1, 1])];
        let k = m.pick(6, 7);
        m.family("simple disciplines", "all histories of <=6 (thorough 7) enqueue/update/dequeue/head/clear operations on 3 states for 12 queues (first-in, last-in, state order, 3 topological orders, best weight first with and without ties, user comparator, single state); non-trivial: two states pending", Prod(&simple, Seqs { m: 2 * n as u64 + 3, kmin: 0, kmax: k }), |(d, o)| history(d, n, o));
        let five = vec![D::State, D::Top(vec![3, 1, 4, 0, 2]), D::Best(vec![3, 1, 4, 1, 0]), D::Fifo];
        m.family("values that change", "all histories of <=5 (thorough 6) operations on 3 states: enqueue, give a pending state one of 3 values and update, dequeue, head; alone and inside a component queue; non-trivial: an update with two states pending", Prod(vec![false, true], Seqs { m: 14, kmin: 0, kmax: k - 1 }), |(scc, o)| changing(3, o, *scc));
        // no update operation here: encoded as the first 5 (enqueue) plus 10..13
        let ops5: Vec<usize> = (0..5).chain(10..13).collect();
        m.family("simple disciplines, 5 states", "all histories of <=6 (7) operations on 5 states", Prod(&five, Seqs { m: 8, kmin: 0, kmax: k }), |(d, o)| history(d, 5, &o.iter().map(|x| ops5[*x]).collect::<Vec<_>>()));
        let sccs = vec![
            D::Scc(vec![0, 0, 1], vec![D::Fifo, D::Lifo]),
            D::Scc(vec![2, 0, 1], vec![D::Trivial, D::Fifo, D::Trivial]),
            D::Scc(vec![0, 1, 2], vec![D::Fifo, D::Trivial, D::Lifo]),
            D::Scc(vec![1, 1, 1], vec![D::Trivial, D::Best(vec![2, 0, 1])]),
            D::Scc(vec![1, 3, 0], vec![D::Fifo, D::State, D::Fifo, D::Top(vec![0, 1, 2])]),
        ];
        m.family("component queues", "all histories of <=6 (7) operations on 3 states for 5 component queues over different inner disciplines", Prod(&sccs, Seqs { m: 2 * n as u64 + 3, kmin: 0, kmax: k }), |(d, o)| history(d, n, o));
        let mut mach = Auts::new(2, 2, &[(1, 1), (0, 0)]).aw(&[0, 1]).all_starts().collect(|_| true);
        mach.extend(Auts::new(3, m.pick(2, 3), &[(1, 1), (0, 0)]).aw(&[0, 1]).collect(|a| a.is_canonical() && a.start.is_some() && a.fin.iter().all(|f| f.is_some())));
        m.family("queues chosen for machines", "all machines with 2 states and <=2 arcs, and 3 states, <=2 (3) arcs, epsilon or not, weighted or not, flags known or unknown, x automatic choice (with and without distances and filters) and topological order x all histories of <=4 operations", mach, |a| for_machine(a, 4));
        m.assumptions = vec!["a single-state queue is offered one state at a time, update is only called on pending states, and queues chosen for a machine get each pending state once (their documented use)".into(), "which end of a user-supplied comparator comes first is not judged, only that it is always the same".into()];
    })
}
