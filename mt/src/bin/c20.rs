//! C20: delayed machines shared between threads, under every schedule of their lock acquisitions.
use mc::delayed::*;
use mc::*;
use mt::{NotShared, Probe};
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::{MatchType, Matcher, SortedMatcher};
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::determinize::mc_hooks::{DefaultCommonDivisor, DeterminizeFsa};
use rustfst::algorithms::factor_weight::factor_iterators::GallicFactorLeft;
use rustfst::algorithms::factor_weight::{FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::lazy::{CacheStatus, FirstCache, FstCache, SimpleHashMapCache, SimpleVecCache};
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::tr_sort;
use rustfst::algorithms::union::UnionFst;
use rustfst::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;

type W = TropicalWeight;
type V = VectorFst<W>;
type P = Arc<V>;
type Sm = SortedMatcher<W, V, P>;

/// A cache that adds scheduling points between the calls of a delayed machine to its cache.
#[derive(Debug, Default)]
struct Points<C>(C);
impl<X: Semiring, C: FstCache<X>> FstCache<X> for Points<C> {
    fn get_start(&self) -> CacheStatus<Option<StateId>> {
        mt::point();
        self.0.get_start()
    }
    fn insert_start(&self, id: Option<StateId>) {
        mt::point();
        self.0.insert_start(id)
    }
    fn get_trs(&self, id: StateId) -> CacheStatus<TrsVec<X>> {
        mt::point();
        self.0.get_trs(id)
    }
    fn insert_trs(&self, id: StateId, trs: TrsVec<X>) {
        mt::point();
        self.0.insert_trs(id, trs)
    }
    fn get_final_weight(&self, id: StateId) -> CacheStatus<Option<X>> {
        mt::point();
        self.0.get_final_weight(id)
    }
    fn insert_final_weight(&self, id: StateId, w: Option<X>) {
        mt::point();
        self.0.insert_final_weight(id, w)
    }
    fn num_known_states(&self) -> usize {
        mt::point();
        self.0.num_known_states()
    }
    fn compute_num_known_trs(&self) -> usize {
        self.0.compute_num_known_trs()
    }
    fn num_trs(&self, id: StateId) -> Option<usize> {
        mt::point();
        self.0.num_trs(id)
    }
    fn num_input_epsilons(&self, id: StateId) -> Option<usize> {
        mt::point();
        self.0.num_input_epsilons(id)
    }
    fn num_output_epsilons(&self, id: StateId) -> Option<usize> {
        mt::point();
        self.0.num_output_epsilons(id)
    }
    fn len_trs(&self) -> usize {
        self.0.len_trs()
    }
    fn len_final_weights(&self) -> usize {
        self.0.len_final_weights()
    }
}

/// What a thread does with the shared machine.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Prog {
    Start,
    /// start, then the transitions of the start state and its finality
    First,
    /// start, then the transitions of the k-th target of the start state, last first
    Second(usize),
    /// epsilon and transition counts of the start state
    Counts,
    /// everything, breadth first
    Breadth,
    /// everything, last transition first
    Depth,
    /// iterate over the states
    Iter,
    /// iterate over the states with their transitions
    IterTrs,
}
type Log<X> = Vec<(Q, A<X>)>;
fn perform<X: Semiring, F: Fst<X>>(f: &F, p: Prog) -> Result<Log<X>, String> {
    let mut log = vec![];
    let mut q = |q: Q| -> Result<A<X>, String> {
        let a = ask(f, q)?;
        log.push((q, a.clone()));
        Ok(a)
    };
    let targets = |a: &A<X>| -> Vec<StateId> {
        match a {
            A::Trs(t) => t.iter().map(|t| t.3).collect(),
            _ => vec![],
        }
    };
    match p {
        Prog::Iter => {
            q(Q::Iter)?;
        }
        Prog::IterTrs => {
            for d in f.fst_iter().take(60) {
                let t: Vec<_> = d.trs.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect();
                log.push((Q::N(d.state_id), A::N(d.num_trs)));
                log.push((Q::Trs(d.state_id), A::Trs(t)));
                log.push((Q::Fin(d.state_id), A::Fin(d.final_weight)));
            }
        }
        _ => {
            let A::Start(s) = q(Q::Start)? else { unreachable!() };
            let Some(s) = s else { return Ok(log) };
            match p {
                Prog::First => {
                    q(Q::Trs(s))?;
                    q(Q::Fin(s))?;
                }
                Prog::Second(k) => {
                    let t = targets(&q(Q::Trs(s))?);
                    if !t.is_empty() {
                        let n = t[t.len() - 1 - k % t.len()];
                        q(Q::Trs(n))?;
                        q(Q::Fin(n))?;
                    }
                }
                Prog::Counts => {
                    q(Q::Ie(s))?;
                    q(Q::N(s))?;
                    q(Q::Oe(s))?;
                }
                Prog::Breadth | Prog::Depth => {
                    let mut seen = vec![s];
                    let mut todo = std::collections::VecDeque::from([s]);
                    while let Some(s) = if p == Prog::Breadth { todo.pop_front() } else { todo.pop_back() } {
                        if p == Prog::Breadth {
                            q(Q::Fin(s))?;
                        }
                        for n in targets(&q(Q::Trs(s))?) {
                            if !seen.contains(&n) {
                                seen.push(n);
                                todo.push_back(n);
                            }
                        }
                        if p == Prog::Depth {
                            q(Q::Fin(s))?;
                        }
                        if seen.len() > 40 {
                            return Err("more than 40 states".into());
                        }
                    }
                }
                _ => (),
            }
        }
    }
    Ok(log)
}
fn sorted<X: Semiring>(a: &A<X>) -> A<X> {
    match a {
        A::Trs(t) => {
            let mut t = t.clone();
            t.sort_by_cached_key(|t| format!("{t:?}"));
            A::Trs(t)
        }
        _ => a.clone(),
    }
}

#[derive(Clone, Copy)]
struct Bound {
    preemptions: Option<usize>,
    limit: u64,
}
fn shared<X: Semiring, F: Fst<X>>(what: &str, can_share: bool, progs: &[Prog], b: Bound, mk: &dyn Fn() -> F) -> Result<(), String> {
    if !can_share {
        return Err(format!("{what}: the machine can no longer be shared between threads"));
    }
    let reference = walk_all(&mk(), 60)?.canon();
    let check = |f: &F, logs: Vec<Result<Log<X>, String>>| -> Result<(), String> {
        let w = no_panic("walk", || walk_all(f, 60))??;
        let mut iters: Vec<Vec<StateId>> = vec![];
        let mut first: HashMap<StateId, Vec<A<X>>> = HashMap::new();
        for (t, log) in logs.into_iter().enumerate() {
            for (q, a) in log.map_err(|e| format!("thread {t}: {e}"))? {
                if let A::Iter(v) = a {
                    iters.push(v);
                    continue;
                }
                match w.answer(q) {
                    Some(b) if sorted(&b) == sorted(&a) => (),
                    Some(b) => return Err(format!("thread {t} was answered {a:?} to {q:?}, the machine ends up with {b:?}")),
                    // a state nobody else reaches: the answer must at least be repeatable
                    None => match q {
                        Q::Trs(s) | Q::Fin(s) | Q::N(s) | Q::Ie(s) | Q::Oe(s) => {
                            if sorted(&ask(f, q)?) != sorted(&a) {
                                return Err(format!("thread {t} was answered {a:?} to {q:?}, later {:?}", ask(f, q)?));
                            }
                            first.entry(s).or_default().push(a);
                        }
                        _ => (),
                    },
                }
            }
        }
        if w.canon() != reference {
            return Err(format!("the shared machine is {:?}, alone it is {reference:?}", w.canon()));
        }
        let all: Vec<StateId> = f.states_iter().take(200).collect();
        for v in iters {
            let mut s = v.clone();
            s.sort_unstable();
            s.dedup();
            if s.len() != v.len() {
                return Err(format!("iteration repeats a state: {v:?}"));
            }
            if let Some(x) = w.st.keys().find(|x| !v.contains(x)) {
                return Err(format!("iteration {v:?} misses state {x}"));
            }
            if let Some(x) = v.iter().find(|x| !all.contains(x)) {
                return Err(format!("iteration visits state {x}, which does not exist ({all:?})"));
            }
        }
        Ok(())
    };
    let threads = |f: &'_ F| -> Vec<Box<dyn FnOnce() -> Result<Log<X>, String>>> {
        let f = f as *const F;
        progs
            .iter()
            .map(|p| {
                let p = *p;
                // the machine outlives the threads of an execution
                let b: Box<dyn FnOnce() -> Result<Log<X>, String>> = Box::new(move || perform(unsafe { &*f }, p));
                b
            })
            .collect()
    };
    let (st, complete) = mt::explore(mk, &threads, &check, b.preemptions, b.limit).map_err(|e| format!("{what}, threads {progs:?}: {e}"))?;
    if !complete {
        // more scheduling points than the bounds foresee: what was explored is fine, the rest is not judged
        skip();
    }
    if std::env::var("MT_STAT").is_ok() {
        println!("{what} {progs:?} {st:?}");
    }
    traces(st.schedules);
    states(st.schedules + st.redundant);
    transitions(st.steps);
    if st.schedules > 1 {
        nontrivial();
    }
    Ok(())
}

fn compositions(a: &Aut, b: &Aut, progs: &[Prog], bd: Bound, which: usize) -> Result<(), String> {
    let (mut fa, mut fb) = (a.fst_trop(), b.fst_trop());
    tr_sort(&mut fa, OLabelCompare {});
    tr_sort(&mut fb, ILabelCompare {});
    let (fa, fb) = (Arc::new(fa), Arc::new(fb));
    macro_rules! go {
        ($b:ident, $cache:ty, $what:expr) => {{
            type B = $b<W, V, V, P, P, Sm, Sm>;
            type C = ComposeFst<W, V, V, P, P, Sm, Sm, B, $cache>;
            let mk = || -> C {
                let m1 = Sm::new(fa.clone(), MatchType::MatchOutput).unwrap();
                let m2 = Sm::new(fb.clone(), MatchType::MatchInput).unwrap();
                C::new_with_options(fa.clone(), fb.clone(), ComposeFstOpOptions::<_, _, B, _>::new(m1, m2, None, None)).unwrap()
            };
            shared(concat!("composition, ", $what), Probe::<C>::SHARED, progs, bd, &mk)
        }};
    }
    match which {
        0 => go!(SequenceComposeFilterBuilder, SimpleHashMapCache<W>, "sequence filter, hash-map cache"),
        1 => go!(AltSequenceComposeFilterBuilder, SimpleVecCache<W>, "alternate sequence filter, vector cache"),
        2 => go!(MatchComposeFilterBuilder, FirstCache<W, SimpleHashMapCache<W>>, "match filter, last-answer cache"),
        3 => go!(SequenceComposeFilterBuilder, Points<SimpleHashMapCache<W>>, "sequence filter, hash-map cache, points between cache calls"),
        4 => go!(SequenceComposeFilterBuilder, Points<FirstCache<W, SimpleVecCache<W>>>, "sequence filter, last-answer cache over vector cache, points between cache calls"),
        _ => go!(SequenceComposeFilterBuilder, Arc<SimpleVecCache<W>>, "sequence filter, shared vector cache"),
    }
}
fn rational(a: &Aut, b: &Aut, progs: &[Prog], bd: Bound, which: usize) -> Result<(), String> {
    let (fa, fb) = (a.fst_trop(), b.fst_trop());
    match which {
        0 => shared("union", Probe::<UnionFst<W, V>>::SHARED, progs, bd, &|| UnionFst::new(fa.clone(), fb.clone()).unwrap()),
        1 => shared("concatenation", Probe::<ConcatFst<W, V>>::SHARED, progs, bd, &|| ConcatFst::new(fa.clone(), fb.clone()).unwrap()),
        2 => shared("replacement", Probe::<ReplaceFst<W, V, V>>::SHARED, progs, bd, &|| {
            ReplaceFst::<W, V, V>::new(vec![(9, fa.clone()), (2, fb.clone())], 9, false).unwrap()
        }),
        _ => shared("closure", Probe::<ClosureFst<W, V>>::SHARED, progs, bd, &|| ClosureFst::new(fa.clone(), ClosureType::ClosureStar).unwrap()),
    }
}
fn others(a: &Aut, progs: &[Prog], bd: Bound, which: usize) -> Result<(), String> {
    match which {
        0 => {
            type D = DeterminizeFsa<W, V, DefaultCommonDivisor, P, Vec<W>>;
            let f = Arc::new(a.fst_trop());
            shared("determinization", Probe::<D>::SHARED, progs, bd, &|| D::new(f.clone(), None, 1.0 / 1024.0).unwrap())
        }
        1 => {
            type D = DeterminizeFsa<W, V, DefaultCommonDivisor, P, Vec<W>>;
            let f = a.fst_trop();
            let d = ok("shortest_distance", shortest_distance(&f, true))?;
            let f = Arc::new(f);
            shared("determinization with distances", Probe::<D>::SHARED, progs, bd, &|| D::new(f.clone(), Some(d.clone()), 1.0 / 1024.0).unwrap())
        }
        k => {
            type G = GallicWeightLeft<TropicalWeight>;
            type F = FactorWeightFst<G, VectorFst<G>, Arc<VectorFst<G>>, GallicFactorLeft<TropicalWeight>>;
            let w = |k: usize, c: i32| -> G { (vec![(k % 2 + 1) as Label; 1 + c as usize % 3], TropicalWeight::new(k as f32)).into() };
            let f: Arc<VectorFst<G>> = Arc::new(a.build(w, w));
            let mode = if k == 2 { FactorWeightType::FACTOR_FINAL_WEIGHTS } else { FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS };
            shared("factoring", Probe::<F>::SHARED, progs, bd, &|| F::new(f.clone(), FactorWeightOptions::new(mode)).unwrap())
        }
    }
}

fn main() {
    run("C20", "model_checking", |m| {
        let full = Bound { preemptions: None, limit: m.pick(1_500_000, 20_000_000) };
        let bounded = Bound { preemptions: Some(2), limit: m.pick(1_500_000, 20_000_000) };
        let three = Bound { preemptions: Some(3), limit: 20_000_000 };
        let all = [Prog::Start, Prog::First, Prog::Second(0), Prog::Second(1), Prog::Counts, Prog::Breadth, Prog::Depth, Prog::Iter, Prog::IterTrs];
        let short = [Prog::Start, Prog::First, Prog::Second(0), Prog::Second(1), Prog::Counts];
        let pairs = |ps: &[Prog]| -> Vec<Vec<Prog>> {
            let mut v = vec![];
            for i in 0..ps.len() {
                for j in i..ps.len() {
                    v.push(vec![ps[i], ps[j]]);
                }
            }
            v
        };
        let (la, lb) = ([(1, 1), (1, 0)], [(1, 2), (0, 1)]);
        let ops_a: Vec<Aut> = Auts::new(2, 2, &la[..m.pick(1, 2)]).aw(&[1]).fw(&[2]).collect(|a| a.is_trim() && a.arcs.len() == 2);
        let ops_b: Vec<Aut> = Auts::new(2, 2, &lb[..1]).aw(&[3]).fw(&[0]).collect(|a| a.is_trim() && a.arcs.len() == 2);
        let heavy = |p: &Vec<Prog>| matches!(p[..], [Prog::First, Prog::Second(_)] | [Prog::Second(_), _] | [Prog::Counts, Prog::Counts]);
        let (hard, light): (Vec<_>, Vec<_>) = pairs(&short).into_iter().partition(heavy);
        let (longest, hard): (Vec<_>, Vec<_>) = hard.into_iter().partition(|p| matches!(p[..], [Prog::Second(_), Prog::Second(_)] | [Prog::Counts, Prog::Counts]));
        if m.pick(false, true) {
            let four = Bound { preemptions: Some(4), limit: 20_000_000 };
            m.family(
                "compose-four-preemptions",
                "the longest of the short programs with at most 4 preemptions",
                Prod(vec![(shape(0, 2, 1), shape(0, 2, 2)), (shape(2, 2, 1), shape(3, 2, 1)), (shape(1, 2, 1), shape(1, 2, 1))], Prod(longest, (0..3usize).collect::<Vec<_>>())),
                |((a, b), (p, k))| compositions(a, b, p, four, *k),
            );
            m.family(
                "compose-all-schedules-long",
                "the same with longer programs, on one pair of operands",
                Prod(vec![(shape(0, 2, 1), shape(0, 2, 2))], Prod(hard, (0..3usize).collect::<Vec<_>>())),
                |((a, b), (p, k))| compositions(a, b, p, full, *k),
            );
        }
        m.family(
            "compose-all-schedules",
            "two threads with short programs on delayed compositions of all small operands, every interleaving of lock acquisitions",
            Prod(Prod(ops_a.clone(), ops_b.clone()), Prod(light, (0..3usize).collect::<Vec<_>>())),
            |((a, b), (p, k))| compositions(a, b, p, full, *k),
        );
        m.family(
            "compose-bounded",
            "two threads with all programs, preemption bound 2",
            Prod(Prod(vec![shape(0, 3, 1), shape(2, 3, 2), shape(3, 3, 1)], vec![shape(1, 3, 1), shape(2, 3, 1)][m.pick(1, 0)..].to_vec()), Prod(pairs(&all), (0..6usize).collect::<Vec<_>>())),
            |((a, b), (p, k))| compositions(a, b, p, bounded, *k),
        );
        if m.pick(false, true) {
            m.family(
                "compose-three-preemptions",
                "two threads with all programs on small operands, preemption bound 3",
                Prod(vec![(shape(0, 2, 1), shape(0, 2, 2)), (shape(0, 3, 1), shape(2, 2, 1))], Prod(pairs(&all), (0..6usize).collect::<Vec<_>>())),
                |((a, b), (p, k))| compositions(a, b, p, three, *k),
            );
            m.family(
                "others-three-preemptions",
                "union, concatenation, replacement, closure, determinization and factoring of one small machine, preemption bound 3",
                Prod(pairs(&short), (0..8usize).collect::<Vec<_>>()),
                |(p, k)| if *k < 4 { rational(&shape(0, 2, 1), &shape(1, 2, 1), p, three, *k) } else if *k < 7 { others(&shape(0, 2, 1), p, three, *k - 4) } else { Ok(()) },
            );
        }
        let mut triples = vec![];
        for i in 0..all.len() {
            for j in i..all.len() {
                triples.extend((j..all.len()).map(|k| vec![all[i], all[j], all[k]]));
            }
        }
        let two = Bound { preemptions: Some(m.pick(1, 2)), limit: 20_000_000 };
        m.family(
            "three-threads",
            "three threads with all programs on one composition per cache type, preemption bound 1 (2)",
            Prod(vec![(shape(0, 2, 1), shape(0, 2, 2)), (shape(2, 2, 1), shape(3, 2, 1))][..m.pick(2, 1)].to_vec(), Prod(triples, (0..6usize).collect::<Vec<_>>())),
            |((a, b), (p, k))| compositions(a, b, p, two, *k),
        );
        m.family(
            "rational",
            "union, concatenation, replacement and closure of small machines, two threads, preemption bound 2",
            Prod(Prod(vec![shape(0, 2, 1), shape(3, 3, 1)], vec![shape(1, 2, 1), shape(2, 3, 1)]), Prod(pairs(&all), (0..4usize).collect::<Vec<_>>())),
            |((a, b), (p, k))| rational(a, b, p, bounded, *k),
        );
        let dets: Vec<Aut> = vec![shape(0, 3, 1), shape(1, 3, 1), shape(2, 3, 1), shape(3, 3, 1), shape(4, 3, 1)];
        m.family(
            "determinize-and-factor",
            "delayed determinization (with and without distances) and weight factoring, two threads, preemption bound 2",
            Prod(dets, Prod(pairs(&all), (0..4usize).collect::<Vec<_>>())),
            |(a, (p, k))| {
                if *k == 3 && a.arcs.iter().any(|x| x.d <= x.s) {
                    skip();
                    return Ok(());
                }
                others(a, p, bounded, *k)
            },
        );
        m.assumptions = vec!["scheduling points are the acquisitions of the caches' and state tables' locks (hook cfg(rustfst_mc)) and the calls to the cache".into()];
    })
}
