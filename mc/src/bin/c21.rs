//! C21: saving and resuming a delayed composition.
use mc::delayed::*;
use mc::*;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::SortedMatcher;
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions, ComposeFstOpState, ComposeStateTuple};
use rustfst::algorithms::lazy::{CacheStatus, FstCache, SerializableCache, SerializableLazyFst, SerializableOpState, SimpleHashMapCache, SimpleVecCache};
use rustfst::algorithms::tr_sort;
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type W = TropicalWeight;
type V = VectorFst<W>;
type S = SortedMatcher<W, V, Arc<V>>;

struct Scratch(PathBuf);
static NEXT: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    fn new() -> Scratch {
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("mc-c21-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    fn f(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const CACHE_OPS: usize = 16;
fn insert<C: FstCache<W>>(c: &C, op: usize) {
    let t = |i, o, w: f32, n| Tr::new(i, o, W::new(w), n);
    match op {
        0 => c.insert_start(None),
        1 => c.insert_start(Some(0)),
        2 => c.insert_start(Some(3)),
        3..=6 => {
            let s = [0, 1, 2, 5][op - 3];
            c.insert_trs(s, TrsVec(Arc::new(vec![])))
        }
        7..=10 => {
            let s = [0, 1, 2, 5][op - 7];
            c.insert_trs(s, TrsVec(Arc::new(vec![t(0, 1, 0.5, s), t(1, 0, 1.5, 4), t(0, 0, 2.5, 1)])))
        }
        11..=13 => c.insert_final_weight([0, 1, 5][op - 11], Some(W::new(op as f32))),
        _ => c.insert_final_weight([0, 2][op - 14], None),
    }
}
type TrsM = Vec<(Label, Label, W, StateId)>;
fn status<T>(c: CacheStatus<T>) -> Option<T> {
    match c {
        CacheStatus::Computed(x) => Some(x),
        CacheStatus::NotComputed => None,
    }
}
/// Everything a cache can be asked.
#[derive(Clone, Debug, PartialEq)]
struct View {
    start: Option<Option<StateId>>,
    trs: Vec<Option<TrsM>>,
    fin: Vec<Option<Option<W>>>,
    counts: Vec<(Option<usize>, Option<usize>, Option<usize>)>,
    totals: (usize, usize),
}
fn view<C: FstCache<W>>(c: &C, n: StateId) -> View {
    View {
        start: status(c.get_start()),
        trs: (0..n).map(|s| status(c.get_trs(s)).map(|t| t.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect())).collect(),
        fin: (0..n).map(|s| status(c.get_final_weight(s))).collect(),
        counts: (0..n).map(|s| (c.num_trs(s), c.num_input_epsilons(s), c.num_output_epsilons(s))).collect(),
        totals: (c.num_known_states(), c.compute_num_known_trs()),
    }
}
fn model_view(ops: &[usize], n: StateId) -> View {
    let mut v = View { start: None, trs: vec![None; n as usize], fin: vec![None; n as usize], counts: vec![(None, None, None); n as usize], totals: (0, 0) };
    for &o in ops {
        match o {
            0 => v.start = Some(None),
            1 | 2 => {
                let s = [0, 3][o - 1];
                v.start = Some(Some(s));
                v.totals.0 = v.totals.0.max(s as usize + 1);
            }
            3..=6 => v.trs[[0, 1, 2, 5][o - 3]] = Some(vec![]),
            7..=10 => {
                let s = [0usize, 1, 2, 5][o - 7];
                let w = W::new;
                v.trs[s] = Some(vec![(0, 1, w(0.5), s as StateId), (1, 0, w(1.5), 4), (0, 0, w(2.5), 1)]);
                v.totals.0 = v.totals.0.max(s + 1).max(5);
            }
            11..=13 => {
                let s = [0usize, 1, 5][o - 11];
                v.fin[s] = Some(Some(W::new(o as f32)));
                v.totals.0 = v.totals.0.max(s + 1);
            }
            _ => {
                let s = [0usize, 2][o - 14];
                v.fin[s] = Some(None);
                v.totals.0 = v.totals.0.max(s + 1);
            }
        }
    }
    v.totals.1 = v.trs.iter().flatten().map(|t| t.len()).sum();
    for s in 0..n as usize {
        if let Some(t) = &v.trs[s] {
            v.counts[s] = (Some(t.len()), Some(t.iter().filter(|t| t.0 == 0).count()), Some(t.iter().filter(|t| t.1 == 0).count()));
        }
    }
    v
}
fn check_store<C: FstCache<W> + SerializableCache + Default + PartialEq>(what: &str, ops: &[usize]) -> Result<(), String> {
    const N: StateId = 7;
    let c = C::default();
    ops.iter().for_each(|o| insert(&c, *o));
    let want = model_view(ops, N);
    let got = no_panic(what, || view(&c, N))?;
    if got != want {
        return Err(format!("{what}: holds {got:?}, expected {want:?}"));
    }
    let d = Scratch::new();
    let p = d.f("cache");
    ok(what, c.write(&p))?;
    let r = ok(&format!("{what}: read back"), no_panic(what, || C::read(&p))?)?;
    let back = no_panic(what, || view(&r, N))?;
    if back != got || r != c {
        return Err(format!("{what}: read back as {back:?}, saved {got:?}"));
    }
    // the copy behaves the same when it is filled further
    for o in [8usize, 13, 2] {
        insert(&c, o);
        insert(&r, o);
    }
    let (a, b) = (view(&c, N), view(&r, N));
    if a != b {
        return Err(format!("{what}: filled further after reading back: {b:?}, the original {a:?}"));
    }
    trace();
    if !ops.is_empty() {
        nontrivial();
    }
    Ok(())
}
/// Every truncation and a set of values for every byte: reading never panics, and a truncated file is an error.
fn faults(what: &str, d: &Scratch, file: &Path, read: &dyn Fn(&Path) -> anyhow::Result<()>, corrupt: bool) -> Result<(), String> {
    let bytes = std::fs::read(file).map_err(|e| e.to_string())?;
    let p = d.f("faulty");
    for n in 0..bytes.len() {
        std::fs::write(&p, &bytes[..n]).unwrap();
        transitions(1);
        if no_panic(&format!("{what} cut to {n} of {} bytes", bytes.len()), || read(&p))?.is_ok() {
            return Err(format!("{what} cut to {n} of {} bytes is accepted", bytes.len()));
        }
    }
    if corrupt {
        let mut x = bytes.clone();
        for n in 0..bytes.len() {
            for v in [0u8, 1, 2, 0x7f, 0x80, 0xff] {
                if v == bytes[n] {
                    continue;
                }
                x[n] = v;
                std::fs::write(&p, &x).unwrap();
                transitions(1);
                let _ = no_panic(&format!("{what} with byte {n} set to {v}"), || read(&p))?;
            }
            x[n] = bytes[n];
        }
    }
    if read(&d.f("absent")).is_ok() {
        return Err(format!("{what}: reading an absent file succeeded"));
    }
    Ok(())
}

/// One composition set-up (filter and cache).
macro_rules! setup {
    ($m:ident, $filter:ident, $fs:ty, $cache:ident) => {
        mod $m {
            use super::*;
            pub type B = $filter<W, V, V, Arc<V>, Arc<V>, S, S>;
            pub type Fst = ComposeFst<W, V, V, Arc<V>, Arc<V>, S, S, B, Arc<$cache<W>>>;
            pub type State = ComposeFstOpState<ComposeStateTuple<$fs>>;
            pub fn fresh(a: &Arc<V>, b: &Arc<V>) -> anyhow::Result<(Fst, Arc<$cache<W>>)> {
                let c = Arc::new($cache::default());
                Ok((Fst::new_with_options_and_cache(a.clone(), b.clone(), ComposeFstOpOptions::default(), c.clone())?, c))
            }
            pub fn resume(a: &Arc<V>, b: &Arc<V>, cache: &Path, st: &Path) -> anyhow::Result<(Fst, Arc<$cache<W>>)> {
                let c = Arc::new($cache::<W>::read(cache)?);
                let o = State::read(st)?;
                let opts = ComposeFstOpOptions::<S, S, B, State>::new(None, None, None, Some(o));
                Ok((Fst::new_with_options_and_cache(a.clone(), b.clone(), opts, c.clone())?, c))
            }
            /// Explores every query history up to `depth`; at each node saves, resumes and compares.
            pub fn explore(what: &str, a: &Arc<V>, b: &Arc<V>, depth: usize, fault: bool) -> Result<(), String> {
                let d = Scratch::new();
                let (whole, _) = ok(what, fresh(a, b))?;
                let reference = walk_all(&whole, 80)?.canon();
                node(what, a, b, &mut vec![], depth, &d, &reference)?;
                if fault {
                    let (f, _) = ok(what, fresh(a, b))?;
                    walk_all(&f, 80)?;
                    let (pc, ps) = (d.f("c"), d.f("s"));
                    ok(what, f.write(&pc, &ps))?;
                    faults(&format!("{what}: cache file"), &d, &pc, &|p| $cache::<W>::read(p).map(|_| ()), true)?;
                    faults(&format!("{what}: operation state file"), &d, &ps, &|p| State::read(p).map(|_| ()), true)?;
                    // failing devices
                    let full = PathBuf::from("/dev/full");
                    if full.exists() {
                        for (x, y) in [(&full, &ps), (&pc, &full)] {
                            if no_panic(what, || f.write(x, y))?.is_ok() {
                                return Err(format!("{what}: saving to a full device ({x:?}, {y:?}) reports success"));
                            }
                        }
                    }
                    let nodir = d.f("no/such/file");
                    for (x, y) in [(&nodir, &ps), (&pc, &nodir)] {
                        if no_panic(what, || f.write(x, y))?.is_ok() {
                            return Err(format!("{what}: saving to a missing directory reports success"));
                        }
                    }
                }
                Ok(())
            }
            fn node(what: &str, a: &Arc<V>, b: &Arc<V>, h: &mut Vec<Q>, depth: usize, d: &Scratch, reference: &M<W>) -> Result<(), String> {
                let known = no_panic(what, || visit(a, b, h, d, reference)).and_then(|r| r).map_err(|e| format!("{what} saved after {h:?}: {e}"))?;
                if h.len() == depth {
                    return Ok(());
                }
                let mut next = vec![Q::Start, Q::Iter];
                for s in known.into_iter().take(4) {
                    next.extend([Q::Trs(s), Q::Fin(s), Q::Ie(s)]);
                }
                for q in next {
                    if !h.contains(&q) {
                        h.push(q);
                        node(what, a, b, h, depth, d, reference)?;
                        h.pop();
                    }
                }
                Ok(())
            }
            fn visit(a: &Arc<V>, b: &Arc<V>, h: &[Q], d: &Scratch, reference: &M<W>) -> Result<Vec<StateId>, String> {
                states(1);
                trace();
                let (f, c) = ok("compose", fresh(a, b))?;
                let mut known: Vec<StateId> = vec![];
                for q in h {
                    let ans = ask(&f, *q)?;
                    let seen: Vec<StateId> = match &ans {
                        A::Start(Some(s)) => vec![*s],
                        A::Trs(t) => t.iter().map(|t| t.3).collect(),
                        A::Iter(v) => v.clone(),
                        _ => vec![],
                    };
                    for s in seen {
                        if !known.contains(&s) {
                            known.push(s)
                        }
                    }
                }
                let (pc, ps) = (d.f("c"), d.f("s"));
                ok("save", f.write(&pc, &ps))?;
                let (g, gc) = ok("resume", resume(a, b, &pc, &ps))?;
                let n = 12;
                let (va, vb) = (view(&c, n), view(&gc, n));
                if va != vb {
                    return Err(format!("resumed cache {vb:?}, saved {va:?}"));
                }
                // both continue in the same way
                let order: Vec<Q> = known.iter().rev().flat_map(|s| [Q::Trs(*s), Q::Fin(*s), Q::Ie(*s), Q::Oe(*s), Q::N(*s)]).chain([Q::Start, Q::Iter]).collect();
                for q in order {
                    let (x, y) = (ask(&f, q)?, ask(&g, q)?);
                    if x != y {
                        return Err(format!("{q:?} answered {y:?} by the resumed machine, {x:?} by the saved one"));
                    }
                }
                let (x, y) = (walk_all(&f, 80)?, walk_all(&g, 80)?);
                if x.start != y.start || x.st != y.st {
                    return Err("the fully expanded machines number their states differently".into());
                }
                if y.canon() != *reference {
                    return Err(format!("the resumed machine expands to {:?}, not to {:?}", y.canon(), reference));
                }
                // an expansion started afresh on the resumed machine
                let (g2, _) = ok("resume", resume(a, b, &pc, &ps))?;
                let e: V = ok("compute", g2.compute())?;
                let (me, want) = (M::of(&e)?, {
                    // another original brought to the same point: `f` has been expanded further
                    let (f3, _) = ok("compose", fresh(a, b))?;
                    for q in h {
                        ask(&f3, *q)?;
                    }
                    let e: V = ok("compute", f3.compute())?;
                    M::of(&e)?
                });
                if me != want {
                    return Err(format!("computing from the resumed machine gives {me:?}, from the saved one {want:?}"));
                }
                Ok(known)
            }
        }
    };
}
use rustfst::algorithms::compose::filter_states::{IntegerFilterState, TrivialFilterState};
setup!(seq_hash, SequenceComposeFilterBuilder, IntegerFilterState, SimpleHashMapCache);
setup!(seq_vec, SequenceComposeFilterBuilder, IntegerFilterState, SimpleVecCache);
setup!(alt_hash, AltSequenceComposeFilterBuilder, IntegerFilterState, SimpleHashMapCache);
setup!(match_vec, MatchComposeFilterBuilder, IntegerFilterState, SimpleVecCache);
setup!(null_vec, NullComposeFilterBuilder, TrivialFilterState, SimpleVecCache);
setup!(triv_hash, TrivialComposeFilterBuilder, TrivialFilterState, SimpleHashMapCache);
setup!(nomatch_hash, NoMatchComposeFilterBuilder, TrivialFilterState, SimpleHashMapCache);

fn check(a: &Aut, b: &Aut, k: usize, depth: usize, fault: bool) -> Result<(), String> {
    let (mut fa, mut fb) = (a.fst_trop(), b.fst_trop());
    tr_sort(&mut fa, OLabelCompare {});
    tr_sort(&mut fb, ILabelCompare {});
    let (fa, fb) = (Arc::new(fa), Arc::new(fb));
    nontrivial();
    match k {
        0 => seq_hash::explore("sequence filter, hash-map cache", &fa, &fb, depth, fault),
        1 => seq_vec::explore("sequence filter, vector cache", &fa, &fb, depth, fault),
        2 => alt_hash::explore("alt-sequence filter, hash-map cache", &fa, &fb, depth, fault),
        3 => match_vec::explore("match filter, vector cache", &fa, &fb, depth, fault),
        4 => null_vec::explore("null filter, vector cache", &fa, &fb, depth, fault),
        5 => triv_hash::explore("trivial filter, hash-map cache", &fa, &fb, depth, fault),
        _ => nomatch_hash::explore("no-match filter, hash-map cache", &fa, &fb, depth, fault),
    }
}

fn main() {
    run("C21", "model_checking", |m| {
        m.family(
            "cache-store",
            "after every history of insertions a cache holds exactly what was inserted, and reads back from a file as the same cache",
            Prod(Seqs { m: CACHE_OPS as u64, kmin: 0, kmax: m.pick(3, 4) }, vec![0usize, 1]),
            |(ops, k)| {
                if *k == 0 {
                    check_store::<SimpleHashMapCache<W>>("hash-map cache", ops)
                } else {
                    check_store::<SimpleVecCache<W>>("vector cache", ops)
                }
            },
        );
        let pa: Vec<Aut> = Auts::new(2, 2, &[(1, 1), (1, 0), (0, 1)]).aw(&[1]).fw(&[2]).all_starts().collect(|a| a.start.is_none() || a.is_trim());
        let pb: Vec<Aut> = Auts::new(2, 2, &[(1, 2), (0, 1)]).aw(&[3]).fw(&[0]).all_starts().collect(|a| a.start.is_none() || a.is_trim());
        let depth = m.pick(2, 3);
        m.family(
            "resume",
            "a delayed composition saved after every query history, and resumed, continues exactly like the original",
            Prod(pa, Prod(pb, vec![0usize, 1])),
            move |(a, (b, k))| check(a, b, *k, depth, false),
        );
        let sa = vec![shape(0, 3, 1), shape(2, 3, 2), shape(3, 3, 1), Aut::empty()];
        m.family(
            "filters-and-faults",
            "the same for every filter on larger operands, with every truncation and byte corruption of the files and with failing devices",
            Prod(sa.clone(), Prod(sa, (0..7usize).collect::<Vec<_>>())),
            move |(a, (b, k))| check(a, b, *k, depth + 1, true),
        );
        m.assumptions = vec![
            "a corrupted file that still parses is not judged beyond reading it (there is no checksum)".into(),
            "look-ahead filters are resumed in C26's scope only".into(),
        ];
    })
}
