//! Edit operations on mutable FSTs, their sequential model, the property-flag oracle, and an
//! explicit-state breadth-first exploration engine.
use crate::*;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties as P;
use std::collections::HashSet;
use std::hash::Hash;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    AddState,
    AddStates(usize),
    SetStart(usize),
    SetFinal(usize, i32),
    DelFinal(usize),
    TakeFinal(usize),
    AddTr(usize, Label, Label, i32, usize),
    Emplace(usize, Label, Label, i32, usize),
    DelState(usize),
    DelStates(Vec<usize>),
    DelAll,
    DelTrs(usize),
    PopTrs(usize),
    DelTrId(usize, Vec<usize>),
    SetIl(usize, usize, Label),
    SetOl(usize, usize, Label),
    SetLabels(usize, usize, Label, Label),
    SetW(usize, usize, i32),
    SetNext(usize, usize, usize),
    SetTr(usize, usize, Label, Label, i32, usize),
    SetTrs(usize, Vec<(Label, Label, i32, usize)>),
    SortI,
    SortO,
    Sum,
    Unique,
    Compute,
    /// use the unchecked variant where there is one
    U(Box<Op>),
}
pub fn tw(c: i32) -> TropicalWeight {
    TropicalWeight::new(c as f32)
}
pub type F = VectorFst<TropicalWeight>;
fn sid(s: usize) -> StateId {
    s as StateId
}
/// What the operation answered.
#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Done,
    Refused,
    Id(usize),
    W(Option<i32>),
    Trs(Vec<(Label, Label, i32, usize)>),
}
fn tr(i: Label, o: Label, w: i32, d: usize) -> Tr<TropicalWeight> {
    Tr::new(i, o, tw(w), sid(d))
}
fn untr(t: &Tr<TropicalWeight>) -> (Label, Label, i32, usize) {
    (t.ilabel, t.olabel, *t.weight.value() as i32, t.nextstate as usize)
}
pub fn apply(f: &mut F, op: &Op) -> Ans {
    let r = |x: anyhow::Result<()>| if x.is_ok() { Ans::Done } else { Ans::Refused };
    match op {
        Op::AddState => Ans::Id(f.add_state() as usize),
        Op::AddStates(n) => {
            f.add_states(*n);
            Ans::Done
        }
        Op::SetStart(s) => r(f.set_start(sid(*s))),
        Op::SetFinal(s, w) => r(f.set_final(sid(*s), tw(*w))),
        Op::DelFinal(s) => r(f.delete_final_weight(sid(*s))),
        Op::TakeFinal(s) => match f.take_final_weight(sid(*s)) {
            Ok(w) => Ans::W(w.map(|w| *w.value() as i32)),
            Err(_) => Ans::Refused,
        },
        Op::AddTr(s, i, o, w, d) => r(f.add_tr(sid(*s), tr(*i, *o, *w, *d))),
        Op::Emplace(s, i, o, w, d) => r(f.emplace_tr(sid(*s), *i, *o, tw(*w), sid(*d))),
        Op::DelState(s) => r(f.del_state(sid(*s))),
        Op::DelStates(v) => r(f.del_states(v.iter().map(|s| sid(*s)))),
        Op::DelAll => {
            f.del_all_states();
            Ans::Done
        }
        Op::DelTrs(s) => r(f.delete_trs(sid(*s))),
        Op::PopTrs(s) => match f.pop_trs(sid(*s)) {
            Ok(v) => Ans::Trs(v.iter().map(untr).collect()),
            Err(_) => Ans::Refused,
        },
        Op::DelTrId(s, v) => {
            unsafe { f.del_trs_id_sorted_unchecked(sid(*s), v) };
            Ans::Done
        }
        Op::SetIl(s, k, l) => r(f.tr_iter_mut(sid(*s)).and_then(|mut t| t.set_ilabel(*k, *l))),
        Op::SetOl(s, k, l) => r(f.tr_iter_mut(sid(*s)).and_then(|mut t| t.set_olabel(*k, *l))),
        Op::SetLabels(s, k, i, o) => {
            unsafe { f.tr_iter_unchecked_mut(sid(*s)).set_labels_unchecked(*k, *i, *o) };
            Ans::Done
        }
        Op::SetW(s, k, w) => r(f.tr_iter_mut(sid(*s)).and_then(|mut t| t.set_weight(*k, tw(*w)))),
        Op::SetNext(s, k, d) => r(f.tr_iter_mut(sid(*s)).and_then(|mut t| t.set_nextstate(*k, sid(*d)))),
        Op::SetTr(s, k, i, o, w, d) => r(f.tr_iter_mut(sid(*s)).and_then(|mut t| t.set_tr(*k, tr(*i, *o, *w, *d)))),
        Op::SetTrs(s, v) => {
            unsafe { f.set_trs_unchecked(sid(*s), v.iter().map(|t| tr(t.0, t.1, t.2, t.3)).collect()) };
            Ans::Done
        }
        Op::SortI => {
            tr_sort(f, ILabelCompare {});
            Ans::Done
        }
        Op::SortO => {
            tr_sort(f, OLabelCompare {});
            Ans::Done
        }
        Op::Sum => {
            tr_sum(f);
            Ans::Done
        }
        Op::Unique => {
            tr_unique(f);
            Ans::Done
        }
        Op::Compute => {
            f.compute_and_update_properties_all().unwrap();
            Ans::Done
        }
        Op::U(op) => unsafe {
            match &**op {
                Op::SetStart(s) => f.set_start_unchecked(sid(*s)),
                Op::SetFinal(s, w) => f.set_final_unchecked(sid(*s), tw(*w)),
                Op::DelFinal(s) => f.delete_final_weight_unchecked(sid(*s)),
                Op::TakeFinal(s) => return Ans::W(f.take_final_weight_unchecked(sid(*s)).map(|w| *w.value() as i32)),
                Op::AddTr(s, i, o, w, d) => f.add_tr_unchecked(sid(*s), tr(*i, *o, *w, *d)),
                Op::Emplace(s, i, o, w, d) => f.emplace_tr_unchecked(sid(*s), *i, *o, tw(*w), sid(*d)),
                Op::PopTrs(s) => return Ans::Trs(f.pop_trs_unchecked(sid(*s)).iter().map(untr).collect()),
                Op::SetIl(s, k, l) => f.tr_iter_unchecked_mut(sid(*s)).set_ilabel_unchecked(*k, *l),
                Op::SetOl(s, k, l) => f.tr_iter_unchecked_mut(sid(*s)).set_olabel_unchecked(*k, *l),
                Op::SetW(s, k, w) => f.tr_iter_unchecked_mut(sid(*s)).set_weight_unchecked(*k, tw(*w)),
                Op::SetNext(s, k, d) => f.tr_iter_unchecked_mut(sid(*s)).set_nextstate_unchecked(*k, sid(*d)),
                Op::SetTr(s, k, i, o, w, d) => f.tr_iter_unchecked_mut(sid(*s)).set_tr_unchecked(*k, tr(*i, *o, *w, *d)),
                _ => unreachable!(),
            }
            Ans::Done
        },
    }
}
fn out(a: &Aut, s: usize) -> Vec<usize> {
    (0..a.arcs.len()).filter(|k| a.arcs[*k].s == s).collect()
}
/// The sequential model. Arcs are kept grouped by source (stable).
pub fn model_apply(a: &mut Aut, op: &Op) -> Ans {
    let n = a.n;
    let bad = |s: &usize| *s >= n;
    let arc = |s: &usize, i: &Label, o: &Label, w: &i32, d: &usize| Arc5 { s: *s, i: *i, o: *o, w: *w, d: *d };
    macro_rules! at {
        ($s:expr, $k:expr) => {{
            if bad($s) {
                return Ans::Refused;
            }
            match out(a, *$s).as_slice().get(*$k) {
                Some(p) => *p,
                None => return Ans::Refused,
            }
        }};
    }
    let ans = match op {
        Op::U(o) => return model_apply(a, o),
        Op::AddState => {
            a.n += 1;
            a.fin.push(None);
            Ans::Id(n)
        }
        Op::AddStates(k) => {
            a.n += k;
            a.fin.resize(a.n, None);
            Ans::Done
        }
        Op::SetStart(s) | Op::SetFinal(s, _) | Op::DelFinal(s) | Op::TakeFinal(s) | Op::AddTr(s, ..) | Op::Emplace(s, ..) | Op::DelState(s) | Op::DelTrs(s) | Op::PopTrs(s) | Op::SetTrs(s, _)
            if bad(s) =>
        {
            return Ans::Refused
        }
        Op::SetStart(s) => {
            a.start = Some(*s);
            Ans::Done
        }
        Op::SetFinal(s, w) => {
            a.fin[*s] = Some(*w);
            Ans::Done
        }
        Op::DelFinal(s) => {
            a.fin[*s] = None;
            Ans::Done
        }
        Op::TakeFinal(s) => Ans::W(a.fin[*s].take()),
        Op::AddTr(s, i, o, w, d) | Op::Emplace(s, i, o, w, d) => {
            a.arcs.push(arc(s, i, o, w, d));
            Ans::Done
        }
        Op::DelState(s) => return model_apply(a, &Op::DelStates(vec![*s])),
        Op::DelStates(v) => {
            if v.iter().any(|s| bad(s)) {
                return Ans::Refused;
            }
            let keep: Vec<usize> = (0..n).filter(|s| !v.contains(s)).collect();
            let new = |s: usize| keep.iter().position(|k| *k == s);
            a.arcs = a
                .arcs
                .iter()
                .filter_map(|x| Some(Arc5 { s: new(x.s)?, d: new(x.d)?, ..x.clone() }))
                .collect();
            a.fin = keep.iter().map(|s| a.fin[*s]).collect();
            a.start = a.start.and_then(new);
            a.n = keep.len();
            Ans::Done
        }
        Op::DelAll => {
            *a = Aut::empty();
            Ans::Done
        }
        Op::DelTrs(s) => {
            a.arcs.retain(|x| x.s != *s);
            Ans::Done
        }
        Op::PopTrs(s) => {
            let v = a.arcs.iter().filter(|x| x.s == *s).map(|x| (x.i, x.o, x.w, x.d)).collect();
            a.arcs.retain(|x| x.s != *s);
            Ans::Trs(v)
        }
        Op::DelTrId(s, v) => {
            let o = out(a, *s);
            let dead: Vec<usize> = v.iter().map(|k| o[*k]).collect();
            let mut k = 0;
            a.arcs.retain(|_| {
                k += 1;
                !dead.contains(&(k - 1))
            });
            Ans::Done
        }
        Op::SetIl(s, k, l) => {
            let p = at!(s, k);
            a.arcs[p].i = *l;
            Ans::Done
        }
        Op::SetOl(s, k, l) => {
            let p = at!(s, k);
            a.arcs[p].o = *l;
            Ans::Done
        }
        Op::SetLabels(s, k, i, o) => {
            let p = at!(s, k);
            (a.arcs[p].i, a.arcs[p].o) = (*i, *o);
            Ans::Done
        }
        Op::SetW(s, k, w) => {
            let p = at!(s, k);
            a.arcs[p].w = *w;
            Ans::Done
        }
        Op::SetNext(s, k, d) => {
            let p = at!(s, k);
            a.arcs[p].d = *d;
            Ans::Done
        }
        Op::SetTr(s, k, i, o, w, d) => {
            let p = at!(s, k);
            a.arcs[p] = arc(s, i, o, w, d);
            Ans::Done
        }
        Op::SetTrs(s, v) => {
            a.arcs.retain(|x| x.s != *s);
            a.arcs.extend(v.iter().map(|t| arc(s, &t.0, &t.1, &t.2, &t.3)));
            Ans::Done
        }
        Op::SortI => {
            a.arcs.sort_by_key(|x| (x.s, x.i));
            Ans::Done
        }
        Op::SortO => {
            a.arcs.sort_by_key(|x| (x.s, x.o));
            Ans::Done
        }
        Op::Sum => {
            let mut v: Vec<Arc5> = vec![];
            for x in &a.arcs {
                match v.iter_mut().find(|y| (y.s, y.i, y.o, y.d) == (x.s, x.i, x.o, x.d)) {
                    Some(y) => y.w = y.w.min(x.w),
                    None => v.push(x.clone()),
                }
            }
            a.arcs = v;
            Ans::Done
        }
        Op::Unique => {
            let mut v: Vec<Arc5> = vec![];
            for x in &a.arcs {
                if !v.contains(x) {
                    v.push(x.clone());
                }
            }
            a.arcs = v;
            Ans::Done
        }
        Op::Compute => Ans::Done,
    };
    a.arcs.sort_by_key(|x| x.s);
    ans
}
/// Reads the real machine back as plain data (integer weights), arcs grouped by source.
pub fn read(f: &F) -> Result<Aut, String> {
    let m = M::of(f)?;
    let c = |w: &TropicalWeight| *w.value() as i32;
    let mut a = Aut { n: m.n(), start: m.start, fin: m.fin.iter().map(|w| w.as_ref().map(c)).collect(), arcs: vec![] };
    for s in 0..m.n() {
        for t in &m.arcs[s] {
            a.arcs.push(Arc5 { s, i: t.0, o: t.1, w: c(&t.2), d: t.3 });
        }
    }
    Ok(a)
}
/// Truth of every (positive) property flag, from its definition. `w_triv` tells trivial weights.
pub struct Truth {
    pub yes: P,
    pub no: P,
}
impl Truth {
    pub fn of<W: Semiring>(m: &M<W>) -> Truth {
        let n = m.n();
        let mut t = Truth { yes: P::empty(), no: P::empty() };
        let mut put = |p: P, q: P, v: bool| {
            if v {
                t.yes |= p;
                t.no |= q;
            } else {
                t.yes |= q;
                t.no |= p;
            }
        };
        let all = || m.arcs.iter().flatten();
        put(P::ACCEPTOR, P::NOT_ACCEPTOR, all().all(|t| t.0 == t.1));
        put(P::EPSILONS, P::NO_EPSILONS, all().any(|t| t.0 == 0 && t.1 == 0));
        put(P::I_EPSILONS, P::NO_I_EPSILONS, all().any(|t| t.0 == 0));
        put(P::O_EPSILONS, P::NO_O_EPSILONS, all().any(|t| t.1 == 0));
        let det = |f: &dyn Fn(&(Label, Label, W, usize)) -> Label| {
            m.arcs.iter().all(|v| (0..v.len()).all(|i| (0..i).all(|j| f(&v[i]) != f(&v[j]))))
        };
        put(P::I_DETERMINISTIC, P::NOT_I_DETERMINISTIC, det(&|t| t.0));
        put(P::O_DETERMINISTIC, P::NOT_O_DETERMINISTIC, det(&|t| t.1));
        put(P::I_LABEL_SORTED, P::NOT_I_LABEL_SORTED, m.arcs.iter().all(|v| v.windows(2).all(|w| w[0].0 <= w[1].0)));
        put(P::O_LABEL_SORTED, P::NOT_O_LABEL_SORTED, m.arcs.iter().all(|v| v.windows(2).all(|w| w[0].1 <= w[1].1)));
        let triv = |w: &W| w.is_one() || w.is_zero();
        // a final state of weight zero is neither here nor there: not judged
        if !m.fin.iter().flatten().any(|w| w.is_zero()) {
            put(P::WEIGHTED, P::UNWEIGHTED, all().any(|t| !triv(&t.2)) || m.fin.iter().flatten().any(|w| !w.is_one()));
        }
        let mut tc = vec![vec![false; n]; n];
        for s in 0..n {
            for t in &m.arcs[s] {
                tc[s][t.3] = true;
            }
        }
        for k in 0..n {
            for i in 0..n {
                if tc[i][k] {
                    for j in 0..n {
                        if tc[k][j] {
                            tc[i][j] = true;
                        }
                    }
                }
            }
        }
        put(P::CYCLIC, P::ACYCLIC, (0..n).any(|s| tc[s][s]));
        put(P::INITIAL_CYCLIC, P::INITIAL_ACYCLIC, m.start.map_or(false, |s| tc[s][s]));
        put(P::TOP_SORTED, P::NOT_TOP_SORTED, (0..n).all(|s| m.arcs[s].iter().all(|t| t.3 > s)));
        put(P::ACCESSIBLE, P::NOT_ACCESSIBLE, (0..n).all(|q| m.start.map_or(false, |s| s == q || tc[s][q])));
        put(P::COACCESSIBLE, P::NOT_COACCESSIBLE, (0..n).all(|q| (0..n).any(|f| m.fin[f].is_some() && (f == q || tc[q][f]))));
        put(
            P::WEIGHTED_CYCLES,
            P::UNWEIGHTED_CYCLES,
            (0..n).any(|s| m.arcs[s].iter().any(|t| !triv(&t.2) && (t.3 == s || tc[t.3][s]))),
        );
        let string = n == 0
            || (m.start == Some(0)
                && (0..n).all(|s| if s == n - 1 { m.fin[s].is_some() && m.arcs[s].is_empty() } else { m.fin[s].is_none() && m.arcs[s].len() == 1 && m.arcs[s][0].3 == s + 1 }));
        put(P::STRING, P::NOT_STRING, string);
        t
    }
    pub fn of_fst<W: Semiring, X: ExpandedFst<W>>(f: &X) -> Result<Truth, String> {
        Ok(Truth::of(&M::of(f)?))
    }
    /// No recorded flag may be false.
    pub fn check(&self, what: &str, got: P) -> Result<(), String> {
        let wrong = got & self.no;
        if !wrong.is_empty() {
            return Err(format!("{what}: recorded flags {wrong:?} are false of the machine"));
        }
        Ok(())
    }
}
/// Checks the flags recorded on a real machine.
pub fn flags_ok<W: Semiring, X: ExpandedFst<W>>(what: &str, f: &X) -> Result<(), String> {
    let m = M::of(f)?;
    trace();
    states(m.n() as u64);
    transitions(m.num_arcs() as u64);
    Truth::of(&m).check(what, f.properties()).map_err(|e| format!("{e}\n  machine {m:?}"))
}

/// Explicit-state breadth-first exploration: `next` checks one state and returns its successors.
pub fn bfs<S: Clone + std::fmt::Debug + Hash + Eq + Send + Sync>(
    m: &mut Mc,
    name: &str,
    rule: &str,
    init: Vec<S>,
    max_layers: usize,
    next: impl Fn(&S) -> Result<Vec<S>, String> + Sync,
) -> (u64, bool) {
    const SH: usize = 64;
    let shard = |s: &S| {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        h.finish() as usize % SH
    };
    let seen: Vec<Mutex<HashSet<S>>> = (0..SH).map(|_| Mutex::new(HashSet::new())).collect();
    for s in &init {
        seen[shard(s)].lock().unwrap().insert(s.clone());
    }
    let mut layer = init;
    let mut total = 0;
    for k in 0..max_layers {
        if layer.is_empty() {
            return (total, true);
        }
        total += layer.len() as u64;
        let fresh: Vec<Mutex<Vec<S>>> = (0..SH).map(|_| Mutex::new(vec![])).collect();
        m.family(&format!("{name} layer {k}"), if k == 0 { rule } else { "next breadth-first layer" }, layer, |s| {
            nontrivial();
            states(1);
            for t in next(s)? {
                transitions(1);
                let h = shard(&t);
                if seen[h].lock().unwrap().insert(t.clone()) {
                    fresh[h].lock().unwrap().push(t);
                }
            }
            Ok(())
        });
        layer = fresh.into_iter().flat_map(|v| v.into_inner().unwrap()).collect();
    }
    (total, layer.is_empty())
}
