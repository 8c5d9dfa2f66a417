//! C26: look-ahead composition is composition.
use mc::*;
use rustfst::algorithms::compose::compose_filters::{AltSequenceComposeFilterBuilder, ComposeFilterBuilder};
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::{MatchTypeTrait, SMatchBoth, SMatchInput, SMatchOutput};
use rustfst::algorithms::compose::lookahead_filters::{LookAheadComposeFilterBuilder, PushLabelsComposeFilterBuilder, PushWeightsComposeFilterBuilder};
use rustfst::algorithms::compose::lookahead_matchers::{LabelLookAheadMatcher, LookaheadMatcher, MatcherFlagsTrait, TrLookAheadMatcher};
use rustfst::algorithms::compose::matchers::{MatchType, Matcher, MatcherFlags, SortedMatcher};
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions, IntInterval, IntervalSet, LabelReachable, LabelReachableData, MatcherFst, StateReachable};
use rustfst::algorithms::lazy::SimpleHashMapCache;
use rustfst::algorithms::tr_sort;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use rustfst::semirings::{WeaklyDivisibleSemiring, WeightQuantize};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::sync::Arc;

macro_rules! flags {
    ($($n:ident = $($f:ident)|*;)*) => { $(
        #[derive(Debug, Clone, PartialEq)]
        struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                MatcherFlags::empty() $(| MatcherFlags::$f)*
            }
        }
    )* };
}
flags! {
    OEps = OUTPUT_LOOKAHEAD_MATCHER | LOOKAHEAD_EPSILONS;
    OAll = OUTPUT_LOOKAHEAD_MATCHER | LOOKAHEAD_EPSILONS | LOOKAHEAD_NON_EPSILONS;
    OWeight = OUTPUT_LOOKAHEAD_MATCHER | LOOKAHEAD_EPSILONS | LOOKAHEAD_WEIGHT;
    OPrefix = OUTPUT_LOOKAHEAD_MATCHER | LOOKAHEAD_EPSILONS | LOOKAHEAD_PREFIX | LOOKAHEAD_NON_EPSILON_PREFIX;
    OFull = OLABEL_LOOKAHEAD_FLAGS;
    OFullAll = OLABEL_LOOKAHEAD_FLAGS | LOOKAHEAD_NON_EPSILONS;
    IFull = ILABEL_LOOKAHEAD_FLAGS;
    IWeight = INPUT_LOOKAHEAD_MATCHER | LOOKAHEAD_EPSILONS | LOOKAHEAD_WEIGHT;
}

type V<W> = VectorFst<W>;
trait Wt: SerializableSemiring + WeightQuantize + WeaklyDivisibleSemiring + 'static {
    const NAME: &'static str;
    fn of(c: i32) -> Self;
    fn near(&self, o: &Self) -> bool;
}
impl Wt for TropicalWeight {
    const NAME: &'static str = "tropical";
    fn of(c: i32) -> Self {
        TropicalWeight::new(c as f32)
    }
    fn near(&self, o: &Self) -> bool {
        self.value() == o.value()
    }
}
impl Wt for LogWeight {
    const NAME: &'static str = "log";
    fn of(c: i32) -> Self {
        LogWeight::new(c as f32)
    }
    fn near(&self, o: &Self) -> bool {
        self.value() == o.value() || (self.value() - o.value()).abs() < 0.02
    }
}
fn b<W: Wt>(a: &Aut) -> V<W> {
    a.build(|_, c| W::of(c), |_, c| W::of(c))
}

type LMat<W, F, X> = LabelLookAheadMatcher<W, F, Arc<F>, SortedMatcher<W, F, Arc<F>>, X>;
type TMat<W, F, X> = TrLookAheadMatcher<W, F, Arc<F>, SortedMatcher<W, F, Arc<F>>, X>;
type Srt<W, F> = SortedMatcher<W, F, Arc<F>>;
type LFst<W, X> = MatcherFst<W, V<W>, Arc<V<W>>, LMat<W, V<W>, X>, LabelReachableData>;

/// level 0: look-ahead only, 1: with weight pushing, 2: with label pushing too.
fn go<W, F1, F2, M1, M2, S>(f1: Arc<F1>, f2: Arc<F2>, m1: M1, m2: M2, level: usize) -> anyhow::Result<V<W>>
where
    W: Wt,
    F1: ExpandedFst<W> + 'static,
    F2: ExpandedFst<W> + 'static,
    M1: LookaheadMatcher<W, F1, Arc<F1>> + Clone + 'static,
    M2: LookaheadMatcher<W, F2, Arc<F2>> + Clone + 'static,
    S: MatchTypeTrait + 'static,
{
    type Alt<W, F1, F2, M1, M2> = AltSequenceComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, M1, M2>;
    type Look<W, F1, F2, M1, M2, S> = LookAheadComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, M1, M2, Alt<W, F1, F2, M1, M2>, S>;
    type PushW<W, F1, F2, M1, M2, S> =
        PushWeightsComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, M1, M2, Look<W, F1, F2, M1, M2, S>, S>;
    type PushL<W, F1, F2, M1, M2, S> =
        PushLabelsComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, M1, M2, PushW<W, F1, F2, M1, M2, S>, S>;
    macro_rules! fin {
        ($b:ident) => {{
            let filter = $b::<W, F1, F2, M1, M2, S>::new(f1.clone(), f2.clone(), Some(m1), Some(m2))?;
            let opts = ComposeFstOpOptions::<_, _, $b<W, F1, F2, M1, M2, S>, _>::new(None, None, filter, None);
            let d = ComposeFst::<_, _, _, _, _, _, _, _, SimpleHashMapCache<_>>::new_with_options(f1, f2, opts)?;
            d.compute()
        }};
    }
    match level {
        0 => fin!(Look),
        1 => fin!(PushW),
        _ => fin!(PushL),
    }
}
/// Label look-ahead on the output of the first operand.
fn la_out<W: Wt, X: MatcherFlagsTrait + PartialEq + 'static, S: MatchTypeTrait + 'static>(a: &Aut, c: &Aut, level: usize) -> anyhow::Result<V<W>> {
    let (fa, mut fb) = (b::<W>(a), b::<W>(c));
    let g = Arc::new(LFst::<W, X>::new_with_relabeling(fa, &mut fb, true)?);
    tr_sort(&mut fb, ILabelCompare {});
    let fb = Arc::new(fb);
    let m1 = LMat::<W, LFst<W, X>, X>::new_with_data(g.clone(), MatchType::MatchOutput, g.data(MatchType::MatchOutput).cloned())?;
    let m2 = Srt::new(fb.clone(), MatchType::MatchInput)?;
    go::<W, _, _, _, _, S>(g, fb, m1, m2, level)
}
/// Label look-ahead on the input of the second operand.
fn la_in<W: Wt, X: MatcherFlagsTrait + PartialEq + 'static>(a: &Aut, c: &Aut, level: usize) -> anyhow::Result<V<W>> {
    let (mut fa, fb) = (b::<W>(a), b::<W>(c));
    let g = Arc::new(LFst::<W, X>::new_with_relabeling(fb, &mut fa, false)?);
    tr_sort(&mut fa, OLabelCompare {});
    let fa = Arc::new(fa);
    let m2 = LMat::<W, LFst<W, X>, X>::new_with_data(g.clone(), MatchType::MatchInput, g.data(MatchType::MatchInput).cloned())?;
    let m1 = Srt::new(fa.clone(), MatchType::MatchOutput)?;
    go::<W, _, _, _, _, SMatchInput>(fa, g, m1, m2, level)
}
/// Transition look-ahead (no relabelling).
fn la_tr<W: Wt, X: MatcherFlagsTrait + PartialEq + 'static>(a: &Aut, c: &Aut, level: usize) -> anyhow::Result<V<W>> {
    let (mut fa, mut fb) = (b::<W>(a), b::<W>(c));
    tr_sort(&mut fa, OLabelCompare {});
    tr_sort(&mut fb, ILabelCompare {});
    let (fa, fb) = (Arc::new(fa), Arc::new(fb));
    let m1 = TMat::<W, V<W>, X>::new(fa.clone(), MatchType::MatchOutput)?;
    let m2 = Srt::new(fb.clone(), MatchType::MatchInput)?;
    go::<W, _, _, _, _, SMatchOutput>(fa, fb, m1, m2, level)
}

/// Product construction with exact path counts: epsilons of the second operand before those of the first between
/// two matches (any canonical order gives the same weighted relation).
fn product<W: Semiring>(a: &M<W>, b: &M<W>) -> M<W> {
    let (na, nb) = (a.arcs.len(), b.arcs.len());
    let n = na * nb * 2;
    let id = |x: usize, y: usize, f: usize| (x * nb + y) * 2 + f;
    let mut r = M { start: None, fin: vec![None; n], arcs: vec![vec![]; n] };
    if let (Some(x), Some(y)) = (a.start, b.start) {
        r.start = Some(id(x, y, 0));
    }
    for x in 0..na {
        for y in 0..nb {
            for f in 0..2 {
                let s = id(x, y, f);
                if let (Some(u), Some(v)) = (&a.fin[x], &b.fin[y]) {
                    r.fin[s] = Some(u.times(v).unwrap());
                }
                for (i, o, w, t) in &a.arcs[x] {
                    if *o == 0 {
                        r.arcs[s].push((*i, 0, w.clone(), id(*t, y, 1)));
                        continue;
                    }
                    for (i2, o2, w2, t2) in &b.arcs[y] {
                        if i2 == o {
                            r.arcs[s].push((*i, *o2, w.times(w2).unwrap(), id(*t, *t2, 0)));
                        }
                    }
                }
                if f == 0 {
                    for (i2, o2, w2, t2) in &b.arcs[y] {
                        if *i2 == 0 {
                            r.arcs[s].push((0, *o2, w2.clone(), id(x, *t2, 0)));
                        }
                    }
                }
            }
        }
    }
    r
}
fn judge<W: Wt>(what: &str, a: &Aut, c: &Aut, l: usize, f: impl FnOnce() -> anyhow::Result<V<W>>) -> Result<(), String> {
    let (ma, mb) = (a.model(|_, c| W::of(c), |_, c| W::of(c)), c.model(|_, c| W::of(c), |_, c| W::of(c)));
    let Some(want) = relation(&product(&ma, &mb), l, l) else {
        skip();
        return Ok(());
    };
    let what = format!("{what} ({})", W::NAME);
    let got = ok(&what, no_panic(&what, f)?)?;
    let Some(rg) = relation(&M::of(&got)?, l, l) else {
        return Err(format!("{what}: the result has an epsilon cycle although the product has none"));
    };
    if want.len() > 1 {
        nontrivial();
    }
    trace();
    cmp_rel(&what, &rg, &want, |x, y| x.near(y))
}

fn reach_sets(a: &Aut, input: bool) -> Vec<(BTreeSet<Label>, bool)> {
    let lab = |x: &Arc5| if input { x.i } else { x.o };
    let tc = a.tc(|x| lab(x) == 0);
    (0..a.n)
        .map(|s| {
            let r = |t: usize| t == s || tc[s][t];
            (a.arcs.iter().filter(|x| lab(x) != 0 && r(x.s)).map(lab).collect(), (0..a.n).any(|t| r(t) && a.fin[t].is_some()))
        })
        .collect()
}
fn check_reach(a: &Aut, input: bool) -> Result<(), String> {
    let f = a.fst_trop();
    let lr = ok("label reachability", no_panic("label reachability", || LabelReachable::new(&f, input))?)?;
    let d = lr.data().clone();
    let all: BTreeSet<Label> = a.arcs.iter().map(|x| if input { x.i } else { x.o }).filter(|l| *l != 0).collect();
    let keys: BTreeSet<Label> = d.label2index().keys().cloned().filter(|l| *l != rustfst::NO_LABEL).collect();
    if keys != all {
        return Err(format!("labels known to the reachability data are {keys:?}, expected {all:?}"));
    }
    let idx: BTreeSet<Label> = d.label2index().values().cloned().collect();
    if idx.len() != d.label2index().len() || idx.iter().any(|i| *i == 0 || *i == rustfst::NO_LABEL) {
        return Err(format!("label numbering is not one-to-one: {:?}", d.label2index()));
    }
    for (s, (labels, fin)) in reach_sets(a, input).into_iter().enumerate() {
        for l in &all {
            let got = ok("reach_label", lr.reach_label(s as StateId, d.label2index()[l]))?;
            if got != labels.contains(l) {
                return Err(format!("state {s} reaches label {l}: {got}, expected {}", !got));
            }
        }
        let got = ok("reach_final", lr.reach_final(s as StateId))?;
        if got != fin {
            return Err(format!("state {s} reaches a final state: {got}, expected {fin}"));
        }
        if ok("reach_label", lr.reach_label(s as StateId, 0))? {
            return Err("epsilon counts as reached".into());
        }
        if labels.len() > 1 {
            nontrivial();
        }
    }
    // relabelling is a function that agrees with the numbering and keeps other labels apart
    let mut rd = (*d).clone();
    let used: Vec<Label> = all.iter().cloned().collect();
    let extra = [90u32, 91];
    let img: Vec<Label> = used.iter().chain(&extra).map(|l| rd.relabel(*l)).collect();
    let again: Vec<Label> = used.iter().chain(&extra).map(|l| rd.relabel(*l)).collect();
    let mut taken: BTreeSet<Label> = img.iter().cloned().collect();
    taken.insert(d.final_label());
    if img != again || taken.len() != img.len() + 1 || taken.contains(&0) || rd.relabel(0) != 0 || img[..used.len()].iter().zip(&used).any(|(x, l)| *x != d.label2index()[l]) {
        return Err(format!("relabelling {used:?} + {extra:?} gives {img:?} (final label {})", d.final_label()));
    }
    // avoiding collisions: every pair list maps known labels to their numbers
    for avoid in [false, true] {
        let pairs = d.relabel_pairs(avoid);
        for l in &all {
            if !pairs.contains(&(*l, d.label2index()[l])) {
                return Err(format!("relabel_pairs({avoid}) misses label {l}: {pairs:?}"));
            }
        }
        if avoid {
            // a label outside the machine's alphabet that happens to be a used number must move away
            for i in 1..=d.label2index().len() as Label {
                if !all.contains(&i) {
                    let t: Vec<_> = pairs.iter().filter(|p| p.0 == i).collect();
                    if t.len() != 1 || idx.contains(&t[0].1) {
                        return Err(format!("relabel_pairs(true) leaves label {i} in collision: {pairs:?}"));
                    }
                }
            }
        }
    }
    trace();
    // the range query over a sorted transition list of the other machine
    let mut lr = lr;
    let nl = d.label2index().len() as Label + 1;
    for list in lists(nl, 3) {
        let mut g = V::<TropicalWeight>::new();
        g.add_states(1);
        g.set_start(0).unwrap();
        for (k, l) in list.iter().enumerate() {
            g.add_tr(0, Tr::new(*l, *l, TropicalWeight::new(k as f32 + 1.0), 0)).unwrap();
        }
        ok("reach_init", lr.reach_init(&g, true))?;
        for s in 0..a.n {
            let hit: Vec<bool> = list.iter().map(|l| lr.reach_label(s as StateId, *l).unwrap_or(false)).collect();
            let first = hit.iter().position(|x| *x);
            let want = first.map(|p| (p, hit.iter().rposition(|x| *x).unwrap() + 1, p as f32 + 1.0));
            let r = ok("reach", lr.reach(s as StateId, g.get_trs(0).unwrap(), 0, list.len(), true))?;
            let got = r.map(|(x, y, w): (usize, usize, TropicalWeight)| (x, y, *w.value()));
            if got != want {
                return Err(format!("reach of state {s} over labels {list:?} is {got:?}, expected {want:?}"));
            }
        }
        transitions(a.n as u64);
    }
    let mut g = V::<TropicalWeight>::new();
    g.add_states(1);
    g.set_start(0).unwrap();
    for l in [2u32, 1] {
        g.add_tr(0, Tr::new(l, l, TropicalWeight::one(), 0)).unwrap();
    }
    if lr.reach_init(&g, true).is_ok() {
        return Err("an unsorted machine was accepted for look-ahead".into());
    }
    Ok(())
}
/// every non-decreasing list over 0..=hi up to length k
fn lists(hi: Label, k: usize) -> Vec<Vec<Label>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let end = out.len();
        for i in from..end {
            let lo = *out[i].last().unwrap_or(&0);
            for l in lo..=hi {
                let mut v: Vec<Label> = out[i].clone();
                v.push(l);
                out.push(v);
            }
        }
        from = end;
    }
    out
}
fn check_state_reach(a: &Aut) -> Result<(), String> {
    let f = a.fst_trop();
    let mut f2 = f.clone();
    ok("props", f2.compute_and_update_properties(FstProperties::ACYCLIC))?;
    let tc = a.tc(|_| true);
    let cyclic_final = (0..a.n).any(|s| a.fin[s].is_some() && (0..a.n).any(|t| t != s && tc[s][t] && tc[t][s]));
    let self_loop = a.arcs.iter().any(|x| x.s == x.d);
    match no_panic("state reachability", || StateReachable::new(&f2))? {
        Err(e) => {
            if !cyclic_final {
                return Err(format!("state reachability refuses a machine without final states on cycles: {e}"));
            }
            return Ok(());
        }
        Ok(r) => {
            if cyclic_final {
                return Err("a final state on a cycle was accepted".into());
            }
            for s in 0..a.n {
                for t in 0..a.n {
                    if a.fin[t].is_none() {
                        continue;
                    }
                    let want = s == t || tc[s][t];
                    let got = ok("reach", r.reach(s as StateId, t as StateId))?;
                    if got != want {
                        return Err(format!("state {s} reaches final state {t}: {got}, expected {want} (self-loops: {self_loop})"));
                    }
                }
            }
        }
    }
    trace();
    nontrivial();
    Ok(())
}
/// op: 0..K push of interval, K..2K union with that interval; then normalise.
fn check_intervals(ops: &[usize], all: &[(usize, usize)]) -> Result<(), String> {
    let mut s = IntervalSet::default();
    let mut model = BTreeSet::new();
    for &o in ops {
        let (x, y) = all[o % all.len()];
        if o < all.len() {
            s.push(IntInterval::new(x, y));
        } else {
            let mut t = IntervalSet::default();
            t.push(IntInterval::new(x, y));
            s.union(t);
        }
        model.extend(x..y);
    }
    s.normalize();
    for v in 0..9 {
        if s.member(v) != model.contains(&v) {
            return Err(format!("{s:?}: member({v}) is {}", s.member(v)));
        }
    }
    let mut runs = 0;
    let mut prev = None;
    for v in &model {
        if prev != Some(v - 1) {
            runs += 1;
        }
        prev = Some(*v);
    }
    let ivs: Vec<_> = s.iter().cloned().collect();
    if s.len() != runs || ivs.windows(2).any(|w| w[0].end >= w[1].begin) || s.count() != Some(model.len()) || s.singleton() != (model.len() == 1) || s.is_empty() != model.is_empty() {
        return Err(format!("{s:?}: not in normal form for {model:?} (count {:?}, singleton {})", s.count(), s.singleton()));
    }
    trace();
    if ops.len() > 1 {
        nontrivial();
    }
    s.clear();
    if !s.is_empty() || s.member(1) {
        return Err("clear leaves members".into());
    }
    Ok(())
}

fn main() {
    run("C26", "model_checking", |m| {
        let iv: Vec<(usize, usize)> = vec![(1, 2), (2, 3), (1, 4), (3, 6), (4, 5), (6, 8), (2, 7), (5, 8)];
        let n = iv.len() * 2;
        m.family(
            "intervals",
            "after every history of insertions and unions a normalised interval set has exactly the inserted members, in disjoint separated intervals",
            Seqs { m: n as u64, kmin: 0, kmax: m.pick(4, 5) },
            move |ops| check_intervals(ops, &iv),
        );
        let pairs = [(0, 0), (1, 2), (2, 1), (0, 1), (1, 0), (3, 3)];
        let ra: Vec<Aut> = Auts::new(3, 3, &pairs).all_starts().collect(|_| true);
        m.family(
            "label-reach",
            "for every state and label, the reachability data says reachable exactly when an epsilon path leads to a transition with that label (or to a final state); range queries over sorted transition lists are tight",
            Prod(ra, vec![false, true]),
            |(a, i)| check_reach(a, *i),
        );
        // several states emitting arbitrary subsets of five labels: interval sets with many pieces
        let ne = m.pick(2usize, 3);
        let em: Vec<Aut> = (0..1usize << (5 * ne))
            .map(|mask| {
                let mut a = Aut { n: ne + 1, start: Some(0), fin: vec![None; ne + 1], arcs: vec![] };
                a.fin[ne] = Some(0);
                for e in 0..ne {
                    if e > 0 {
                        a.arcs.push(Arc5 { s: 0, i: 0, o: 0, w: 0, d: e });
                    }
                    for l in 0..5 {
                        if mask >> (5 * e + l) & 1 == 1 {
                            a.arcs.push(Arc5 { s: e, i: l as Label + 1, o: 5 - l as Label, w: 0, d: ne });
                        }
                    }
                }
                a
            })
            .collect();
        m.family(
            "label-reach-many",
            "the same for machines whose states emit arbitrary subsets of five labels",
            Prod(em, vec![false, true]),
            |(a, i)| check_reach(a, *i),
        );
        let sa: Vec<Aut> = Auts::new(m.pick(4, 4), m.pick(4, 5), &[(1, 1)]).collect(|_| true);
        m.family(
            "state-reach",
            "a final state is reported reachable exactly when a path leads to it; final states on longer cycles are refused",
            sa,
            check_state_reach,
        );
        // composition
        let ep = [(1, 1), (2, 0), (0, 2), (0, 0), (1, 2)];
        let k = 2;
        let k2 = m.pick(2, 3);
        let first: Vec<Aut> = Auts::new(3, k, &ep).aw(&[1]).fw(&[0, 2]).collect(|a| a.is_trim());
        let sec: Vec<Aut> = Auts::new(2, k2, &[(1, 1), (2, 3), (0, 1), (1, 0)]).aw(&[0, 3]).fw(&[1]).collect(|a| a.is_trim());
        m.family(
            "compose-label",
            "composition with label look-ahead on the first operand's output (plain, with weight pushing, with weight and label pushing) has the weighted relation of the product",
            Prod(first.clone(), sec.clone()),
            |(a, c)| {
                judge::<LogWeight>("look-ahead", a, c, 3, || la_out::<LogWeight, OEps, SMatchOutput>(a, c, 0))?;
                judge::<TropicalWeight>("look-ahead, all flags, no pushing", a, c, 3, || la_out::<TropicalWeight, OFull, SMatchOutput>(a, c, 0))?;
                judge::<LogWeight>("weight pushing", a, c, 3, || la_out::<LogWeight, OWeight, SMatchOutput>(a, c, 1))?;
                judge::<TropicalWeight>("weight pushing", a, c, 3, || la_out::<TropicalWeight, OWeight, SMatchOutput>(a, c, 1))?;
                judge::<LogWeight>("label pushing", a, c, 3, || la_out::<LogWeight, OPrefix, SMatchOutput>(a, c, 2))?;
                judge::<LogWeight>("weight and label pushing", a, c, 3, || la_out::<LogWeight, OFull, SMatchOutput>(a, c, 2))?;
                judge::<TropicalWeight>("weight and label pushing", a, c, 3, || la_out::<TropicalWeight, OFull, SMatchOutput>(a, c, 2))
            },
        );
        m.family(
            "compose-tr",
            "the same for transition look-ahead",
            Prod(first, sec),
            |(a, c)| {
                judge::<LogWeight>("tr look-ahead", a, c, 3, || la_tr::<LogWeight, OAll>(a, c, 0))?;
                judge::<LogWeight>("tr look-ahead, weight pushing", a, c, 3, || la_tr::<LogWeight, OWeight>(a, c, 1))?;
                judge::<TropicalWeight>("tr look-ahead, weight and label pushing", a, c, 3, || la_tr::<TropicalWeight, OFull>(a, c, 2))?;
                judge::<LogWeight>("tr look-ahead, weight and label pushing", a, c, 3, || la_tr::<LogWeight, OFull>(a, c, 2))
            },
        );
        let first: Vec<Aut> = Auts::new(3, 3, &[(1, 1), (2, 0), (0, 2), (1, 0)]).aw(&[1]).fw(&[0]).kmin(3).collect(|a| a.is_trim());
        let sec: Vec<Aut> = Auts::new(2, m.pick(3, 4), &[(1, 1), (2, 3), (0, 1)]).aw(&[2]).fw(&[1]).kmin(m.pick(2, 1)).collect(|a| a.is_trim());
        m.family(
            "compose-label-larger",
            "the same on larger operands",
            Prod(first.clone(), sec.clone()),
            |(a, c)| {
                judge::<LogWeight>("weight and label pushing", a, c, 3, || la_out::<LogWeight, OFull, SMatchOutput>(a, c, 2))?;
                judge::<TropicalWeight>("tr look-ahead, weight and label pushing", a, c, 3, || la_tr::<TropicalWeight, OFull>(a, c, 2))
            },
        );
        let f2: Vec<Aut> = Auts::new(2, k2, &[(1, 1), (0, 2), (1, 2), (2, 1)]).aw(&[0, 3]).fw(&[1]).collect(|a| a.is_trim());
        let s2: Vec<Aut> = Auts::new(3, k, &[(1, 1), (2, 0), (0, 2), (0, 0), (2, 2)]).aw(&[1]).fw(&[0, 2]).collect(|a| a.is_trim());
        m.family(
            "compose-input",
            "the same for label look-ahead on the second operand's input when the first has no output epsilons",
            Prod(f2, s2),
            |(a, c)| {
                judge::<LogWeight>("input look-ahead, weight pushing", a, c, 3, || la_in::<LogWeight, IWeight>(a, c, 1))?;
                judge::<LogWeight>("input look-ahead, weight and label pushing", a, c, 3, || la_in::<LogWeight, IFull>(a, c, 2))?;
                judge::<TropicalWeight>("input look-ahead", a, c, 3, || la_in::<TropicalWeight, IFull>(a, c, 0))
            },
        );
        let f3: Vec<Aut> = Auts::new(2, k2, &[(1, 1), (2, 0), (0, 2)]).aw(&[1]).fw(&[0]).collect(|a| a.is_trim());
        let s3: Vec<Aut> = Auts::new(2, k2, &[(1, 1), (2, 3), (2, 0)]).aw(&[0, 3]).fw(&[1]).collect(|a| a.is_trim());
        m.family(
            "compose-both",
            "automatic choice of the look-ahead side, and looking ahead on every transition when the other operand has no input epsilons",
            Prod(f3, s3),
            |(a, c)| {
                judge::<LogWeight>("automatic side", a, c, 3, || la_out::<LogWeight, OFull, SMatchBoth>(a, c, 2))?;
                judge::<LogWeight>("every transition", a, c, 3, || la_out::<LogWeight, OAll, SMatchOutput>(a, c, 0))?;
                judge::<LogWeight>("every transition, pushing", a, c, 3, || la_out::<LogWeight, OFullAll, SMatchOutput>(a, c, 2))
            },
        );
        m.assumptions = vec!["relations are compared on strings up to length 3".into(), "log weights are compared within 0.02 (one unit of path multiplicity changes them by more)".into()];
    })
}
