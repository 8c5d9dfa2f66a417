//! C27: matchers return exactly the matching transitions.
use mc::*;
use rustfst::algorithms::compose::matchers::{
    IterItemMatcher, MatchType, Matcher, MatcherFlags, MatcherRewriteMode, MultiEpsMatcher, MultiEpsMatcherFlags,
    SigmaMatcher, SortedMatcher, REQUIRE_PRIORITY,
};
use rustfst::algorithms::compose::{compose_with_config, ComposeConfig, ComposeFilterEnum, MatcherConfig, SigmaMatcherConfig};
use rustfst::algorithms::tr_sort;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use rustfst::{EPS_LABEL, NO_LABEL};
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;

type W = TropicalWeight;
type T = Tr<W>;
type Fv = VectorFst<W>;

const SIDES: [MatchType; 2] = [MatchType::MatchInput, MatchType::MatchOutput];

fn lab(t: &T, side: MatchType) -> Label {
    if side == MatchType::MatchInput { t.ilabel } else { t.olabel }
}
fn eps_loop(s: StateId, side: MatchType) -> T {
    if side == MatchType::MatchInput { Tr::new(NO_LABEL, EPS_LABEL, W::one(), s) } else { Tr::new(EPS_LABEL, NO_LABEL, W::one(), s) }
}
/// A machine with an unrelated state before and after the queried one; `labels` on the matched side of state 1,
/// other labels distinguishable, weights distinguishable.
fn machine(labels: &[Label], side: MatchType, both: bool, fin: bool) -> Fv {
    let mut f = Fv::new();
    f.add_states(3);
    f.set_start(0).unwrap();
    f.set_final(2, W::new(5.0)).unwrap();
    if fin {
        f.set_final(1, W::new(0.5)).unwrap();
    }
    for (k, l) in [(0u32, 1u32), (2, 3)] {
        f.add_tr(k, Tr::new(l, l, W::new(9.0), 1)).unwrap();
    }
    for (k, &l) in labels.iter().enumerate() {
        let other = if both { l } else { 7 + (k as Label % 2) };
        let (i, o) = if side == MatchType::MatchInput { (l, other) } else { (other, l) };
        f.add_tr(1, Tr::new(i, o, W::new(k as f32 + 1.0), (k % 3) as StateId)).unwrap();
    }
    f
}
fn drain<X: Iterator<Item = IterItemMatcher<W>>>(it: X, s: StateId, side: MatchType, what: &str) -> Result<Vec<T>, String> {
    let mut v = vec![];
    for x in it {
        let is_loop = matches!(x, IterItemMatcher::EpsLoop);
        let t = ok(what, x.into_tr(s, side))?;
        if is_loop && t != eps_loop(s, side) {
            return Err(format!("{what}: the implicit epsilon loop became {t:?}"));
        }
        v.push(t);
        if v.len() > 500 {
            return Err(format!("{what}: the iteration does not end"));
        }
    }
    Ok(v)
}
fn same(what: &str, mut got: Vec<T>, mut want: Vec<T>) -> Result<(), String> {
    let key = |t: &T| (t.ilabel, t.olabel, t.nextstate, t.weight.value().to_bits());
    got.sort_by_key(key);
    want.sort_by_key(key);
    if got != want {
        return Err(format!("{what}: got {got:?}, expected {want:?}"));
    }
    Ok(())
}
/// The arcs a plain matcher must return.
fn plain<X: Fst<W>>(f: &X, s: StateId, l: Label, side: MatchType) -> Vec<T> {
    let m = if l == NO_LABEL { EPS_LABEL } else { l };
    let mut v: Vec<T> = f.get_trs(s).unwrap().trs().iter().filter(|t| lab(t, side) == m).cloned().collect();
    if l == EPS_LABEL {
        v.push(eps_loop(s, side));
    }
    v
}
fn queries(labels: &[Label]) -> Vec<Label> {
    let mut q: BTreeSet<Label> = labels.iter().cloned().collect();
    for &l in labels {
        q.insert(l.saturating_sub(1));
        q.insert((l + 1).min(NO_LABEL - 1));
    }
    q.extend([EPS_LABEL, 1, 2, 3, 4, NO_LABEL - 1, NO_LABEL]);
    q.into_iter().collect()
}
fn check_sorted<X: Fst<W>>(f: &X, labels: &[Label], side: MatchType) -> Result<(), String> {
    let m = ok("new", SortedMatcher::<W, X, &X>::new(f, side))?;
    for s in 0..3 {
        for l in queries(labels) {
            let what = format!("sorted matcher, state {s}, label {l}, {side:?}");
            let it = ok(&what, no_panic(&what, || m.iter(s, l))?)?;
            let cl = it.clone();
            let got = no_panic(&what, || drain(it, s, side, &what))??;
            if l == EPS_LABEL && got.first() != Some(&eps_loop(s, side)) {
                return Err(format!("{what}: the implicit loop is not delivered first"));
            }
            let again = no_panic(&what, || drain(cl, s, side, &what))??;
            same(&format!("{what}, cloned iterator"), again, got.clone())?;
            same(&what, got, plain(f, s, l, side))?;
            trace();
        }
        if m.final_weight(s).ok().flatten() != f.final_weight(s).ok().flatten() {
            return Err(format!("final weight of state {s} differs"));
        }
        if m.priority(s).ok() != f.num_trs(s).ok() {
            return Err(format!("priority of state {s} is {:?}", m.priority(s)));
        }
    }
    if m.iter(99, 1).is_ok() {
        return Err("querying an absent state succeeded".into());
    }
    Ok(())
}
/// The announced match type must agree with the sortedness of the machine.
fn check_type<X: Fst<W>>(f: &X, side: MatchType, sorted: bool) -> Result<(), String> {
    let m = ok("new", SortedMatcher::<W, X, &X>::new(f, side))?;
    let (y, n) = if side == MatchType::MatchInput {
        (FstProperties::I_LABEL_SORTED, FstProperties::NOT_I_LABEL_SORTED)
    } else {
        (FstProperties::O_LABEL_SORTED, FstProperties::NOT_O_LABEL_SORTED)
    };
    let p = f.properties();
    for test in [false, true] {
        match m.match_type(test) {
            Ok(t) => {
                let want = if p.intersects(y | n) { if sorted { side } else { MatchType::MatchNone } } else { MatchType::MatchUnknown };
                // with test=true, unknown flags may also be resolved
                let resolved = if sorted { side } else { MatchType::MatchNone };
                if t != want && !(test && t == resolved) {
                    return Err(format!("match_type({test}) is {t:?}, expected {want:?} (flags {p:?})"));
                }
            }
            Err(e) => {
                if p.intersects(y | n) || !test {
                    return Err(format!("match_type({test}) fails although the sort flag is known: {e}"));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct SigmaCase {
    labels: Vec<Label>,
    side: MatchType,
    acceptor: bool,
    mode: MatcherRewriteMode,
    allowed: Option<Vec<Label>>,
}
const SIG: Label = 3;

fn sigma_expect(f: &Fv, s: StateId, l: Label, c: &SigmaCase) -> Vec<T> {
    let mut want = plain(f, s, l, c.side);
    if l != EPS_LABEL && l != NO_LABEL && c.allowed.as_ref().map_or(true, |a| a.contains(&l)) {
        let auto = f.properties().contains(FstProperties::ACCEPTOR);
        let both = match c.mode {
            MatcherRewriteMode::MatcherRewriteAuto => auto,
            MatcherRewriteMode::MatcherRewriteAlways => true,
            MatcherRewriteMode::MatcherRewriteNever => false,
        };
        for t in f.get_trs(s).unwrap().trs() {
            if lab(t, c.side) == SIG {
                let mut t = t.clone();
                let input = c.side == MatchType::MatchInput;
                if input || (both && t.ilabel == SIG) {
                    t.ilabel = l;
                }
                if !input || (both && t.olabel == SIG) {
                    t.olabel = l;
                }
                want.push(t);
            }
        }
    }
    want
}
fn check_sigma(c: &SigmaCase) -> Result<(), String> {
    let f = machine(&c.labels, c.side, c.acceptor, true);
    let allowed = c.allowed.as_ref().map(|v| v.iter().cloned().collect::<HashSet<_>>());
    type Sm<'a> = SortedMatcher<W, Fv, &'a Fv>;
    let base = || Arc::new(Sm::new(&f, c.side).unwrap());
    let m = ok("new", SigmaMatcher::<W, Fv, &Fv, Sm>::new(c.side, SIG, c.mode, base(), allowed.clone()))?;
    if m.sigma_label() != SIG || !m.flags().contains(MatcherFlags::REQUIRE_MATCH) {
        return Err("sigma label or flags wrong".into());
    }
    for s in 0..3u32 {
        let has = f.get_trs(s).unwrap().trs().iter().any(|t| lab(t, c.side) == SIG);
        let p = ok("priority", m.priority(s))?;
        let want = if has { REQUIRE_PRIORITY } else { f.num_trs(s).unwrap() };
        if p != want {
            return Err(format!("priority of state {s} is {p}, expected {want}"));
        }
        if m.final_weight(s).ok().flatten() != f.final_weight(s).ok().flatten() {
            return Err(format!("final weight of state {s} differs"));
        }
        for l in [EPS_LABEL, 1, 2, SIG, 4, NO_LABEL] {
            let what = format!("sigma matcher, state {s}, label {l}");
            let it = no_panic(&what, || m.iter(s, l))?;
            if l == SIG {
                if it.is_ok() {
                    return Err(format!("{what}: asking for the sigma label itself succeeded"));
                }
                continue;
            }
            let it = ok(&what, it)?;
            let got = no_panic(&what, || drain(it, s, c.side, &what))??;
            same(&what, got, sigma_expect(&f, s, l, c))?;
            trace();
        }
    }
    // no sigma label at all: a plain matcher
    let m = ok("new", SigmaMatcher::<W, Fv, &Fv, Sm>::new(c.side, NO_LABEL, c.mode, base(), allowed.clone()))?;
    for l in [EPS_LABEL, 1, 2, SIG, 4, NO_LABEL] {
        let what = format!("sigma matcher without sigma, label {l}");
        let got = no_panic(&what, || m.iter(1, l).map(|it| drain(it, 1, c.side, &what)))?;
        same(&what, ok(&what, got)??, plain(&f, 1, l, c.side))?;
    }
    if m.flags().contains(MatcherFlags::REQUIRE_MATCH) || ok("priority", m.priority(1))? != c.labels.len() {
        return Err("without a sigma label the matcher still requires matches".into());
    }
    if SigmaMatcher::<W, Fv, &Fv, Sm>::new(c.side, EPS_LABEL, c.mode, base(), None).is_ok()
        || SigmaMatcher::<W, Fv, &Fv, Sm>::new(MatchType::MatchBoth, SIG, c.mode, base(), None).is_ok()
    {
        return Err("an epsilon sigma label or two-sided matching was accepted".into());
    }
    Ok(())
}

const ML: [Label; 5] = [1, 2, 3, 5, NO_LABEL - 1];
/// ops: 0..5 add, 5..10 remove, 10 clear
fn check_multi(labels: &[Label], ops: &[usize], side: MatchType, flags: MultiEpsMatcherFlags) -> Result<(), String> {
    let f = machine(labels, side, false, true);
    type Sm<'a> = SortedMatcher<W, Fv, &'a Fv>;
    let mut m = ok("new", MultiEpsMatcher::<W, Fv, &Fv, Sm>::new_with_opts(&f, side, flags, None))?;
    let mut set = BTreeSet::new();
    for &o in ops {
        match o {
            0..=4 => {
                ok("add", m.add_multi_eps_label(ML[o]))?;
                set.insert(ML[o]);
            }
            5..=9 => {
                ok("remove", m.remove_multi_eps_label(ML[o - 5]))?;
                set.remove(&ML[o - 5]);
            }
            _ => {
                m.clear_multi_eps_labels();
                set.clear();
            }
        }
        transitions(1);
    }
    if m.add_multi_eps_label(EPS_LABEL).is_ok() || m.remove_multi_eps_label(EPS_LABEL).is_ok() {
        return Err("epsilon accepted as a multi-epsilon label".into());
    }
    let (lo, li) = (flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LOOP), flags.contains(MultiEpsMatcherFlags::MULTI_EPS_LIST));
    for s in [1u32, 2] {
        for l in [EPS_LABEL, 1, 2, 3, 4, 5, 6, NO_LABEL - 2, NO_LABEL - 1, NO_LABEL] {
            let what = format!("multi-epsilon matcher with {set:?} ({flags:?}), state {s}, label {l}");
            let mut want = plain(&f, s, l, side);
            if l == NO_LABEL && li {
                for &x in &set {
                    want.extend(plain(&f, s, x, side));
                }
            }
            if lo && set.contains(&l) {
                want = vec![eps_loop(s, side)];
            }
            let got = no_panic(&what, || m.iter(s, l).map(|it| drain(it, s, side, &what)))?;
            same(&what, ok(&what, got)??, want)?;
            trace();
        }
    }
    if m.final_weight(1).ok() != f.final_weight(1).ok() || m.priority(1).ok() != f.num_trs(1).ok() || m.flags() != m.matcher().flags() {
        return Err("final weight, priority or flags are not those of the wrapped matcher".into());
    }
    Ok(())
}

/// The second (or first) machine with its sigma transitions spelled out.
fn expand(m: &M<W>, input: bool, both: bool, allowed: &Option<Vec<Label>>) -> M<W> {
    let mut r = m.clone();
    for a in r.arcs.iter_mut() {
        let old = std::mem::take(a);
        for (i, o, w, to) in old {
            if (if input { i } else { o }) != SIG {
                a.push((i, o, w, to));
                continue;
            }
            for l in 1..SIG {
                if allowed.as_ref().map_or(true, |v| v.contains(&l)) {
                    let i2 = if input || (both && i == SIG) { l } else { i };
                    let o2 = if !input || (both && o == SIG) { l } else { o };
                    a.push((i2, o2, w.clone(), to));
                }
            }
        }
    }
    r
}
/// Plain product construction: matched moves, and independent moves on epsilon. It may contain a path several times,
/// which the (idempotent) tropical sum does not see.
fn product(a: &M<W>, b: &M<W>) -> M<W> {
    let (na, nb) = (a.arcs.len(), b.arcs.len());
    let mut r = M { start: None, fin: vec![None; na * nb], arcs: vec![vec![]; na * nb] };
    if let (Some(x), Some(y)) = (a.start, b.start) {
        r.start = Some(x * nb + y);
    }
    for x in 0..na {
        for y in 0..nb {
            let s = x * nb + y;
            if let (Some(u), Some(v)) = (&a.fin[x], &b.fin[y]) {
                r.fin[s] = Some(u.times(v).unwrap());
            }
            for (i, o, w, t) in &a.arcs[x] {
                if *o == 0 {
                    r.arcs[s].push((*i, 0, w.clone(), t * nb + y));
                    continue;
                }
                for (i2, o2, w2, t2) in &b.arcs[y] {
                    if i2 == o {
                        r.arcs[s].push((*i, *o2, w.times(w2).unwrap(), t * nb + t2));
                    }
                }
            }
            for (i2, o2, w2, t2) in &b.arcs[y] {
                if *i2 == 0 {
                    r.arcs[s].push((0, *o2, w2.clone(), x * nb + t2));
                }
            }
        }
    }
    r
}
#[derive(Clone, Debug)]
struct CompCase(MatcherRewriteMode, Option<Vec<Label>>, bool, ComposeFilterEnum);

fn check_compose(plain: &Aut, sig: &Aut, c: &CompCase) -> Result<(), String> {
    let sigma_first = c.2;
    let (a, b) = if sigma_first { (sig, plain) } else { (plain, sig) };
    let (mut fa, mut fb) = (a.fst_trop(), b.fst_trop());
    tr_sort(&mut fa, OLabelCompare {});
    tr_sort(&mut fb, ILabelCompare {});
    let both = match c.0 {
        MatcherRewriteMode::MatcherRewriteAuto => (if sigma_first { &fa } else { &fb }).properties().contains(FstProperties::ACCEPTOR),
        MatcherRewriteMode::MatcherRewriteAlways => true,
        _ => false,
    };
    let mut cfg = ComposeConfig { compose_filter: c.3, ..Default::default() };
    let mcfg = MatcherConfig {
        sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: SIG, rewrite_mode: c.0, sigma_allowed_matches: c.1.clone() }),
    };
    if sigma_first {
        cfg.matcher1_config = mcfg;
    } else {
        cfg.matcher2_config = mcfg;
    }
    let got: Fv = ok("compose", no_panic("compose", || compose_with_config::<W, Fv, Fv, _, _, Fv>(&fa, &fb, cfg))?)?;
    let (mut ma, mut mb) = (ok("m", M::of(&fa).map_err(|e| anyhow::anyhow!(e)))?, ok("m", M::of(&fb).map_err(|e| anyhow::anyhow!(e)))?);
    if sigma_first {
        ma = expand(&ma, false, both, &c.1);
    } else {
        mb = expand(&mb, true, both, &c.1);
    }
    const L: usize = 3;
    let Some(want) = relation(&product(&ma, &mb), L, L) else {
        skip();
        return Ok(());
    };
    let Some(rg) = relation(&ok("m", M::of(&got).map_err(|e| anyhow::anyhow!(e)))?, L, L) else {
        return Err("the composition has an epsilon cycle although the product of the operands has none".into());
    };
    if !want.is_empty() {
        nontrivial();
    }
    trace();
    cmp_rel("composition with sigma", &rg, &want, |x, y| x.value() == y.value())
}

fn main() {
    run("C27", "model_checking", |m| {
        let kmax = m.pick(6, 9);
        let seqs = |k: usize| -> Vec<Vec<Label>> {
            // every sorted label list up to length k over 0..=3
            let mut out = vec![];
            fn go(out: &mut Vec<Vec<Label>>, cur: &mut Vec<Label>, from: Label, k: usize) {
                out.push(cur.clone());
                if cur.len() < k {
                    for l in from..=3 {
                        cur.push(l);
                        go(out, cur, l, k);
                        cur.pop();
                    }
                }
            }
            go(&mut out, &mut vec![], 0, k);
            out
        };
        m.family(
            "sorted",
            "at every state and for every label (present, neighbouring, absent, epsilon, no-label, largest) the sorted matcher returns exactly the transitions with that label, plus the implicit loop for epsilon",
            Prod(seqs(kmax), vec![0usize, 1]),
            |(l, s)| {
                let f = machine(l, SIDES[*s], false, true);
                check_sorted(&f, l, SIDES[*s])?;
                if l.len() > 1 {
                    nontrivial();
                }
                let c: ConstFst<W> = f.clone().into();
                check_sorted(&c, l, SIDES[*s])?;
                check_type(&f, SIDES[*s], true)?;
                check_type(&c, SIDES[*s], true)
            },
        );
        // long lists: up to three runs of equal labels, every split
        let big = m.pick(24usize, 70);
        let mut runs = vec![];
        for n in [1usize, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65].into_iter().filter(|n| *n <= big) {
            for i in 0..=n {
                for j in i..=n {
                    for pal in [[0u32, 1, 2], [1, 5, 6], [2, NO_LABEL - 2, NO_LABEL - 1]] {
                        let v: Vec<Label> = (0..n).map(|k| if k < i { pal[0] } else if k < j { pal[1] } else { pal[2] }).collect();
                        runs.push(v);
                    }
                }
            }
        }
        m.family("sorted-runs", "the same on longer transition lists: every split of a list into up to three runs of equal labels", Prod(runs, vec![0usize, 1]), |(l, s)| {
            let f = machine(l, SIDES[*s], false, false);
            nontrivial();
            check_sorted(&f, l, SIDES[*s])
        });
        m.family(
            "match-type",
            "a matcher announces it can match exactly when the machine's transitions are known to be sorted on the matched side, and that it cannot when they are known not to be",
            Prod(Seqs { m: 4, kmin: 0, kmax: m.pick(4, 6) }, vec![0usize, 1]),
            |(l, s)| {
                let l: Vec<Label> = l.iter().map(|x| *x as Label).collect();
                let f = machine(&l, SIDES[*s], false, true);
                let sorted = l.windows(2).all(|w| w[0] <= w[1]);
                if !sorted {
                    nontrivial();
                }
                trace();
                for g in with_flags(&f) {
                    check_type(&g, SIDES[*s], sorted)?;
                }
                let c: ConstFst<W> = f.into();
                check_type(&c, SIDES[*s], sorted)
            },
        );
        let mut sc = vec![];
        for labels in seqs(m.pick(5, 7)) {
            for side in SIDES {
                for acceptor in [false, true] {
                    for mode in [MatcherRewriteMode::MatcherRewriteAuto, MatcherRewriteMode::MatcherRewriteAlways, MatcherRewriteMode::MatcherRewriteNever] {
                        for allowed in [None, Some(vec![]), Some(vec![1]), Some(vec![2, 4]), Some(vec![1, 2, SIG])] {
                            sc.push(SigmaCase { labels: labels.clone(), side, acceptor, mode, allowed });
                        }
                    }
                }
            }
        }
        m.family(
            "sigma",
            "the sigma matcher returns the explicit matches plus every sigma transition rewritten as configured, for allowed labels only, refuses the sigma label itself and claims priority exactly where sigma occurs",
            sc,
            |c| {
                if c.labels.contains(&SIG) {
                    nontrivial();
                }
                check_sigma(c)
            },
        );
        let mut lists: Vec<Vec<Label>> = vec![vec![], vec![0, 1, 1, 2, 3, 5, 5, NO_LABEL - 1], vec![2, 5], vec![1, 3, NO_LABEL - 1], vec![0, 0, 4, 4]];
        if m.thorough() {
            lists.extend(seqs(4));
        }
        m.family(
            "multi-eps",
            "after every history of adding, removing and clearing labels the multi-epsilon matcher treats exactly the registered labels as epsilons",
            Prod(Seqs { m: 11, kmin: 0, kmax: m.pick(4, 4) }, Prod(lists, vec![0usize, 1])),
            |(ops, (l, s))| {
                if !ops.is_empty() {
                    nontrivial();
                }
                for fl in 0..4u32 {
                    check_multi(l, ops, SIDES[*s], MultiEpsMatcherFlags::from_bits_truncate(fl))?;
                }
                Ok(())
            },
        );
        let mut cc = vec![];
        for mode in [MatcherRewriteMode::MatcherRewriteAuto, MatcherRewriteMode::MatcherRewriteAlways, MatcherRewriteMode::MatcherRewriteNever] {
            for allowed in [None, Some(vec![1]), Some(vec![])] {
                for side in [false, true] {
                    for filter in [ComposeFilterEnum::SequenceFilter, ComposeFilterEnum::AltSequenceFilter, ComposeFilterEnum::MatchFilter] {
                        cc.push(CompCase(mode, allowed.clone(), side, filter));
                    }
                }
            }
        }
        let plain: Vec<Aut> = Auts::new(2, m.pick(2, 3), &[(1, 1), (2, 2), (0, 1), (1, 0)]).collect(|a| a.is_trim());
        let sig: Vec<Aut> = Auts::new(2, m.pick(2, 3), &[(1, 1), (SIG, SIG), (SIG, 2), (1, SIG), (0, 1)])
            .collect(|a| a.is_trim() && a.arcs.iter().any(|x| x.i == SIG || x.o == SIG));
        m.family(
            "sigma-compose",
            "composition with a sigma matcher on either side is composition with the machine whose sigma transitions are spelled out",
            Prod(plain, Prod(sig, cc)),
            |(p, (s, c))| check_compose(p, s, c),
        );
        m.assumptions = vec![
            "label lists longer than the bound are covered only as up to three runs".into(),
            "the plain operand of a sigma composition does not use the sigma label".into(),
        ];
    })
}
