//! C02: recorded property flags never contradict the machine; computed flags are exactly the truth.
use mc::ops::*;
use mc::*;
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::fst_properties::{compute_fst_properties, FstProperties as P};
use rustfst::prelude::*;

type W = TropicalWeight;

// ---- edit histories -------------------------------------------------------------------------
type St = (Aut, u64);
struct Bound {
    n: usize,
    arcs: usize,
    pairs: Vec<(Label, Label)>,
    ws: Vec<i32>,
    edit: bool,
}
fn ops(a: &Aut, b: &Bound) -> Vec<Op> {
    let mut v = vec![Op::DelAll, Op::SortI, Op::SortO, Op::Sum, Op::Unique, Op::Compute];
    if a.n < b.n {
        v.push(Op::AddState);
        v.push(Op::AddStates(1));
    }
    for s in 0..a.n {
        v.push(Op::SetStart(s));
        v.push(Op::U(Box::new(Op::SetStart(s))));
        for w in &b.ws {
            v.push(Op::SetFinal(s, *w));
        }
        v.push(Op::DelFinal(s));
        v.push(Op::TakeFinal(s));
        v.push(Op::DelState(s));
        v.push(Op::DelStates(vec![s]));
        v.push(Op::DelTrs(s));
        v.push(Op::PopTrs(s));
        v.push(Op::U(Box::new(Op::PopTrs(s))));
        let k = a.arcs.iter().filter(|x| x.s == s).count();
        for p in &b.pairs {
            for w in &b.ws {
                for d in 0..a.n {
                    if a.arcs.len() < b.arcs {
                        v.push(Op::AddTr(s, p.0, p.1, *w, d));
                    }
                    for j in 0..k {
                        if b.edit {
                            v.push(Op::SetTr(s, j, p.0, p.1, *w, d));
                        }
                    }
                }
            }
            for j in 0..k {
                v.push(Op::SetIl(s, j, p.0));
                v.push(Op::U(Box::new(Op::SetIl(s, j, p.0))));
                v.push(Op::SetOl(s, j, p.1));
                v.push(Op::U(Box::new(Op::SetOl(s, j, p.1))));
                v.push(Op::SetLabels(s, j, p.0, p.1));
            }
        }
        for j in 0..k {
            for w in &b.ws {
                v.push(Op::SetW(s, j, *w));
            }
            for d in 0..a.n {
                v.push(Op::SetNext(s, j, d));
            }
        }
        for mask in 1..1usize << k {
            v.push(Op::DelTrId(s, (0..k).filter(|j| mask >> j & 1 == 1).collect()));
        }
    }
    v
}
fn build(s: &St) -> F {
    let mut f = s.0.fst_trop();
    f.set_properties(P::from_bits_truncate(s.1));
    f
}
fn step(s: &St, b: &Bound) -> Result<Vec<St>, String> {
    let f0 = build(s);
    let mut next = vec![];
    for op in ops(&s.0, b) {
        let mut f = f0.clone();
        apply(&mut f, &op);
        flags_ok(&format!("after {op:?}"), &f)?;
        next.push((read(&f)?, f.properties().bits()));
    }
    Ok(next)
}

// ---- computing flags ------------------------------------------------------------------------
fn compute(a: &Aut) -> Result<(), String> {
    let f = a.fst_trop();
    let t = Truth::of_fst(&f)?;
    nontrivial();
    let exact = |what: &str, got: P, known: P| -> Result<(), String> {
        trace();
        let judged = (t.yes | t.no) & known;
        if got & judged != t.yes & judged {
            return Err(format!("{what}: computed {:?}, truth {:?}", got & judged, t.yes & judged));
        }
        Ok(())
    };
    // everything
    let mut g = f.clone();
    let p = ok("compute", g.compute_and_update_properties_all())?;
    exact("compute_and_update_properties_all", p, P::all())?;
    exact("properties() after computing all", g.properties(), P::all())?;
    // each flag alone, each mask of one pair, stored or not
    let bits: Vec<P> = P::all().iter().collect();
    for b in &bits {
        for base in [&f, &g] {
            let mut h = base.clone();
            let p = ok("compute", h.compute_and_update_properties(*b))?;
            if (p & *b) != (t.yes & *b) && (t.yes | t.no).contains(*b) {
                return Err(format!("compute_and_update_properties({b:?}) answers {p:?}"));
            }
            t.check(&format!("flags recorded after computing {b:?}"), h.properties())?;
            let mut known = P::empty();
            let p = ok("compute", compute_fst_properties(base, *b, &mut known, false))?;
            if !known.contains(*b) {
                return Err(format!("compute_fst_properties({b:?}) leaves it unknown"));
            }
            exact(&format!("compute_fst_properties({b:?})"), p, *b)?;
            t.check(&format!("everything computed with {b:?}"), p)?;
            let p = ok("compute", compute_fst_properties(base, *b, &mut known, true))?;
            exact(&format!("compute_fst_properties({b:?}, stored)"), p, *b)?;
        }
    }
    // immutable copies
    let c: ConstFst<W> = g.clone().into();
    flags_ok("ConstFst", &c)?;
    let mut known = P::empty();
    let p = ok("compute", compute_fst_properties(&c, P::all(), &mut known, false))?;
    exact("compute_fst_properties on a ConstFst", p, P::all())?;
    Ok(())
}

// ---- algorithms -----------------------------------------------------------------------------
fn lazy_ok<X: Fst<W>>(what: &str, l: &X, c: anyhow::Result<F>) -> Result<(), String> {
    let p0 = l.properties();
    if let Ok(c) = c {
        flags_ok(&format!("{what}, computed"), &c)?;
        let t = Truth::of_fst(&c)?;
        // accessibility and numbering are those of the expansion, which visits every state
        t.check(&format!("{what}, delayed"), p0)?;
        t.check(&format!("{what}, delayed after expansion"), l.properties())?;
    }
    Ok(())
}
fn one(f: &F, a: &Aut, others: &[F], which: &[&str]) -> Result<(), String> {
    macro_rules! inplace {
        ($n:expr, |$g:ident| $e:expr) => {
            if which.is_empty() || which.contains(&$n) {
                let mut g0 = f.clone();
                let $g = &mut g0;
                let _ = $e;
                flags_ok($n, &g0)?;
            }
        };
    }
    macro_rules! make {
        ($n:expr, $t:ty, $e:expr) => {
            if which.is_empty() || which.contains(&$n) {
                let r: anyhow::Result<$t> = $e;
                if let Ok(g) = r {
                    flags_ok($n, &g)?;
                }
            }
        };
    }
    inplace!("invert", |g| invert(g));
    inplace!("project-input", |g| project(g, ProjectType::ProjectInput));
    inplace!("project-output", |g| project(g, ProjectType::ProjectOutput));
    inplace!("relabel-1to2", |g| relabel_pairs(g, vec![(1, 2)], vec![]));
    inplace!("relabel-out-to-eps", |g| relabel_pairs(g, vec![], vec![(1, 0)]));
    inplace!("relabel-eps-away", |g| relabel_pairs(g, vec![(0, 3)], vec![(0, 3)]));
    inplace!("connect", |g| connect(g));
    inplace!("rm_epsilon", |g| rm_epsilon(g));
    inplace!("rm_final_epsilon", |g| rm_final_epsilon(g));
    inplace!("closure-star", |g| closure(g, ClosureType::ClosureStar));
    inplace!("closure-plus", |g| closure(g, ClosureType::ClosurePlus));
    inplace!("top_sort", |g| top_sort(g));
    inplace!("tr_sort-i", |g| tr_sort(g, ILabelCompare {}));
    inplace!("tr_sort-o", |g| tr_sort(g, OLabelCompare {}));
    inplace!("tr_sum", |g| tr_sum(g));
    inplace!("tr_unique", |g| tr_unique(g));
    inplace!("state_sort-rev", |g| state_sort(g, &(0..a.n as StateId).rev().collect::<Vec<_>>()));
    inplace!("add_super_final_state", |g| add_super_final_state(g));
    for t in [EncodeType::EncodeLabels, EncodeType::EncodeWeights, EncodeType::EncodeWeightsAndLabels] {
        if which.is_empty() || which.contains(&"encode") {
            let mut g = f.clone();
            if let Ok(tab) = encode(&mut g, t) {
                flags_ok(&format!("encode {t:?}"), &g)?;
                if decode(&mut g, tab).is_ok() {
                    flags_ok(&format!("decode {t:?}"), &g)?;
                }
            }
        }
    }
    inplace!("tr_map identity", |g| tr_map(g, &IdentityTrMapper {}));
    inplace!("tr_map input epsilon", |g| tr_map(g, &InputEpsilonMapper {}));
    inplace!("tr_map output epsilon", |g| tr_map(g, &OutputEpsilonMapper {}));
    inplace!("tr_map invert weight", |g| tr_map(g, &InvertWeightMapper {}));
    inplace!("tr_map plus", |g| tr_map(g, &PlusMapper::new(0.0)));
    inplace!("tr_map times", |g| tr_map(g, &TimesMapper::new(1.0)));
    inplace!("tr_map quantize", |g| tr_map(g, &QuantizeMapper::new(4.0)));
    inplace!("tr_map rm weight", |g| tr_map(g, &RmWeightMapper {}));
    make!("weight_convert identity", F, weight_convert(f, &mut IdentityTrMapper {}));
    make!("weight_convert input epsilon", F, weight_convert(f, &mut InputEpsilonMapper {}));
    make!("weight_convert output epsilon", F, weight_convert(f, &mut OutputEpsilonMapper {}));
    make!("weight_convert invert", F, weight_convert(f, &mut InvertWeightMapper {}));
    make!("weight_convert plus", F, weight_convert(f, &mut PlusMapper::new(0.0)));
    make!("weight_convert times", F, weight_convert(f, &mut TimesMapper::new(1.0)));
    make!("weight_convert quantize", F, weight_convert(f, &mut QuantizeMapper::new(4.0)));
    make!("weight_convert rm weight", F, weight_convert(f, &mut RmWeightMapper {}));
    make!("weight_convert to log", VectorFst<LogWeight>, weight_convert(f, &mut SimpleWeightConverter {}));
    make!("weight_convert to probability", VectorFst<ProbabilityWeight>, weight_convert(f, &mut SimpleWeightConverter {}));
    make!("reverse", F, reverse(f));
    make!("condense", F, condense(f).map(|x| x.1));
    make!("fst_convert", F, Ok(fst_convert_from_ref(f)));
    make!("const", ConstFst<W>, Ok(f.clone().into()));
    make!("const-vector", F, Ok(fst_convert_from_ref::<W, ConstFst<W>, F>(&f.clone().into())));
    for d in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
        let n = if d == ReweightType::ReweightToInitial { "push_weights-initial" } else { "push_weights-final" };
        inplace!(n, |g| push_weights(g, d));
        inplace!(n, |g| push_weights_with_config(g, d, PushWeightsConfig::default().with_remove_total_weight(true)));
        let n = if d == ReweightType::ReweightToInitial { "reweight-initial" } else { "reweight-final" };
        inplace!(n, |g| reweight(g, &(0..a.n).map(|s| W::new(s as f32)).collect::<Vec<_>>(), d));
        inplace!(n, |g| reweight(g, &vec![W::one(); a.n], d));
        // label pushing needs every state on an accepting path
        if a.is_trim() && a.is_acyclic() {
            let n = if d == ReweightType::ReweightToInitial { "push-labels-initial" } else { "push-labels-final" };
            make!(n, F, push(f, d, PushType::PUSH_LABELS));
            make!(n, F, push(f, d, PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS));
        }
        if a.is_trim() {
            make!("push-weights", F, push(f, d, PushType::PUSH_WEIGHTS));
        }
    }
    make!("shortest_path", F, shortest_path(f));
    for (n, u) in [(1, false), (2, false), (2, true), (3, false)] {
        if u && !(a.is_acyclic() && a.arcs.iter().all(|x| x.i == x.o && x.i != 0)) {
            continue;
        }
        make!("shortest_path-n", F, shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(n).with_unique(u)));
    }
    let acceptor = a.arcs.iter().all(|x| x.i == x.o);
    if a.is_acyclic() {
        if acceptor {
            make!("determinize", F, determinize(f));
            if which.is_empty() || which.contains(&"minimize") {
                let r: anyhow::Result<F> = determinize(f);
                if let Ok(mut g) = r {
                    let _ = minimize(&mut g);
                    flags_ok("minimize", &g)?;
                }
                let mut g = f.clone();
                let _ = minimize_with_config(&mut g, MinimizeConfig::default().with_allow_nondet(true));
                flags_ok("minimize-nondet", &g)?;
            }
        } else {
            make!("determinize-transducer", F, determinize_with_config(f, DeterminizeConfig::default().with_det_type(DeterminizeType::DeterminizeNonFunctional)));
        }
        inplace!("optimize", |g| optimize(g));
    }
    inplace!("minimize", |g| minimize(g));
    // delayed operations
    if which.is_empty() || which.contains(&"lazy") {
        for t in [ClosureType::ClosureStar, ClosureType::ClosurePlus] {
            let l = ClosureFst::new(f.clone(), t).unwrap();
            lazy_ok("ClosureFst", &l, l.compute())?;
        }
        let l: RmEpsilonFst<W, F, _> = RmEpsilonFst::new(f.clone()).unwrap();
        lazy_ok("RmEpsilonFst", &l, l.compute())?;
    }
    for o in others {
        inplace!("union", |g| union(g, o));
        inplace!("concat", |g| concat(g, o));
        if which.is_empty() || which.contains(&"concat") {
            let mut g = o.clone();
            concat(&mut g, f).unwrap();
            flags_ok("concat (second operand)", &g)?;
            let mut g = o.clone();
            union(&mut g, f).unwrap();
            flags_ok("union (second operand)", &g)?;
        }
        if which.is_empty() || which.contains(&"lazy") {
            let l = UnionFst::new(f.clone(), o.clone()).unwrap();
            lazy_ok("UnionFst", &l, l.compute())?;
            let l = ConcatFst::new(f.clone(), o.clone()).unwrap();
            lazy_ok("ConcatFst", &l, l.compute())?;
            let l = ConcatFst::new(o.clone(), f.clone()).unwrap();
            lazy_ok("ConcatFst", &l, l.compute())?;
            if let Ok(l) = ComposeFst::<W, F, F, F, F, _, _, _, _>::new_auto(f.clone(), o.clone()) {
                lazy_ok("ComposeFst", &l, l.compute())?;
            }
            let mut g = f.clone();
            tr_sort(&mut g, OLabelCompare {});
            if let Ok(l) = ComposeFst::<W, F, F, F, F, _, _, _, _>::new_auto(g, o.clone()) {
                lazy_ok("ComposeFst, sorted", &l, l.compute())?;
            }
            for (l, eps) in [(1, true), (1, false), (2, true), (2, false)] {
                if a.arcs.iter().all(|x| x.o != l) {
                    if let Ok(l) = ReplaceFst::<W, F, F>::new(vec![(9, o.clone()), (l, f.clone())], 9, eps) {
                        lazy_ok("ReplaceFst", &l, l.compute())?;
                    }
                }
            }
        }
        for c in [true, false] {
            make!("compose", F, compose_with_config::<W, F, F, _, _, F>(f, o, ComposeConfig { connect: c, ..Default::default() }));
            make!("compose", F, compose_with_config::<W, F, F, _, _, F>(o, f, ComposeConfig { connect: c, ..Default::default() }));
            let mut g = f.clone();
            tr_sort(&mut g, OLabelCompare {});
            make!("compose", F, compose_with_config::<W, F, F, _, _, F>(&g, o, ComposeConfig { connect: c, ..Default::default() }));
            make!("compose", F, compose::<W, F, F, F, _, _>(g.clone(), o));
        }
        for eps in [true, false] {
            // a rule that calls itself expands for ever
            for l in [1, 2] {
                if a.arcs.iter().all(|x| x.o != l) {
                    make!("replace", F, replace::<W, F, F, F>(vec![(9, o.clone()), (l, f.clone())], 9, eps));
                    make!("replace", F, replace::<W, F, F, F>(vec![(l, f.clone()), (9, o.clone())], 9, eps));
                    if (0..o.num_states()).all(|q| o.get_trs(q as StateId).unwrap().trs().iter().all(|t| t.olabel == 0)) {
                        make!("replace", F, replace::<W, F, F, F>(vec![(l, f.clone()), (3 - l, o.clone())], l, eps));
                    }
                }
            }
        }
    }
    Ok(())
}
fn algs(a: &Aut, others: &[F], which: &[&str]) -> Result<(), String> {
    nontrivial();
    let b = a.fst_trop();
    flags_ok("as built", &b)?;
    for f in with_flags(&b) {
        one(&f, a, others, which)?;
    }
    Ok(())
}

/// The operations that add weights, over a semiring where one plus one is not one.
fn algs_log(a: &Aut) -> Result<(), String> {
    type L = VectorFst<LogWeight>;
    nontrivial();
    let lw = |c: i32| LogWeight::new(c as f32);
    let b: L = a.build(|_, c| lw(c), |_, c| lw(c));
    flags_ok("as built (log)", &b)?;
    let acceptor = a.arcs.iter().all(|x| x.i == x.o);
    for f in with_flags(&b) {
        let inplace = |what: &str, op: &dyn Fn(&mut L)| -> Result<(), String> {
            let mut g = f.clone();
            op(&mut g);
            trace();
            flags_ok(&format!("{what} (log)"), &g)
        };
        inplace("tr_sum", &|g| tr_sum(g))?;
        inplace("tr_sort, tr_sum", &|g| {
            tr_sort(g, ILabelCompare {});
            tr_sum(g)
        })?;
        inplace("tr_unique", &|g| tr_unique(g))?;
        inplace("rm_final_epsilon", &|g| drop(rm_final_epsilon(g)))?;
        inplace("connect", &|g| drop(connect(g)))?;
        inplace("add_super_final_state", &|g| drop(add_super_final_state(g)))?;
        inplace("closure-star", &|g| closure(g, ClosureType::ClosureStar))?;
        inplace("closure-plus", &|g| closure(g, ClosureType::ClosurePlus))?;
        inplace("union", &|g| drop(union(g, &f)))?;
        inplace("concat", &|g| drop(concat(g, &f)))?;
        inplace("tr_map plus", &|g| drop(tr_map(g, &PlusMapper::new(0.0))))?;
        inplace("tr_map times", &|g| drop(tr_map(g, &TimesMapper::new(0.0))))?;
        inplace("tr_map rm weight", &|g| drop(tr_map(g, &RmWeightMapper {})))?;
        for t in [EncodeType::EncodeWeights, EncodeType::EncodeWeightsAndLabels] {
            inplace("encode, decode", &|g| {
                if let Ok(t) = encode(g, t) {
                    drop(decode(g, t));
                }
            })?;
        }
        let (_, c): (_, L) = ok("condense", condense(&f))?;
        flags_ok("condense (log)", &c)?;
        if let Ok(c) = compose::<LogWeight, L, L, L, _, _>(f.clone(), f.clone()) {
            flags_ok("compose (log)", &c)?;
        }
        if a.is_acyclic() {
            inplace("rm_epsilon", &|g| drop(rm_epsilon(g)))?;
            inplace("push_weights-initial", &|g| drop(push_weights(g, ReweightType::ReweightToInitial)))?;
            inplace("push_weights-final", &|g| drop(push_weights(g, ReweightType::ReweightToFinal)))?;
            if acceptor {
                if let Ok(d) = determinize::<LogWeight, L, L>(&f) {
                    flags_ok("determinize (log)", &d)?;
                    let mut d = d;
                    drop(minimize(&mut d));
                    flags_ok("determinize, minimize (log)", &d)?;
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run("C02", "model_checking", |m| {
        let full = vec![(0, 0), (1, 1), (2, 0), (0, 1)];
        // computing
        m.family("compute-2", "all machines with <=2 states and <=3 arcs over 4 label pairs x 2 weights, any start: every flag and both polarities", {
            let mut v = vec![Aut::empty()];
            v.extend(Auts::new(1, 2, &full).all_starts().aw(&[0, 1]).fw(&[0, 1]).both_orders().collect(|_| true));
            v.extend(Auts::new(2, m.pick(2, 3), &full).all_starts().aw(&[0, 1]).fw(&[0, 1]).both_orders().collect(|_| true));
            v
        }, compute);
        m.family("compute-3", "all digraphs on 3 nodes, final sets, starts", Auts::new(3, 9, &[(1, 1)]).simple().all_starts(), compute);
        m.family("compute-3w", "all 3-state machines with <=3 arcs, weights 0/1", Auts::new(3, 3, &[(1, 1)]).aw(&[0, 1]).all_starts(), compute);
        let pat = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6, 7, 9, 12][..], &[4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 33][..]), 4, &[0, 1, 2, 3, 4]);
        m.family("compute-larger", "patterned machines of 4 to 12 (33) states: 5 shapes, 5 label profiles", &pat, compute);
        // edit histories
        let b = Bound { n: 2, arcs: 2, pairs: m.pick(vec![(0, 0), (1, 2)], vec![(0, 0), (1, 1), (2, 0)]), ws: vec![0, 1], edit: true };
        let ini = |f: F| (read(&f).unwrap(), f.properties().bits());
        let (n, done) = bfs(m, "edit-n2", "breadth-first closure of (machine, recorded flags) under all edits incl. recomputing the flags: <=2 states, <=2 transitions", vec![ini(F::new())], 60, |s| step(s, &b));
        m.assumptions.push(format!("edit-n2: {n} states (machine x flags), closed: {done}"));
        let b = Bound { n: 3, arcs: m.pick(1, 2), pairs: vec![(1, 1)], ws: vec![0], edit: true };
        let (n, done) = bfs(m, "edit-n3", "the same with <=3 states, <=1 (2) transitions, 1 label", vec![ini(F::new())], 60, |s| step(s, &b));
        m.assumptions.push(format!("edit-n3: {n} states (machine x flags), closed: {done}"));
        // algorithms
        let mut others: Vec<F> = vec![];
        for a in [
            Aut { n: 1, start: Some(0), fin: vec![Some(0)], arcs: vec![] },
            Aut { n: 2, start: Some(0), fin: vec![None, Some(1)], arcs: vec![Arc5 { s: 0, i: 1, o: 1, w: 0, d: 1 }, Arc5 { s: 0, i: 0, o: 2, w: 1, d: 1 }] },
            Aut { n: 2, start: Some(1), fin: vec![Some(0), None], arcs: vec![Arc5 { s: 1, i: 1, o: 2, w: 0, d: 0 }, Arc5 { s: 0, i: 2, o: 1, w: 0, d: 1 }] },
            Aut { n: 2, start: None, fin: vec![None, Some(0)], arcs: vec![Arc5 { s: 0, i: 2, o: 2, w: 0, d: 0 }] },
            Aut { n: 3, start: Some(0), fin: vec![None, Some(0), None], arcs: vec![Arc5 { s: 0, i: 0, o: 0, w: 0, d: 1 }] },
            Aut::empty(),
        ] {
            others.extend(with_flags(&a.fst_trop()));
        }
        m.family("algs-1", "all machines with <=1 state, <=2 arcs, any start: every algorithm, flags as built and fully computed, 12 second operands", {
            let mut v = vec![Aut::empty()];
            v.extend(Auts::new(1, 2, &full).all_starts().aw(&[0, 1]).fw(&[0, 1]).both_orders().collect(|_| true));
            v
        }, |a| algs(a, &others, &[]));
        m.family("algs-2", "all machines with 2 states, <=2 arcs (thorough 3), any start", Auts::new(2, 2, &full).all_starts().aw(&[0, 1]).fw(&[0, 1]).both_orders(), |a| algs(a, &others, &[]));
        m.family("algs-2x", "2 states, 3 arcs, start 0, unweighted", Auts::new(2, 3, &full).kmin(3).both_orders(), |a| algs(a, &others[..4], &[]));
        m.family("algs-3", "3 states, <=2 (3) arcs, starts 0, 2 and none", Auts::new(3, m.pick(2, 3), &full[..3]).starts(vec![Some(0), Some(2), None]), |a| algs(a, &others[2..6], &[]));
        m.family("algs-3x", "3 states, 3..4 arcs over one label, start 0 and 1", Auts::new(3, 4, &[(1, 1)]).kmin(3).starts(vec![Some(0), Some(1)]), |a| algs(a, &others[2..4], &[]));
        m.family("algs-log", "all machines with 2 states and <=3 arcs over 3 label pairs, weights one or not, any start, and 3 states and <=2 (3) arcs; operations that add weights, over log weights", {
            let mut v = Auts::new(2, 3, &[(1, 1), (0, 0), (1, 2)]).aw(&[0, 1]).all_starts().both_orders().collect(|_| true);
            v.extend(Auts::new(3, m.pick(2, 3), &[(1, 1), (0, 0), (1, 2)]).aw(&[0, 1]).starts(vec![Some(0), Some(2)]).collect(|_| true));
            v
        }, algs_log);
        m.assumptions.push("WEIGHTED/UNWEIGHTED are not judged for machines with a final state of weight zero".into());
    })
}
