//! C34: every operation leaves, on each side of its result, the symbol table that names the labels found there.
use mc::ops::F;
use mc::*;
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::factor_weight::factor_iterators::IdentityFactor;
use rustfst::algorithms::factor_weight::{factor_weight, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::randgen::{randgen, randgen_with_config, RandGenConfig, UniformTrSelector};
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::sync::Arc;

type W = TropicalWeight;
type T = Option<Arc<SymbolTable>>;

fn tables() -> [Arc<SymbolTable>; 4] {
    [Arc::new(symt!["a", "b"]), Arc::new(symt!["x", "y", "z"]), Arc::new(symt!["p"]), Arc::new(symt!["q", "r"])]
}
fn attach(f: &mut F, i: &T, o: &T) {
    f.take_input_symbols();
    f.take_output_symbols();
    if let Some(t) = i {
        f.set_input_symbols(t.clone());
    }
    if let Some(t) = o {
        f.set_output_symbols(t.clone());
    }
}
fn show(t: Option<&Arc<SymbolTable>>) -> String {
    t.map_or("none".into(), |t| format!("{:?}", t.iter().map(|x| x.1.to_string()).collect::<Vec<_>>()))
}
fn has<V: Semiring, X: Fst<V>>(what: &str, f: &X, i: &T, o: &T) -> Result<(), String> {
    states(1);
    transitions(1);
    trace();
    if f.input_symbols() != i.as_ref() {
        return Err(format!("{what}: input table {}, expected {}", show(f.input_symbols()), show(i.as_ref())));
    }
    if f.output_symbols() != o.as_ref() {
        return Err(format!("{what}: output table {}, expected {}", show(f.output_symbols()), show(o.as_ref())));
    }
    Ok(())
}
fn unary(a: &Aut, i: &T, o: &T) -> Result<(), String> {
    let mut f = a.fst_trop();
    attach(&mut f, i, o);
    let f = &f;
    let n = f.num_states();
    macro_rules! inplace {
        ($n:expr, |$g:ident| $e:expr) => {{
            let mut g0 = f.clone();
            let $g = &mut g0;
            let _ = $e;
            has($n, &g0, i, o)?;
        }};
    }
    macro_rules! make {
        ($n:expr, $t:ty, $e:expr) => {{
            let r: anyhow::Result<$t> = $e;
            if let Ok(g) = r {
                has($n, &g, i, o)?;
            }
        }};
    }
    let mut g = f.clone();
    invert(&mut g);
    has("invert", &g, o, i)?;
    let mut g = f.clone();
    project(&mut g, ProjectType::ProjectInput);
    has("project to the input", &g, i, i)?;
    let mut g = f.clone();
    project(&mut g, ProjectType::ProjectOutput);
    has("project to the output", &g, o, o)?;
    inplace!("relabel_pairs", |g| relabel_pairs(g, vec![(1, 2)], vec![(0, 1)]));
    inplace!("connect", |g| connect(g));
    inplace!("rm_epsilon", |g| rm_epsilon(g));
    inplace!("rm_final_epsilon", |g| rm_final_epsilon(g));
    inplace!("closure star", |g| closure(g, ClosureType::ClosureStar));
    inplace!("closure plus", |g| closure(g, ClosureType::ClosurePlus));
    inplace!("top_sort", |g| top_sort(g));
    inplace!("tr_sort input", |g| tr_sort(g, ILabelCompare {}));
    inplace!("tr_sort output", |g| tr_sort(g, OLabelCompare {}));
    inplace!("tr_sum", |g| tr_sum(g));
    inplace!("tr_unique", |g| tr_unique(g));
    inplace!("state_sort", |g| state_sort(g, &(0..n as StateId).rev().collect::<Vec<_>>()));
    inplace!("add_super_final_state", |g| add_super_final_state(g));
    inplace!("tr_map times", |g| tr_map(g, &TimesMapper::new(1.0)));
    inplace!("del_all_states", |g| g.del_all_states());
    inplace!("del_states", |g| g.del_states((0..n as StateId).collect::<Vec<_>>()));
    inplace!("add_states", |g| g.add_states(2));
    inplace!("compute_and_update_properties_all", |g| g.compute_and_update_properties_all());
    for t in [EncodeType::EncodeLabels, EncodeType::EncodeWeights, EncodeType::EncodeWeightsAndLabels] {
        inplace!("encode and decode", |g| encode(g, t).and_then(|tab| decode(g, tab)));
    }
    make!("weight_convert identity", F, weight_convert(f, &mut IdentityTrMapper {}));
    make!("weight_convert to log", VectorFst<LogWeight>, weight_convert(f, &mut SimpleWeightConverter {}));
    make!("reverse", VectorFst<W>, reverse(f));
    make!("fst_convert_from_ref", F, Ok(fst_convert_from_ref(f)));
    make!("fst_convert", F, Ok(fst_convert(f.clone())));
    make!("const", ConstFst<W>, Ok(f.clone().into()));
    make!("const and back", F, Ok(fst_convert_from_ref::<W, ConstFst<W>, F>(&f.clone().into())));
    for d in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
        inplace!("push_weights", |g| push_weights(g, d));
        inplace!("push_weights without the total", |g| push_weights_with_config(g, d, PushWeightsConfig::default().with_remove_total_weight(true)));
        inplace!("reweight", |g| reweight(g, &vec![W::one(); n], d));
        if a.is_trim() {
            make!("push weights", F, push(f, d, PushType::PUSH_WEIGHTS));
            if a.is_acyclic() {
                make!("push labels", F, push(f, d, PushType::PUSH_LABELS));
                make!("push both", F, push(f, d, PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS));
            }
        }
    }
    make!("shortest_path", F, shortest_path(f));
    for k in [1, 2, 3] {
        make!("shortest_path n", F, shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(k)));
    }
    if a.start.is_none() || a.is_trim() && a.is_acyclic() {
        make!("randgen", F, randgen(f));
    }
    if a.start.is_none() || a.is_trim() {
        for w in [false, true] {
            make!("randgen 2", F, randgen_with_config(f, RandGenConfig::new(UniformTrSelector::from_seed(1)).with_npath(2).with_max_length(3).with_weighted(w)));
        }
    }
    let acceptor = a.arcs.iter().all(|x| x.i == x.o);
    if a.is_acyclic() {
        if acceptor {
            make!("shortest_path unique", F, shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(2).with_unique(true)));
            make!("determinize", F, determinize(f));
            inplace!("minimize nondet", |g| minimize_with_config(g, MinimizeConfig::default().with_allow_nondet(true)));
        } else {
            make!("determinize transducer", F, determinize_with_config(f, DeterminizeConfig::default().with_det_type(DeterminizeType::DeterminizeNonFunctional)));
        }
        inplace!("optimize", |g| optimize(g));
    }
    inplace!("minimize", |g| minimize(g));
    make!("factor_weight", F, factor_weight::<_, F, _, _, IdentityFactor<W>>(f, FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS)));
    for t in [ClosureType::ClosureStar, ClosureType::ClosurePlus] {
        let l = ClosureFst::new(f.clone(), t).unwrap();
        has("ClosureFst", &l, i, o)?;
        make!("ClosureFst computed", F, l.compute());
    }
    let l: RmEpsilonFst<W, F, _> = RmEpsilonFst::new(f.clone()).unwrap();
    has("RmEpsilonFst", &l, i, o)?;
    make!("RmEpsilonFst computed", F, l.compute());
    // tables can be exchanged and taken away everywhere
    let [x, y, ..] = tables();
    let c: ConstFst<W> = f.clone().into();
    let cl = ClosureFst::new(f.clone(), ClosureType::ClosureStar).unwrap();
    macro_rules! swap {
        ($n:expr, $h:expr) => {{
            let mut h = $h;
            if (h.take_input_symbols(), h.take_output_symbols()) != (i.clone(), o.clone()) {
                return Err(format!("{}: take_*_symbols gives something else", $n));
            }
            has($n, &h, &None, &None)?;
            h.set_input_symbols(y.clone());
            has($n, &h, &Some(y.clone()), &None)?;
            h.set_output_symbols(x.clone());
            has($n, &h, &Some(y.clone()), &Some(x.clone()))?;
        }};
    }
    swap!("vector", f.clone());
    swap!("const", c);
    swap!("closure", cl);
    swap!("rm_epsilon", l);
    if a.start.is_some() {
        nontrivial();
    }
    Ok(())
}
fn filters() -> Vec<ComposeFilterEnum> {
    use ComposeFilterEnum::*;
    vec![AutoFilter, TrivialFilter, SequenceFilter, AltSequenceFilter, MatchFilter, NoMatchFilter]
}
fn binary(a: &Aut, b: &Aut, k: usize) -> Result<(), String> {
    let [ti, to, ui, uo] = tables();
    let pick = |bit: usize, t: &Arc<SymbolTable>| (k >> bit & 1 == 1).then(|| t.clone());
    let (i1, o1, i2, o2) = (pick(0, &ti), pick(1, &to), pick(2, &ui), pick(3, &uo));
    let (mut f, mut g) = (a.fst_trop(), b.fst_trop());
    attach(&mut f, &i1, &o1);
    attach(&mut g, &i2, &o2);
    let mut h = f.clone();
    ok("concat", concat(&mut h, &g))?;
    has("concat", &h, &i1, &o1)?;
    let mut h = f.clone();
    ok("union", union(&mut h, &g))?;
    has("union", &h, &i1, &o1)?;
    let mut l = UnionFst::new(f.clone(), g.clone()).unwrap();
    has("UnionFst", &l, &i1, &o1)?;
    has("UnionFst computed", &ok("compute", l.compute::<F>())?, &i1, &o1)?;
    if (l.take_input_symbols(), l.take_output_symbols()) != (i1.clone(), o1.clone()) || l.input_symbols().is_some() || l.output_symbols().is_some() {
        return Err("UnionFst: take_*_symbols".into());
    }
    let mut l = ConcatFst::new(f.clone(), g.clone()).unwrap();
    has("ConcatFst", &l, &i1, &o1)?;
    has("ConcatFst computed", &ok("compute", l.compute::<F>())?, &i1, &o1)?;
    if (l.take_input_symbols(), l.take_output_symbols()) != (i1.clone(), o1.clone()) || l.input_symbols().is_some() || l.output_symbols().is_some() {
        return Err("ConcatFst: take_*_symbols".into());
    }
    // a rule that calls itself expands for ever
    for eps in [false, true].into_iter().filter(|_| b.arcs.iter().all(|t| t.o != 9)) {
        // label 9 calls g; the table is that of the first machine of the list
        let l: anyhow::Result<ReplaceFst<W, F, F>> = ReplaceFst::new(vec![(8, f.clone()), (9, g.clone())], 8, eps);
        if let Ok(l) = l {
            has("ReplaceFst", &l, &i1, &o1)?;
            has("ReplaceFst computed", &ok("compute", l.compute::<F>())?, &i1, &o1)?;
        }
        if let Ok(h) = replace::<W, F, F, F>(vec![(8, f.clone()), (9, g.clone())], 8, eps) {
            has("replace", &h, &i1, &o1)?;
        }
    }
    // composition: no table on a side means it is not checked against the other
    tr_sort(&mut f, OLabelCompare {});
    tr_sort(&mut g, ILabelCompare {});
    for flt in filters() {
        for connect in [true, false] {
            if let Ok(h) = compose_with_config::<W, F, F, _, _, F>(f.clone(), g.clone(), ComposeConfig { compose_filter: flt, connect, ..Default::default() }) {
                has(&format!("compose {flt:?}"), &h, &i1, &o2)?;
            }
        }
    }
    if let Ok(h) = compose::<W, F, F, F, _, _>(f.clone(), g.clone()) {
        has("compose", &h, &i1, &o2)?;
    }
    let l: anyhow::Result<ComposeFst<W, F, F, _, _, _, _, _, _>> = ComposeFst::new_auto(f.clone(), g.clone());
    let mut l = ok("ComposeFst", l)?;
    has("ComposeFst", &l, &i1, &o2)?;
    has("ComposeFst computed", &ok("compute", l.compute::<F>())?, &i1, &o2)?;
    if (l.take_input_symbols(), l.take_output_symbols()) != (i1, o2) || l.input_symbols().is_some() || l.output_symbols().is_some() {
        return Err("ComposeFst: take_*_symbols".into());
    }
    if a.start.is_some() && b.start.is_some() {
        nontrivial();
    }
    Ok(())
}

fn main() {
    run("C34", "model_checking", |m| {
        let tra = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)];
        let [x, y, ..] = tables();
        let pairs: Vec<(T, T)> = vec![(None, None), (Some(x.clone()), None), (None, Some(y.clone())), (Some(x.clone()), Some(y.clone())), (Some(x.clone()), Some(x))];
        let mut small = vec![Aut::empty()];
        small.extend(Auts::new(1, 2, &tra).all_starts().aw(&[1]).fw(&[0, 1]).collect(|_| true));
        let pr = pairs.clone();
        m.family("one operand, <=1 state", "all machines of at most one state and 2 transitions x 5 attachments of tables: every operation", Prod(small.clone(), (0..5).collect::<Vec<usize>>()), move |(a, k)| unary(a, &pr[*k].0, &pr[*k].1));
        let pr = pairs.clone();
        m.family("one operand, 2 states", "all 2-state machines with <=2 (3) transitions, any start x 5 attachments", Prod(Auts::new(2, m.pick(2, 3), &tra).all_starts().aw(&[1]).fw(m.pick(&[0][..], &[0, 1][..])).collect(|_| true), (0..5).collect::<Vec<usize>>()), move |(a, k)| unary(a, &pr[*k].0, &pr[*k].1));
        let pr = pairs.clone();
        m.family("one operand, larger", "patterned machines of 3 to 6 (9) states x 5 attachments", Prod(riches(&[0, 1, 2, 3, 4], m.pick(&[3, 4, 5, 6][..], &[3, 4, 5, 6, 7, 8, 9][..]), m.pick(2, 4), &[0, 1, 3]), (0..5).collect::<Vec<usize>>()), move |(a, k)| unary(a, &pr[*k].0, &pr[*k].1));
        let two: Vec<Aut> = small.iter().filter(|a| a.arcs.len() < 2 && a.fin.iter().all(|w| *w != Some(1))).cloned().chain(Auts::new(2, m.pick(1, 2), &[(0, 0), (1, 1), (1, 9)]).all_starts().collect(|a| a.arcs.iter().all(|t| t.s < t.d))).collect();
        m.family("two operands", "all pairs of machines of <=2 states and <=1 (2) transitions x the 16 ways of attaching 4 tables", Prod(Prod(two.clone(), two), (0..16).collect::<Vec<usize>>()), |((a, b), k)| binary(a, b, *k));
        m.assumptions = vec!["composition of machines whose facing tables differ may be refused".into()];
    })
}
