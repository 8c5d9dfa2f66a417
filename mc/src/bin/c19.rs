//! C19: every query history on a delayed machine sees the same machine.
use mc::delayed::*;
use mc::*;
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::{GenericMatcher, MatchType, Matcher, SortedMatcher};
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::factor_weight::factor_iterators::{GallicFactor, GallicFactorLeft};
use rustfst::algorithms::factor_weight::{factor_weight, FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::lazy::{FirstCache, SimpleHashMapCache, SimpleVecCache};
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::algorithms::rm_epsilon::RmEpsilonFst;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::tr_sort;
use rustfst::algorithms::union::UnionFst;
use rustfst::prelude::*;
use std::sync::Arc;

const K: usize = 5;
type W = Co<K>;
type V = VectorFst<W>;
type P = Arc<V>;

fn reference<X: Semiring>(f: &VectorFst<X>) -> Result<M<X>, String> {
    let w = walk_all(f, 1000)?;
    if w.st.len() >= 3 {
        nontrivial();
    }
    Ok(w.canon())
}
fn explore<X: Semiring, F: Fst<X>>(what: &str, d: (usize, usize), mk: &dyn Fn() -> Result<F, String>, dup: Option<&dyn Fn(&F) -> F>, full: &VectorFst<X>) -> Result<(), String> {
    Explore { what, mk, dup, reference: reference(full)?, depth: d.0, width: d.1 }.run()
}

fn compositions(a: &Aut, b: &Aut, d: (usize, usize)) -> Result<(), String> {
    let (mut fa, mut fb): (V, V) = (a.fst_gen(0), b.fst_gen(a.ngen()));
    tr_sort(&mut fa, OLabelCompare {});
    tr_sort(&mut fb, ILabelCompare {});
    let (fa, fb) = (Arc::new(fa), Arc::new(fb));
    type Sm = SortedMatcher<W, V, P>;
    type Gm = GenericMatcher<W, V, P>;
    macro_rules! go {
        ($b:ident, $m:ident, $cache:ty, $what:expr, $clone:expr) => {{
            type B = $b<W, V, V, P, P, $m, $m>;
            type C = ComposeFst<W, V, V, P, P, $m, $m, B, $cache>;
            let mk = || {
                let m1 = ok("matcher", $m::new(fa.clone(), MatchType::MatchOutput))?;
                let m2 = ok("matcher", $m::new(fb.clone(), MatchType::MatchInput))?;
                let opts = ComposeFstOpOptions::<_, _, B, _>::new(m1, m2, None, None);
                ok("new", C::new_with_options(fa.clone(), fb.clone(), opts))
            };
            let full: V = ok("compute", mk()?.compute())?;
            let dup: Option<&dyn Fn(&C) -> C> = $clone;
            explore(concat!("composition, ", $what), d, &mk, dup, &full)?;
        }};
    }
    go!(SequenceComposeFilterBuilder, Sm, SimpleVecCache<W>, "sequence filter, vector cache", Some(&|c: &C| c.clone()));
    go!(SequenceComposeFilterBuilder, Gm, SimpleHashMapCache<W>, "sequence filter, hash-map cache", Some(&|c: &C| c.clone()));
    go!(AltSequenceComposeFilterBuilder, Sm, FirstCache<W, SimpleVecCache<W>>, "alternate sequence filter, last-answer cache over vector cache", None);
    go!(MatchComposeFilterBuilder, Sm, FirstCache<W, SimpleHashMapCache<W>>, "match filter, last-answer cache over hash-map cache", None);
    go!(SequenceComposeFilterBuilder, Sm, Arc<SimpleVecCache<W>>, "sequence filter, shared vector cache", Some(&|c: &C| c.clone()));
    Ok(())
}
fn rational(a: &Aut, b: &Aut, d: (usize, usize)) -> Result<(), String> {
    let (fa, fb): (V, V) = (a.fst_gen(0), b.fst_gen(a.ngen()));
    let mk = || ok("new", UnionFst::new(fa.clone(), fb.clone()));
    explore("union", d, &mk, None, &ok("compute", mk()?.compute())?)?;
    let mk = || ok("new", ConcatFst::new(fa.clone(), fb.clone()));
    explore("concatenation", d, &mk, None, &ok("compute", mk()?.compute())?)?;
    let mk = || ok("new", ReplaceFst::<W, V, V>::new(vec![(9, fa.clone()), (2, fb.clone())], 9, false));
    explore("replacement", d, &mk, None, &ok("compute", mk()?.compute())?)
}
fn unary(a: &Aut, d: (usize, usize)) -> Result<(), String> {
    let fa: V = a.fst_gen(0);
    for t in [ClosureType::ClosurePlus, ClosureType::ClosureStar] {
        let mk = || ok("new", ClosureFst::new(fa.clone(), t));
        explore("closure", d, &mk, None, &ok("compute", mk()?.compute())?)?;
    }
    let mk = || ok("new", RmEpsilonFst::<W, V, V>::new(fa.clone()));
    explore("epsilon removal", d, &mk, None, &ok("compute", mk()?.compute())?)
}
fn factoring(a: &Aut, d: (usize, usize)) -> Result<(), String> {
    type G = GallicWeightLeft<TropicalWeight>;
    let w = |k: usize, c: i32| -> G { (vec![(k % 3 + 1) as Label; c as usize], TropicalWeight::new(k as f32)).into() };
    let f: VectorFst<G> = a.build(w, w);
    for mode in [FactorWeightType::FACTOR_ARC_WEIGHTS, FactorWeightType::FACTOR_FINAL_WEIGHTS, FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS] {
        let mk = || ok("new", FactorWeightFst::<G, VectorFst<G>, VectorFst<G>, GallicFactorLeft<TropicalWeight>>::new(f.clone(), FactorWeightOptions::new(mode)));
        let full: VectorFst<G> = ok("factor_weight", factor_weight::<_, VectorFst<G>, _, _, GallicFactorLeft<_>>(&f, FactorWeightOptions::new(mode)))?;
        explore("factoring", d, &mk, None, &full)?;
    }
    type U = GallicWeight<TropicalWeight>;
    let w = |k: usize, c: i32| -> U {
        U::new((1..c as usize + 1).map(|j| GallicWeightRestrict::from((vec![(k % 3 + 1) as Label; j], TropicalWeight::new(k as f32)))).collect())
    };
    let f: VectorFst<U> = a.build(w, w);
    let mode = FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS;
    let mk = || ok("new", FactorWeightFst::<U, VectorFst<U>, VectorFst<U>, GallicFactor<TropicalWeight>>::new(f.clone(), FactorWeightOptions::new(mode)));
    let full: VectorFst<U> = ok("compute", mk()?.compute())?;
    explore("factoring into alternatives", d, &mk, None, &full)
}

fn main() {
    run("C19", "model_checking", |m| {
        let pa = [(1, 1), (0, 2), (1, 0), (0, 0)];
        let pb = [(1, 1), (2, 0), (0, 1), (0, 0)];
        let keep = |a: &Aut| a.is_canonical() && a.is_trim() && a.arcs.len() == 2 && a.fin.iter().filter(|f| f.is_some()).count() == 1;
        let a2 = Auts::new(2, 2, &pa).collect(keep);
        let b2 = Auts::new(2, 2, &pb).collect(keep);
        let d3 = (m.pick(3, 4), 3);
        m.family("composition", "all pairs of trim 2-state machines with two arcs; 5 filter/matcher/cache configurations; all query histories of length <=3 (thorough 4) over the first 3 known states, then re-asked, fully walked, cloned", Prod(&a2, &b2), |(a, b)| compositions(a, b, d3));
        let mut deg = vec![Aut::empty()];
        deg.extend(Auts::new(1, 1, &pa[..2]).all_starts().collect(|_| true));
        m.family("composition, degenerate", "all pairs of machines with <=1 state and <=1 arc, any start", Prod(&deg, &deg), |(a, b)| compositions(a, b, d3));
        let s = Auts::new(2, 2, &[(1, 1), (0, 2), (0, 0)]).collect(keep);
        let deep: Vec<(Aut, Aut)> = s.iter().zip(s.iter().rev()).map(|(a, b)| (a.clone(), b.clone())).collect();
        let d4 = (m.pick(4, 5), 3);
        m.family("composition, deep", "pairs from the same space matched one to one, longer histories", deep.clone(), |(a, b)| compositions(a, b, d4));
        m.family("union, concatenation, replacement", "all pairs of trim 2-state machines with two arcs (label 2 is a call of the second machine in replacement)", Prod(&s, Auts::new(2, 1, &[(1, 1), (0, 0)]).collect(|a| a.is_canonical())), |(a, b)| rational(a, b, d3));
        let u = Auts::new(2, 2, &[(1, 1), (0, 1), (0, 0)]).all_starts().collect(|_| true);
        m.family("closure, epsilon removal", "all 2-state machines with <=2 arcs, any start and finals", u, |a| unary(a, d3));
        let g = Auts::new(2, 2, &[(1, 1)]).aw(&[0, 1, 2]).fw(&[1, 3]).collect(|a| a.is_trim() && a.is_canonical() && (a.is_acyclic() || a.arcs.iter().all(|t| t.w <= 1)));
        m.family("factoring", "all trim 2-state machines with <=2 arcs carrying strings of length 0-2 and final strings of length 1 or 3 (strings longer than one label only on acyclic machines: others unfold without end)", g, |a| factoring(a, d3));
        m.assumptions = vec!["one expansion of a fresh instance gives the reference machine (its correctness is C06, C08, C13, C22)".into(), "only states already returned by the machine are asked about".into()];
    })
}
