//! C30: `optimize` keeps the weighted relation.
use mc::*;
use rustfst::algorithms::*;
use rustfst::fst_traits::*;
use rustfst::prelude::*;

trait Wt: WeaklyDivisibleSemiring + WeightQuantize {
    fn mk(c: i32) -> Self;
    fn near(&self, o: &Self) -> bool;
    const IDEMPOTENT: bool;
}
impl Wt for TropicalWeight {
    fn mk(c: i32) -> Self {
        Self::new(c as f32)
    }
    fn near(&self, o: &Self) -> bool {
        self.value() == o.value() || (self.value() - o.value()).abs() < 1e-2
    }
    const IDEMPOTENT: bool = true;
}
impl Wt for LogWeight {
    fn mk(c: i32) -> Self {
        Self::new(c as f32)
    }
    fn near(&self, o: &Self) -> bool {
        self.value() == o.value() || (self.value() - o.value()).abs() < 2e-2
    }
    const IDEMPOTENT: bool = false;
}
/// The relation of the machine the model `m` describes must survive `optimize`.
fn relation_kept<W: Wt>(a: &Aut, len: usize, states_rule: bool) -> Result<(), String>
where
    W::ReverseWeight: WeightQuantize,
    W: 'static,
{
    let m: M<W> = a.model(|_, c| W::mk(c), |_, c| W::mk(c));
    let Some(want) = relation(&m, len, len) else {
        skip();
        return Ok(());
    };
    let f = m.to_fst();
    let (xs, ys) = (std::sync::Arc::new(SymbolTable::new()), std::sync::Arc::new(rustfst::symt!["q"]));
    for (i, mut g) in with_flags(&f).into_iter().enumerate() {
        let what = if i == 0 { "optimize" } else { "optimize (all flags known)" };
        g.set_input_symbols(xs.clone());
        g.set_output_symbols(ys.clone());
        ok(what, optimize(&mut g))?;
        let got = rel_of(&g, len, len)?;
        cmp_rel(what, &got, &want, |x: &W, y| x.near(y))?;
        flags_ok(what, &g)?;
        if g.input_symbols() != Some(&xs) || g.output_symbols() != Some(&ys) {
            return Err(format!("{what}: symbol tables lost or exchanged"));
        }
        // a deterministic acceptor without epsilons never grows, save for the one start state that carries the
        // weight pushed out of a start state lying on a cycle
        let acceptor = a.arcs.iter().all(|t| t.i == t.o);
        let on_cycle = a.start.is_some_and(|s| a.arcs.iter().any(|t| t.d == s));
        let det = (0..m.n()).all(|s| m.arcs[s].iter().enumerate().all(|(k, t)| (t.0, t.1) != (0, 0) && m.arcs[s][..k].iter().all(|u| u.0 != t.0)));
        if i == 1 && states_rule && acceptor && det && g.num_states() > a.n + on_cycle as usize {
            return Err(format!("{what}: a deterministic machine of {} states comes out with {}", a.n, g.num_states()));
        }
        let unweighted = a.arcs.iter().all(|t| t.w == 0) && a.fin.iter().flatten().all(|w| *w == 0);
        if i == 1 && acceptor && W::IDEMPOTENT && a.arcs.iter().all(|t| t.i != 0) && (a.is_acyclic() || unweighted && det) {
            minimal(what, &M::of(&g)?)?;
        }
    }
    if want.len() > 1 {
        nontrivial();
    }
    trace();
    Ok(())
}
/// Deterministic, trim, and no two states with proportional futures.
fn minimal<W: Wt>(what: &str, m: &M<W>) -> Result<(), String> {
    let n = m.n();
    for s in 0..n {
        for (k, t) in m.arcs[s].iter().enumerate() {
            if m.arcs[s][..k].iter().any(|u| u.0 == t.0) {
                return Err(format!("{what}: the result is not deterministic at state {s}: {m:?}"));
            }
        }
    }
    let mut fut = vec![];
    for s in 0..n {
        let mut r = m.clone();
        r.start = Some(s);
        let r = relation(&r, n, n).unwrap();
        let mut tot = W::zero();
        for w in r.values() {
            tot.plus_assign(w).unwrap();
        }
        if r.is_empty() {
            return Err(format!("{what}: state {s} of the result leads nowhere: {m:?}"));
        }
        fut.push(r.into_iter().map(|(k, w)| (k, w.divide(&tot, DivideType::DivideLeft).unwrap())).collect::<Vec<_>>());
    }
    for s in 0..n {
        for t in 0..s {
            if fut[s].len() == fut[t].len() && fut[s].iter().zip(&fut[t]).all(|(x, y)| x.0 == y.0 && x.1.near(&y.1)) {
                return Err(format!("{what}: states {t} and {s} of the result have the same future: {m:?}"));
            }
        }
    }
    Ok(())
}

fn main() {
    run("C30", "model_checking", |m| {
        m.case_limit(20);
        let acc = [(0, 0), (1, 1), (2, 2)];
        let tra = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1)];
        type T = TropicalWeight;
        let v: Vec<Aut> = [Aut::empty()].into_iter().chain(Auts::new(1, 3, &tra).all_starts().aw(&[0, 2]).fw(&[0, 1]).collect(|_| true)).collect();
        m.family("one-state", "all machines of at most one state and 3 transitions, tropical weights", v, |a| relation_kept::<T>(a, 3, true));
        m.family("acceptors", "all 2-state acceptors, <=4 transitions over eps/1/2 with weights 0/2, any start", Auts::new(2, 4, &acc).all_starts().aw(&[0, 2]).fw(&[0, 1]), |a| relation_kept::<T>(a, 4, true));
        m.family("acceptors3", "all 3-state acceptors, <=3 (4) transitions over eps/1, weights 0/2", Auts::new(3, 3, &acc[..2]).aw(m.pick(&[0, 2], &[0, 1, 2])).fw(&[0, 1]), |a| relation_kept::<T>(a, 4, true));
        m.family("unweighted3", "all 3-state unweighted acceptors with <=4 (5) distinct transitions over 1/2", Auts::new(3, m.pick(4, 5), &acc[1..]).kmin(3).simple(), |a| relation_kept::<T>(a, 5, true));
        m.family("acyclic4", "all 4-state unweighted-or-weighted acyclic acceptors with 4..=5 distinct transitions over 1/2", Auts::new(4, m.pick(4, 5), &acc[1..]).kmin(4).simple().collect(|a| a.arcs.iter().all(|t| t.s < t.d) && a.fin[3].is_some()), |a| relation_kept::<T>(a, 4, true));
        m.family("acyclic3-weighted", "all 3-state acyclic acceptors with <=4 transitions over 1/2, weights 0/1/3", Auts::new(3, m.pick(3, 4), &acc[1..]).aw(&[0, 1, 3]).fw(&[0, 2]).collect(|a| a.arcs.iter().all(|t| t.s < t.d) && a.fin[2].is_some()), |a| relation_kept::<T>(a, 3, true));
        m.family("transducers", "all 2-state transducers, <=3 transitions over six label pairs, weights 0/2, any start", Auts::new(2, 3, &tra).all_starts().aw(&[0, 2]).fw(&[0, 1]), |a| relation_kept::<T>(a, 3, true));
        m.family("transducers3", "all 3-state transducers with <=3 distinct transitions over 1:1 1:2 1:eps eps:eps, weights 0/1", Auts::new(3, 3, &[(0, 0), (1, 0), (1, 1), (1, 2)]).simple().aw(m.pick(&[1], &[0, 1])).fw(&[0]), |a| relation_kept::<T>(a, 3, true));
        m.family("transducers-det", "all 2- and 3-state input-deterministic transducers over inputs 1/2, outputs eps/1/2", Cat(vec![
            Box::new(Dfas::new(2, &[1, 2]).outs(&[0, 1, 2]).aw(&[0, 1]).fw(&[0])),
            Box::new(Dfas::new(3, &[1]).outs(&[0, 1, 2]).aw(&[0, 1]).fw(&[0, 1])),
        ]), |a| relation_kept::<T>(a, 4, true));
        m.family("log-acceptors", "all 2-state log-weighted acceptors without epsilon, <=3 transitions over 1/2, weights 0/2", Auts::new(2, 3, &acc[1..]).aw(&[1, 2]).fw(&[1]), |a| relation_kept::<LogWeight>(a, 3, true));
        m.family("log-acyclic", "all 3-state acyclic log-weighted machines, <=3 (4) transitions over eps/1/2/1:2", Auts::new(3, m.pick(3, 4), &[(0, 0), (1, 1), (2, 2), (1, 2)]).aw(&[1, 2]).fw(&[1]).collect(|a| a.arcs.iter().all(|t| t.s < t.d) && a.fin[2].is_some()), |a| relation_kept::<LogWeight>(a, 3, true));
        m.family("larger", "patterned machines of 4 to 6 (8) states: 5 shapes, acceptors (with epsilons, big labels) and transducers", riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6][..], &[4, 5, 6, 7, 8][..]), 4, &[0, 1, 3, 4]), |a| relation_kept::<T>(a, 3, true));
        m.assumptions = vec![
            "relations compared on strings of bounded length; weights up to the quantisation the algorithms use".into(),
            "machines without convergent epsilon cycles are skipped".into(),
        ];
    })
}
