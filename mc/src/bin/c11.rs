//! C11: determinization.
use mc::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::shortest_distance;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeMap;

type T = TropicalWeight;
fn trop_int(w: &T) -> f32 {
    *w.value()
}
/// Pairs of states reachable on the same input string, and the pair edges with their weight difference.
fn pairs(a: &Aut) -> (Vec<bool>, Vec<(usize, usize, i32)>) {
    let n = a.n;
    let mut on = vec![false; n * n];
    let mut q = vec![];
    if let Some(s) = a.start {
        on[s * n + s] = true;
        q.push((s, s));
    }
    let mut edges = vec![];
    while let Some((x, y)) = q.pop() {
        for t in a.arcs.iter().filter(|t| t.s == x) {
            for u in a.arcs.iter().filter(|u| u.s == y && u.i == t.i) {
                let d = t.d * n + u.d;
                edges.push((x * n + y, d, t.w - u.w));
                if !on[d] {
                    on[d] = true;
                    q.push((t.d, u.d));
                }
            }
        }
    }
    (on, edges)
}
/// Twins property of a weighted acceptor: cycles on a common string from two states reached by a common string
/// have equal weight. Sufficient for the subset construction to be finite.
fn twins(a: &Aut) -> bool {
    let n2 = a.n * a.n;
    let (_, e) = pairs(a);
    // a cycle of non-zero weight exists iff Bellman-Ford (min or max) does not settle
    for sign in [1, -1] {
        let mut d = vec![0i64; n2];
        for round in 0..=n2 {
            let mut ch = false;
            for (x, y, w) in &e {
                let v = d[*x] + (sign * *w) as i64;
                if v < d[*y] {
                    d[*y] = v;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
            if round == n2 {
                return false;
            }
        }
    }
    true
}
/// No cycle through pairs of distinct states: string residuals are bounded.
fn bounded_delay(a: &Aut) -> bool {
    let n = a.n;
    let (_, e) = pairs(a);
    let off = |p: usize| p / n != p % n;
    let mut tc = vec![vec![false; n * n]; n * n];
    for (x, y, _) in &e {
        if off(*x) && off(*y) {
            tc[*x][*y] = true;
        }
    }
    for k in 0..n * n {
        for i in 0..n * n {
            if tc[i][k] {
                for j in 0..n * n {
                    if tc[k][j] {
                        tc[i][j] = true;
                    }
                }
            }
        }
    }
    (0..n * n).all(|p| !tc[p][p])
}
fn det<W: Semiring>(what: &str, m: &M<W>, eps_too: bool) -> Result<(), String> {
    for (s, v) in m.arcs.iter().enumerate() {
        let mut l: Vec<_> = v.iter().map(|t| t.0).filter(|l| eps_too || *l != 0).collect();
        l.sort_unstable();
        if l.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("{what}: state {s} has two transitions with the same input label: {:?}", m.arcs[s]));
        }
    }
    Ok(())
}
fn acceptor<W>(f: &VectorFst<W>, m: &M<W>, len: usize, eq: impl Fn(&W, &W) -> bool + Copy) -> Result<(), String>
where
    W: WeaklyDivisibleSemiring + WeightQuantize,
{
    let rel = relation(m, len, len).ok_or("no relation")?;
    if !rel.is_empty() {
        nontrivial();
    }
    for mut v in with_flags(f) {
        ok("properties", v.compute_and_update_properties(FstProperties::ACCEPTOR))?;
        let g: VectorFst<W> = ok("determinize", determinize(&v))?;
        let r = M::of(&g)?;
        det("determinize", &r, true)?;
        cmp_rel("determinized acceptor", &relation(&r, len, len).ok_or("determinized acceptor: no relation")?, &rel, eq)?;
        if r.arcs.iter().flatten().any(|t| t.0 != t.1) {
            return Err("determinizing an acceptor gave a transducer".into());
        }
        flags_ok("determinize", &g)?;
        if M::of(&v)? != *m {
            return Err("determinize modified its input".into());
        }
        let h: VectorFst<W> = ok("determinize", determinize(&v))?;
        if M::of(&h)? != r {
            return Err("determinizing the same machine twice gives different machines".into());
        }
        let c: ConstFst<W> = v.into();
        let h: VectorFst<W> = ok("determinize", determinize(&c))?;
        if M::of(&h)? != r {
            return Err("determinizing the immutable copy gives a different machine".into());
        }
        trace();
    }
    Ok(())
}
fn trop_acc(a: &Aut, len: usize) -> Result<(), String> {
    if !twins(a) {
        skip();
        return Ok(());
    }
    acceptor(&a.fst_trop(), &a.m_trop(), len, eq_exact)?;
    // with distances
    let mut f = a.fst_trop();
    ok("properties", f.compute_and_update_properties_all())?;
    let mut d = ok("shortest_distance", shortest_distance(&f, true))?;
    d.resize(a.n, T::zero());
    let (g, dist): (VectorFst<T>, Vec<T>) = ok("determinize_with_distance", determinize_with_distance(&f, &d, 1e-6))?;
    let want = ok("shortest_distance", shortest_distance(&g, true))?;
    if dist.len() != g.num_states() {
        return Err(format!("determinize_with_distance: {} distances for {} states", dist.len(), g.num_states()));
    }
    for (s, x) in dist.iter().enumerate() {
        let y = want.as_slice().get(s).copied().unwrap_or(T::zero());
        if *x != y {
            return Err(format!("determinize_with_distance: distance of state {s} is {x:?}, should be {y:?}"));
        }
    }
    cmp_rel("determinize_with_distance", &rel_of(&g, len, len)?, &relation(&a.m_trop(), len, len).unwrap(), eq_exact)?;
    trace();
    Ok(())
}
fn log_acc(a: &Aut, len: usize) -> Result<(), String> {
    let f: VectorFst<LogWeight> = a.build(|_, w| LogWeight::new(w as f32), |_, w| LogWeight::new(w as f32));
    let m = a.model(|_, w| LogWeight::new(w as f32), |_, w| LogWeight::new(w as f32));
    acceptor(&f, &m, len, |x, y| (x.value() - y.value()).abs() < 1e-2 || x == y)
}
fn run_mode(v: &VectorFst<T>, ty: DeterminizeType) -> anyhow::Result<VectorFst<T>> {
    determinize_with_config(v, DeterminizeConfig::default().with_det_type(ty))
}
/// Trim transducers without input epsilons, bounded delay.
fn transducer(a: &Aut, len: usize) -> Result<(), String> {
    let olen = len + 1;
    let rel = relation(&a.m_trop(), len, olen).ok_or("no relation")?;
    let mut by_in: BTreeMap<Str, BTreeMap<Str, T>> = BTreeMap::new();
    for ((i, o), w) in &rel {
        by_in.entry(*i).or_default().insert(*o, *w);
    }
    let functional = by_in.values().all(|m| m.len() == 1);
    let dup = {
        let (on, _) = pairs(a);
        (0..a.n).any(|x| (0..a.n).any(|y| x != y && on[x * a.n + y]))
    };
    if dup {
        nontrivial();
    }
    for v in with_flags(&a.fst_trop()) {
        // functional
        match run_mode(&v, DeterminizeType::DeterminizeFunctional) {
            Ok(g) => {
                if !functional && v.properties().contains(FstProperties::NOT_ACCEPTOR) {
                    return Err("functional determinization accepted a non-functional transducer".into());
                }
                if functional {
                    det("functional determinization", &M::of(&g)?, true)?;
                    cmp_rel("functional determinization", &rel_of(&g, len, olen)?, &rel, eq_exact)?;
                    flags_ok("functional determinization", &g)?;
                }
            }
            Err(e) => {
                if functional {
                    return Err(format!("functional determinization failed on a functional transducer: {e:#}"));
                }
            }
        }
        trace();
        if !functional && !a.is_acyclic() {
            // the set of outputs of one input may be unbounded: no deterministic machine exists
            continue;
        }
        // non functional
        let g = ok("non-functional determinization", run_mode(&v, DeterminizeType::DeterminizeNonFunctional))?;
        det("non-functional determinization", &M::of(&g)?, false)?;
        cmp_rel("non-functional determinization", &rel_of(&g, len, olen)?, &rel, eq_exact)?;
        flags_ok("non-functional determinization", &g)?;
        trace();
        // disambiguation
        let g = ok("disambiguating determinization", run_mode(&v, DeterminizeType::DeterminizeDisambiguate))?;
        det("disambiguating determinization", &M::of(&g)?, true)?;
        flags_ok("disambiguating determinization", &g)?;
        let got = rel_of(&g, len, olen)?;
        let mut seen: BTreeMap<Str, usize> = BTreeMap::new();
        for ((i, o), w) in &got {
            *seen.entry(*i).or_default() += 1;
            let Some(c) = by_in.get(i) else { return Err(format!("disambiguation accepts {:?}, the input does not", unpack(*i))) };
            let best = c.values().map(trop_int).fold(f32::INFINITY, f32::min);
            if c.get(o) != Some(w) || trop_int(w) != best {
                return Err(format!("disambiguation maps {:?} to {:?} with weight {w:?}; candidates {}", unpack(*i), unpack(*o), show_rel(&rel)));
            }
        }
        for i in by_in.keys() {
            if seen.get(i) != Some(&1) {
                return Err(format!("disambiguation gives {:?} outputs for {:?}", seen.get(i).unwrap_or(&0), unpack(*i)));
            }
        }
        trace();
    }
    Ok(())
}
fn tkeep(a: &Aut) -> bool {
    a.is_trim() && bounded_delay(a) && twins(a) && a.arcs.iter().any(|t| t.i != t.o)
}
/// Wide ambiguity: k parallel branches reading the same string, reconverging, with patterned weights.
fn fan(k: usize, depth: usize, seed: usize) -> Aut {
    let n = 2 + k * depth;
    let mut a = Aut { n, start: Some(n - 1), fin: vec![None; n], arcs: vec![] };
    a.fin[0] = Some(1);
    let w = |x: usize| ((x * 5 + seed * 3 + x * x * seed) % 7) as i32;
    let st = |b: usize, d: usize| 1 + ((b * 7 + seed) % k) + d * k;
    for b in 0..k {
        a.arcs.push(Arc5 { s: n - 1, i: 1, o: 1, w: w(b), d: st(b, 0) });
        for d in 1..depth {
            a.arcs.push(Arc5 { s: st(b, d - 1), i: 1, o: 1, w: w(b + d), d: st(b, d) });
            a.arcs.push(Arc5 { s: st(b, d - 1), i: 2, o: 2, w: w(b + 2 * d), d: st((b + 1) % k, d) });
        }
        a.arcs.push(Arc5 { s: st(b, depth - 1), i: 1 + (b % 2) as Label, o: 1 + (b % 2) as Label, w: w(b + 3), d: 0 });
        if b % 2 == 0 {
            a.fin[st(b, depth - 1)] = Some(w(b));
        }
    }
    a
}
fn main() {
    run("C11", "model_checking", |m| {
        let p = [(1, 1), (2, 2)];
        let pe = [(1, 1), (2, 2), (0, 0)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 3, &pe).aw(&[0, 1]).fw(&[0, 2]).all_starts().collect(|a| a.arcs.iter().all(|t| t.i != 0 || t.w == 0)));
        m.family("n<=1", "all acceptors with <=1 state, <=3 arcs over eps,1,2", v, |a| trop_acc(a, 4));
        m.family("unweighted-2", "all unweighted 2-state acceptors, <=4 (5) arcs over 2 labels, any start", Auts::new(2, m.pick(4, 5), &p).all_starts(), |a| trop_acc(a, 5));
        m.family("unweighted-3", "all unweighted 3-state acceptors, <=4 (5) arcs over 2 labels, start 0 or 1", Auts::new(3, m.pick(4, 5), &p).starts(vec![Some(0), Some(1)]), |a| trop_acc(a, 5));
        m.family("unweighted-4", "all unweighted 4-state one-label acceptors, <=5 (6) distinct arcs", Auts::new(4, m.pick(5, 6), &[(1, 1)]).simple().starts(vec![Some(3)]), |a| trop_acc(a, 6));
        m.family("epsilon-as-label", "all 2-state acceptors, <=3 (4) arcs over eps,1 without weight", Auts::new(2, m.pick(3, 4), &[(1, 1), (0, 0)]).all_starts(), |a| trop_acc(a, 4));
        m.family("weighted-2", "all 2-state acceptors with the twins property, <=3 (4) arcs over 2 labels, weights {0,1,3}, finals {0,2}", Auts::new(2, m.pick(3, 4), &p).aw(&[0, 1, 3]).fw(&[0, 2]).all_starts(), |a| trop_acc(a, 5));
        m.family("weighted-3", "all 3-state acceptors with the twins property, 3..=4 (5) arcs over 1 label, weights {0,1}, finals {0,2}", Auts::new(3, m.pick(4, 5), &[(1, 1)]).kmin(3).aw(&[0, 1]).fw(&[0, 2]), |a| trop_acc(a, 5));
        m.family("acyclic-4", "all acyclic 4-state acceptors numbered forward, <=5 (6) arcs of one label, weights {0,2}", Auts::new(4, m.pick(5, 6), &[(1, 1)]).aw(&[0, 2]).fw(&[0, 1]).collect(|a| a.arcs.iter().all(|t| t.s < t.d)), |a| trop_acc(a, 4));
        m.family("log", "all acyclic 3-state acceptors, <=4 (5) arcs over 2 labels, log weights {1,2}", Auts::new(3, m.pick(4, 5), &p).aw(&[1, 2]).fw(&[1]).starts(vec![Some(0), Some(2)]).collect(|a| a.is_acyclic()), |a| log_acc(a, 3));
        let r = |lo: usize, hi: usize| (lo..hi).collect::<Vec<usize>>();
        m.family("fan", "fans of k<=7 ambiguous branches of depth<=4, permuted, patterned weights", Prod(Prod(r(2, 8), r(1, 5)), r(0, m.pick(20, 100))), |((k, d), s)| trop_acc(&fan(*k, *d, *s), 6));
        let pat: Vec<Aut> = riches(&[2, 3], m.pick(&[4, 5, 6][..], &[4, 5, 6, 7, 8][..]), 4, &[0, 3, 4]).into_iter().collect();
        m.family("larger acyclic", "patterned complete acyclic acceptors of 4 to 6 (8) states with weights", pat, |a| trop_acc(a, 4));
        let pat: Vec<Aut> = riches(&[0, 1, 4], m.pick(&[4, 5, 7, 9][..], &[4, 5, 6, 7, 9, 12, 15][..]), 4, &[0, 3])
            .into_iter()
            .map(|mut a| {
                a.arcs.iter_mut().for_each(|t| t.w = 0);
                a.fin.iter_mut().flatten().for_each(|w| *w = 0);
                a
            })
            .collect();
        m.family("larger cyclic", "patterned unweighted cyclic acceptors of 4 to 9 (15) states", pat, |a| trop_acc(a, 4));
        let q = [(1, 1), (1, 2), (1, 0), (2, 1)];
        m.family("fst-2", "all trim 2-state transducers of bounded delay, <=5 (6) arcs over 1:1 1:2 1:eps 2:1", Auts::new(2, m.pick(5, 6), &q).starts(vec![Some(0), Some(1)]).collect(tkeep), |a| transducer(a, 5));
        m.family("fst-2w", "all trim 2-state transducers of bounded delay, <=4 (5) arcs over 4 label pairs, weights {0,1}, finals {0,2}", Auts::new(2, m.pick(4, 5), &q).aw(&[0, 1]).fw(&[0, 2]).collect(tkeep), |a| transducer(a, 5));
        m.family("fst-3", "all trim acyclic 3-state transducers, <=4 arcs over 4 label pairs, weights {0,1}", Auts::new(3, 4, &q).aw(m.pick(&[0][..], &[0, 1][..])).starts(vec![Some(0)]).collect(|a| a.is_acyclic() && tkeep(a)), |a| transducer(a, 4));
        m.family("fst-3w", "all trim acyclic 3-state transducers, <=4 (5) arcs over 1:1 1:2 1:eps, weights {0,1}, finals {0,1}", Auts::new(3, m.pick(4, 5), &q[..3]).aw(&[0, 1]).fw(&[0, 1]).starts(vec![Some(0), Some(2)]).collect(|a| a.is_acyclic() && tkeep(a)), |a| transducer(a, 3));
        m.family("fst-4", "all trim acyclic 4-state transducers numbered forward, 3..=5 arcs over 1:1 1:2 1:eps", Auts::new(4, m.pick(5, 6), &q[..3]).kmin(3).collect(|a| a.arcs.iter().all(|t| t.s < t.d) && tkeep(a)), |a| transducer(a, 4));
        m.assumptions = vec!["determinizability decided by the twins property / bounded delay computed in the model; transducers are trim and free of input epsilons".into()];
    })
}
