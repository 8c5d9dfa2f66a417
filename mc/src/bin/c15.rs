//! C15: shortest distances.
use mc::*;
use rustfst::algorithms::{all_pairs_shortest_distance, shortest_distance};
use rustfst::prelude::*;

/// Sum over all paths from `src` (forward) by iterating the transition matrix until it stabilises.
fn fixpoint<W: Semiring>(m: &M<W>, src: &[Option<W>], rev: bool, limit: usize) -> Option<Vec<W>> {
    let n = m.n();
    let mut sum: Vec<W> = src.iter().map(|w| w.clone().unwrap_or_else(W::zero)).collect();
    let mut cur = sum.clone();
    for _ in 0..limit {
        let mut nx = vec![W::zero(); n];
        for s in 0..n {
            for t in &m.arcs[s] {
                transitions(1);
                if rev {
                    let p = t.2.times(&cur[t.3]).unwrap();
                    nx[s].plus_assign(&p).unwrap();
                } else {
                    let p = cur[s].times(&t.2).unwrap();
                    nx[t.3].plus_assign(&p).unwrap();
                }
            }
        }
        let ns: Vec<W> = (0..n).map(|i| sum[i].plus(&nx[i]).unwrap()).collect();
        if ns == sum && nx.iter().zip(&sum).all(|(a, b)| a.is_zero() || b.plus(a).unwrap() == *b) {
            // idempotent or truncated: stable
            states(n as u64);
            return Some(sum);
        }
        sum = ns;
        cur = nx;
        if cur.iter().all(|w| w.is_zero()) {
            states(n as u64);
            return Some(sum);
        }
    }
    None
}
fn same<W: Semiring>(what: &str, got: &[W], want: &[W], eq: &impl Fn(&W, &W) -> bool) -> Result<(), String> {
    if got.len() > want.len() {
        return Err(format!("{what}: {} entries for {} states", got.len(), want.len()));
    }
    for (s, w) in want.iter().enumerate() {
        let z = W::zero();
        let g = got.get(s).unwrap_or(&z);
        if !eq(g, w) {
            return Err(format!("{what}: distance of state {s} is {g:?}, expected {w:?} (all: {got:?})"));
        }
    }
    trace();
    Ok(())
}
fn dirs<W: Semiring>(m: &M<W>, limit: usize) -> Option<(Vec<W>, Vec<W>)> {
    let n = m.n();
    let mut src = vec![None; n];
    if let Some(s) = m.start {
        src[s] = Some(W::one());
    }
    Some((fixpoint(m, &src, false, limit)?, fixpoint(m, &m.fin.clone(), true, limit)?))
}
fn check<W: Semiring>(f: &VectorFst<W>, m: &M<W>, limit: usize, eq: impl Fn(&W, &W) -> bool) -> Result<(), String> {
    let Some((fw, bw)) = dirs(m, limit) else {
        skip();
        return Ok(());
    };
    if m.num_arcs() > 0 && m.start.is_some() {
        nontrivial();
    }
    for g in with_flags(f) {
        same("distance from the start", &ok("shortest_distance", shortest_distance(&g, false))?, &fw, &eq)?;
        same("distance to the final states", &ok("shortest_distance", shortest_distance(&g, true))?, &bw, &eq)?;
        let c: ConstFst<W> = g.into();
        same("distance from the start (immutable)", &ok("shortest_distance", shortest_distance(&c, false))?, &fw, &eq)?;
    }
    Ok(())
}
fn all_pairs<W: rustfst::semirings::StarSemiring>(f: &VectorFst<W>, m: &M<W>, limit: usize, eq: impl Fn(&W, &W) -> bool) -> Result<(), String> {
    let n = m.n();
    let mut rows = vec![];
    for i in 0..n {
        let mut src = vec![None; n];
        src[i] = Some(W::one());
        let Some(r) = fixpoint(m, &src, false, limit) else { return Ok(()) };
        rows.push(r);
    }
    let d = ok("all_pairs_shortest_distance", all_pairs_shortest_distance(f))?;
    if d.len() != n {
        return Err("all-pairs: wrong number of rows".into());
    }
    for i in 0..n {
        same(&format!("all-pairs row {i}"), &d[i], &rows[i], &eq)?;
        if d[i].len() != n {
            return Err("all-pairs: short row".into());
        }
    }
    Ok(())
}
const K: usize = 5;
fn formal(a: &Aut) -> Result<(), String> {
    let (f, m) = (a.fst_gen::<K, false>(0), a.m_gen::<K, false>(0));
    check(&f, &m, K + 2, eq_exact)?;
    all_pairs(&f, &m, K + 2, eq_exact)
}
fn trop(a: &Aut) -> Result<(), String> {
    let (f, m) = (a.fst_trop(), a.m_trop());
    check(&f, &m, a.n + 2, eq_exact)?;
    if a.arcs.iter().all(|t| t.w >= 0) {
        all_pairs(&f, &m, a.n + 2, eq_exact)?;
    }
    Ok(())
}
fn boolean(a: &Aut) -> Result<(), String> {
    let b = |_: usize, w: i32| BooleanWeight::new(w != 0);
    let (f, m) = (a.build(b, b), a.model(b, b));
    check(&f, &m, a.n + 2, eq_exact)?;
    all_pairs(&f, &m, a.n + 2, eq_exact)
}
fn integer(a: &Aut) -> Result<(), String> {
    let b = |_: usize, w: i32| IntegerWeight::new(w);
    check(&a.build(b, b), &a.model(b, b), a.n + 2, eq_exact)
}
/// Log weights: the reference solves the linear system over probabilities.
fn log(a: &Aut) -> Result<(), String> {
    let w = |_: usize, w: i32| LogWeight::new(w as f32);
    let f = a.build(w, w);
    let n = a.n;
    let solve = |rev: bool| -> Option<Vec<f64>> {
        let mut x0 = vec![0f64; n];
        if rev {
            for s in 0..n {
                if let Some(w) = a.fin[s] {
                    x0[s] = (-w as f64).exp();
                }
            }
        } else if let Some(s) = a.start {
            x0[s] = 1.0;
        }
        let (mut sum, mut cur) = (x0.clone(), x0);
        for _ in 0..2000 {
            let mut nx = vec![0f64; n];
            for t in &a.arcs {
                transitions(1);
                let p = (-t.w as f64).exp();
                if rev {
                    nx[t.s] += p * cur[t.d]
                } else {
                    nx[t.d] += p * cur[t.s]
                }
            }
            for i in 0..n {
                sum[i] += nx[i];
            }
            cur = nx;
            if cur.iter().all(|x| *x < 1e-13) {
                return Some(sum);
            }
        }
        None
    };
    let (Some(fw), Some(bw)) = (solve(false), solve(true)) else {
        skip();
        return Ok(());
    };
    if !a.arcs.is_empty() {
        nontrivial();
    }
    let z = |v: Vec<f64>| v.into_iter().map(|p| LogWeight::new(-(p.ln()) as f32)).collect::<Vec<_>>();
    let eq = |g: &LogWeight, w: &LogWeight| {
        let (a, b) = (*g.value(), *w.value());
        (a.is_infinite() && b.is_infinite()) || (a - b).abs() < 2e-3
    };
    let (fw, bw) = (z(fw), z(bw));
    for g in with_flags(&f) {
        same("log distance from the start", &ok("shortest_distance", shortest_distance(&g, false))?, &fw, &eq)?;
        same("log distance to the final states", &ok("shortest_distance", shortest_distance(&g, true))?, &bw, &eq)?;
    }
    Ok(())
}
fn main() {
    run("C15", "model_checking", |m| {
        let p = [(1, 1)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 4, &p).all_starts().collect(|_| true));
        m.family("n<=1", "all machines with <=1 state and <=4 arcs", v, formal);
        m.family("n=2", "all machines with 2 states, <=5 arcs, any start, any final set; formal non-commutative weights", Auts::new(2, m.pick(5, 6), &p).all_starts(), formal);
        m.family("n=3", "all machines with 3 states, <=4 (5) arcs, any start, both arc orders", Auts::new(3, m.pick(4, 5), &p).all_starts().both_orders(), formal);
        m.family("n=4", "all machines with 4 states, <=4 (5) distinct arcs, start 0 or 3 , both arc orders", Auts::new(4, m.pick(4, 5), &p).simple().starts(vec![Some(0), Some(3)]).both_orders(), formal);
        m.family("tropical", "all machines with 3 states, <=4 arcs with weights {0,1,3}, finals {0,2}", Auts::new(3, m.pick(3, 4), &p).aw(&[0, 1, 3]).fw(&[0, 2]).starts(vec![Some(0), Some(2)]).both_orders(), trop);
        m.family("tropical-4", "all machines with 4 states, 3..=4 (5) distinct arcs with weights {0,2}, start 1", Auts::new(4, m.pick(4, 5), &p).kmin(3).simple().aw(&[0, 2]).starts(vec![Some(1)]), trop);
        m.family("tropical-unweighted", "all machines with 4 states, <=5 (6) distinct arcs of weight zero (depth-first queue)", Auts::new(4, m.pick(5, 6), &p).simple().starts(vec![Some(0)]), trop);
        m.family("tropical-negative", "all 3-state machines with <=3 (4) arcs with weights {-2,1}, no improving cycle", Auts::new(3, m.pick(3, 4), &p).aw(&[-2, 1]).fw(&[0]).starts(vec![Some(1)]).both_orders(), trop);
        m.family("boolean", "all 3-state machines with <=4 (5) arcs, weights true/false", Auts::new(3, m.pick(3, 4), &p).aw(&[1, 0]).fw(&[1]), boolean);
        m.family("integer", "all acyclic 3-state machines with <=4 arcs, integer weights {2,3}", Auts::new(3, 4, &p).aw(&[2, 3]).fw(&[1, 5]).collect(|a| a.is_acyclic()), integer);
        m.family("log", "all 3-state machines with <=3 (4) arcs, log weights {1,2}, convergent", Auts::new(3, m.pick(3, 4), &p).aw(&[1, 2]).fw(&[1]).all_starts(), log);
        let (kinds, sizes, seeds): (Vec<usize>, Vec<usize>, Vec<usize>) = ((0..5).collect(), (2..m.pick(40, 120)).collect(), (0..m.pick(8, 24)).collect());
        m.family("shapes", "five parametric graph shapes of every size up to 40 (120) with patterned weights", Prod(Prod(kinds, sizes), seeds), |((k, n), s)| trop(&shape(*k, *n, *s)));
        m.assumptions = vec!["formal weights truncated at words of length 5; log weights compared within 2e-3".into()];
    })
}
