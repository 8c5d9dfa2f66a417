//! C13: epsilon removal.
use mc::*;
use rustfst::algorithms::rm_epsilon::{rm_epsilon, RmEpsilonFst};
use rustfst::prelude::*;

fn no_eps<W: Semiring>(what: &str, m: &M<W>) -> Result<(), String> {
    if m.start.is_none() {
        return Ok(()); // nothing is accessible: the empty relation needs no rewriting
    }
    for (s, v) in m.arcs.iter().enumerate() {
        if v.iter().any(|t| t.0 == 0 && t.1 == 0) {
            return Err(format!("{what}: state {s} still has an epsilon transition: {m:?}"));
        }
    }
    Ok(())
}
fn check<W: Semiring>(f: &VectorFst<W>, r: &Rel<W>, l: usize) -> Result<(), String> {
    if !r.is_empty() {
        nontrivial();
    }
    for g in with_flags(f) {
        let mut e = g.clone();
        ok("rm_epsilon", rm_epsilon(&mut e))?;
        let m = M::of(&e)?;
        no_eps("epsilon removal", &m)?;
        cmp_rel("epsilon removal", &relation(&m, l, l).unwrap(), r, eq_exact)?;
        trace();
        let lazy = ok("RmEpsilonFst::new", RmEpsilonFst::<W, VectorFst<W>, _>::new(&g))?;
        let e: VectorFst<W> = ok("RmEpsilonFst::compute", lazy.compute())?;
        let m = M::of(&e)?;
        no_eps("delayed epsilon removal", &m)?;
        cmp_rel("delayed epsilon removal", &relation(&m, l, l).unwrap(), r, eq_exact)?;
        trace();
        let mut e = g.clone();
        ok("rm_final_epsilon", rm_final_epsilon(&mut e))?;
        cmp_rel("final-epsilon removal", &rel_of(&e, l, l)?, r, eq_exact)?;
        trace();
    }
    Ok(())
}
fn formal(a: &Aut) -> Result<(), String> {
    let r = relation(&a.m_gen::<6, false>(0), 3, 3).unwrap();
    let f = a.fst_gen::<6, false>(0);
    check(&f, &r, 3)?;
    // epsilon transitions into final states without future are gone (transitions are identified by their weight)
    let co = a.coreach();
    let mut e = f.clone();
    ok("rm_final_epsilon", rm_final_epsilon(&mut e))?;
    for v in M::of(&e)?.arcs {
        for t in v {
            for (k, x) in a.arcs.iter().enumerate() {
                if t.2 == Free::gen(k) && x.i == 0 && x.o == 0 && a.fin[x.d].is_some() && !a.arcs.iter().any(|y| y.s == x.d && co[y.d]) {
                    return Err(format!("final-epsilon removal kept the epsilon transition {x:?} into a dead-end final state"));
                }
            }
        }
    }
    Ok(())
}
fn trop(a: &Aut) -> Result<(), String> {
    let r = relation(&a.m_trop(), 2, 2).unwrap();
    check(&a.fst_trop(), &r, 2)
}
fn boolean(a: &Aut) -> Result<(), String> {
    let b = |_: usize, _: i32| BooleanWeight::new(true);
    let r = relation(&a.model(b, b), 2, 2).unwrap();
    check(&a.build(b, b), &r, 2)
}
/// Long epsilon structures: chains, diamonds, cycles of growing size.
fn shape(kind: usize, n: usize) -> Aut {
    let mut a = Aut { n, start: Some(0), fin: vec![None; n], arcs: vec![] };
    let mut arc = |s: usize, l: Label, d: usize| a.arcs.push(Arc5 { s, i: l, o: l, w: 1, d });
    match kind {
        0 => {
            for s in 0..n - 1 {
                arc(s, 0, s + 1);
            }
        }
        1 => {
            for s in (1..n).rev() {
                arc(s, 0, s - 1);
            }
            arc(0, 1, n - 1);
        }
        2 => {
            for s in 0..n {
                arc(s, 0, (s + 1) % n);
            }
            arc(n - 1, 1, 0);
        }
        3 => {
            for s in 0..n {
                for d in s + 1..n.min(s + 3) {
                    arc(s, 0, d);
                }
                arc(s, 1 + (s % 2) as Label, n - 1);
            }
        }
        _ => {
            for s in 0..n {
                arc(0, 0, s);
                arc(s, 1, (s * 7 + 3) % n);
                arc(s, 0, (s * 5 + 1) % n);
            }
        }
    }
    a.fin[n - 1] = Some(0);
    a.fin[n / 2] = Some(2);
    a
}
fn main() {
    run("C13", "model_checking", |m| {
        let p = [(0, 0), (1, 1), (0, 2)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 3, &p).all_starts().collect(|_| true));
        m.family("n<=1", "all machines with <=1 state, <=3 arcs", v, formal);
        m.family("n=2", "all machines with 2 states, <=3 (4) arcs over labels eps/1/eps:2, any start; formal non-commutative weights", Auts::new(2, m.pick(3, 4), &p).all_starts(), formal);
        m.family("n=3", "all machines with 3 states, <=4 arcs over eps/1, start 0 and 2", Auts::new(3, m.pick(3, 4), &p[..2]).starts(vec![Some(0), Some(2)]), formal);
        m.family("n=3-simple5", "all 3-state machines with 4..=5 (6) distinct arcs over eps/1, start 0", Auts::new(3, m.pick(4, 6), &p[..2]).kmin(4).simple(), formal);
        m.family("n=4-simple4", "all 4-state machines with 4 (5) distinct arcs over eps/1, start 1, final 3 or subsets", Auts::new(4, m.pick(3, 4), &p[..2]).kmin(3).simple().starts(vec![Some(1)]), formal);
        m.family("tropical", "all 3-state machines with <=3 arcs over eps/1, arc weights {0,1,2}", Auts::new(3, 3, &p[..2]).aw(m.pick(&[0, 2], &[0, 1, 3])).fw(&[0, 1]), trop);
        m.family("boolean", "all 3-state machines with <=4 arcs, Boolean weights (not path-ordered)", Auts::new(3, m.pick(3, 4), &p[..2]), boolean);
        let sizes: Vec<usize> = (2..m.pick(24, 60)).collect();
        let kinds: Vec<usize> = (0..5).collect();
        m.family("shapes", "parametric epsilon chains, back-chains, cycles, diamonds and webs of every size up to 24 (60)", Prod(kinds, sizes), |(k, n)| trop(&shape(*k, *n)));
        m.assumptions = vec!["free non-commutative weights truncated at words of length 6; string pairs up to length 3".into()];
    })
}
