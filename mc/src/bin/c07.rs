//! C07: in-place union, concatenation and closure against the algebra of weighted relations.
use mc::*;
use rustfst::algorithms::closure::{closure, ClosureType};
use rustfst::algorithms::concat::concat;
use rustfst::algorithms::union::union;
use rustfst::prelude::*;

type W = Nc<6>;
const L: usize = 3;

fn check_binary(a: &Aut, b: &Aut) -> Result<(), String> {
    let fa: VectorFst<W> = a.fst_gen(0);
    let fb: VectorFst<W> = b.fst_gen(a.ngen());
    let ra = relation(&a.m_gen::<6, false>(0), L, L).unwrap();
    let rb = relation(&b.m_gen::<6, false>(a.ngen()), L, L).unwrap();
    if !ra.is_empty() && !rb.is_empty() {
        nontrivial();
    }
    let fb_before = M::of(&fb)?;
    let mut u = fa.clone();
    ok("union", union(&mut u, &fb))?;
    cmp_rel("union", &rel_of(&u, L, L)?, &r_sum(&ra, &rb), eq_exact)?;
    trace();
    let mut c = fa.clone();
    ok("concat", concat(&mut c, &fb))?;
    cmp_rel("concatenation", &rel_of(&c, L, L)?, &r_cat(&ra, &rb, L, L), eq_exact)?;
    trace();
    if M::of(&fb)? != fb_before || M::of(&fa)? != a.m_gen::<6, false>(0) {
        return Err("an operand of union/concatenation was modified".into());
    }
    // operand given as the immutable type
    let cb: ConstFst<W> = fb.clone().into();
    let mut u = fa.clone();
    ok("union", union(&mut u, &cb))?;
    cmp_rel("union with an immutable operand", &rel_of(&u, L, L)?, &r_sum(&ra, &rb), eq_exact)?;
    Ok(())
}
fn check_unary(a: &Aut) -> Result<(), String> {
    let fa: VectorFst<W> = a.fst_gen(0);
    let ra = relation(&a.m_gen::<6, false>(0), L, L).unwrap();
    if !ra.is_empty() {
        nontrivial();
    }
    let plus = r_plus(&ra, L, L).unwrap();
    let mut p = fa.clone();
    closure(&mut p, ClosureType::ClosurePlus);
    cmp_rel("plus-closure", &rel_of(&p, L, L)?, &plus, eq_exact)?;
    trace();
    let mut s = fa.clone();
    closure(&mut s, ClosureType::ClosureStar);
    cmp_rel("star-closure", &rel_of(&s, L, L)?, &r_sum(&plus, &r_one()), eq_exact)?;
    trace();
    let mut s2 = fa.clone();
    s2.closure(ClosureType::ClosureStar);
    cmp_rel("star-closure (method)", &rel_of(&s2, L, L)?, &r_sum(&plus, &r_one()), eq_exact)?;
    Ok(())
}

fn main() {
    run("C07", "model_checking", |m| {
        let p4 = [(0, 0), (1, 1), (1, 2), (0, 2)];
        let p3 = [(0, 0), (1, 2), (0, 1)];
        let mut un = vec![Aut::empty()];
        un.extend(Auts::new(1, 2, &p4).all_starts().collect(|_| true));
        un.extend(Auts::new(2, m.pick(3, 4), &p4).all_starts().collect(|_| true));
        m.family("closure", "all machines with <=2 states, <=3 (4) arcs, 4 label pairs incl. epsilon, any start (also none), one generator per arc/final; non-trivial: non-empty relation", un, |a| check_unary(a));
        m.family("closure-3", "all machines with 3 states, start 1, <=3 (4) arcs over 4 label pairs", Auts::new(3, m.pick(3, 4), &p4).starts(vec![Some(1)]), |a| check_unary(a));
        // binary: all pairs of small machines, including degenerate ones
        let mut ops = vec![Aut::empty()];
        ops.extend(Auts::new(1, 1, &p3).all_starts().collect(|_| true));
        ops.extend(Auts::new(2, 2, &p3).all_starts().collect(|_| true));
        m.family("pairs", "all ordered pairs of machines with <=2 states, <=2 arcs over 3 label pairs, every start choice incl. none, every final set", Prod(&ops, &ops), |(a, b)| check_binary(a, b));
        let o2 = Auts::new(2, m.pick(2, 3), &p3).collect(|a| a.is_canonical() && a.is_trim());
        m.family("pairs-trim", "all ordered pairs of trim machines with 2 states and <=2 (3) arcs (up to renaming)", Prod(&o2, &o2), |(a, b)| check_binary(a, b));
        let big = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6, 7, 9, 12, 20][..], &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 33, 40][..]), 4, &[1, 2, 3]);
        m.family("closure-larger", "patterned machines of 4 to 20 (40) states: 5 shapes, 3 label profiles", &big, |a| check_unary(a));
        let big = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 8][..], &[4, 5, 6, 8, 12, 17][..]), 2, &[1, 2, 3]);
        m.family("pairs-larger", "all ordered pairs of patterned machines of 4 to 8 (17) states", Prod(&big, &big), |(a, b)| check_binary(a, b));
        m.assumptions = vec!["string pairs up to length 3 per side; weights in the free non-commutative semiring truncated at words of length 6".into()];
    })
}
