//! C09: inversion, projection, relabelling and reversal against the relation model.
use mc::*;
use rustfst::prelude::*;

const L: usize = 3;
type W = Nc<7>;

fn map_side(s: Str, pairs: &[(Label, Label)]) -> Str {
    pack_str(&unpack(s).iter().map(|l| pairs.iter().find(|p| p.0 == *l).map_or(*l, |p| p.1)).collect::<Vec<_>>())
}

fn basic(a: &Aut) -> Result<(), String> {
    let f: VectorFst<W> = a.fst_gen(0);
    let r = relation(&a.m_gen::<7, false>(0), L, L).unwrap();
    if !r.is_empty() {
        nontrivial();
    }
    let mut g = f.clone();
    invert(&mut g);
    cmp_rel("inversion", &rel_of(&g, L, L)?, &r_map(&r, |(x, y), w| ((y, x), w.clone())), eq_exact)?;
    trace();
    invert(&mut g);
    if M::of(&g)? != a.m_gen::<7, false>(0) {
        return Err("inverting twice does not give back the machine".into());
    }
    // projections: the kept side is on both tapes. The other side must be unbounded in the reference, so
    // project the machine, not the truncated relation.
    for (ty, inp) in [(ProjectType::ProjectInput, true), (ProjectType::ProjectOutput, false)] {
        let mut g = f.clone();
        project(&mut g, ty);
        let mut m = a.m_gen::<7, false>(0);
        for v in m.arcs.iter_mut() {
            for t in v.iter_mut() {
                if inp {
                    t.1 = t.0
                } else {
                    t.0 = t.1
                }
            }
        }
        let want = relation(&m, L, L).unwrap();
        cmp_rel("projection", &rel_of(&g, L, L)?, &want, eq_exact)?;
        trace();
    }
    // reversal
    let rv: VectorFst<W> = ok("reverse", reverse(&f))?;
    let want = r_map(&r, |(x, y), w| ((rev_str(x), rev_str(y)), w.reverse().unwrap()));
    cmp_rel("reversal", &rel_of(&rv, L, L)?, &want, eq_exact)?;
    trace();
    let rr: VectorFst<W> = ok("reverse", reverse(&rv))?;
    cmp_rel("double reversal", &rel_of(&rr, L, L)?, &r, eq_exact)?;
    trace();
    let cf: ConstFst<W> = f.clone().into();
    let rv: VectorFst<W> = ok("reverse", reverse(&cf))?;
    cmp_rel("reversal of an immutable FST", &rel_of(&rv, L, L)?, &want, eq_exact)?;
    trace();
    if M::of(&f)? != a.m_gen::<7, false>(0) {
        return Err("reversal modified its input".into());
    }
    Ok(())
}

type Pairs = Vec<(Label, Label)>;
fn relabel(a: &Aut, ip: &Pairs, op: &Pairs) -> Result<(), String> {
    let mut f: VectorFst<W> = a.fst_gen(0);
    let dup = |p: &Pairs| (0..p.len()).any(|i| (0..i).any(|j| p[i].0 == p[j].0));
    let res = relabel_pairs(&mut f, ip.clone(), op.clone());
    if dup(ip) || dup(op) {
        if res.is_ok() {
            return Err("ambiguous relabelling accepted".into());
        }
        if M::of(&f)? != a.m_gen::<7, false>(0) {
            return Err("refused relabelling changed the machine".into());
        }
        return Ok(());
    }
    ok("relabel", res)?;
    nontrivial();
    let mut m = a.m_gen::<7, false>(0);
    for v in m.arcs.iter_mut() {
        for t in v.iter_mut() {
            t.0 = ip.iter().find(|p| p.0 == t.0).map_or(t.0, |p| p.1);
            t.1 = op.iter().find(|p| p.0 == t.1).map_or(t.1, |p| p.1);
        }
    }
    cmp_rel("relabelling", &rel_of(&f, L, L)?, &relation(&m, L, L).unwrap(), eq_exact)?;
    trace();
    // no epsilon involved: the relation is mapped pointwise
    if ip.iter().chain(op).all(|p| p.0 != 0 && p.1 != 0) {
        let r = relation(&a.m_gen::<7, false>(0), L, L).unwrap();
        let want = r_map(&r, |(x, y), w| ((map_side(x, ip), map_side(y, op)), w.clone()));
        cmp_rel("relabelling (pointwise)", &rel_of(&f, L, L)?, &want, eq_exact)?;
    }
    Ok(())
}

fn main() {
    run("C09", "model_checking", |m| {
        let p = [(0, 0), (1, 1), (1, 2), (0, 2), (2, 0)];
        m.family("n<=1", "all machines with <=1 state and <=3 arcs, any start", {
            let mut v = vec![Aut::empty()];
            v.extend(Auts::new(1, 3, &p).all_starts().collect(|_| true));
            v
        }, basic);
        m.family("n=2", "all machines with 2 states, <=3 (4) arcs over 5 label pairs, any start", Auts::new(2, m.pick(3, 4), &p).all_starts(), basic);
        m.family("n=3", "all machines with 3 states, <=3 (4) arcs, start 1", Auts::new(3, m.pick(3, 4), &p[..m.pick(4, 3)]).starts(vec![Some(1)]), basic);
        m.family("n=4", "all machines with 4 states, <=3 arcs, start 2", Auts::new(4, m.pick(2, 3), &p[..3]).starts(vec![Some(2)]), basic);
        m.family("larger", "patterned machines of 4 to 12 (20) states: 5 shapes, 4 label profiles", riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6, 7, 9, 12][..], &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20][..]), 4, &[1, 2, 3, 4]), basic);
        // all relabelling lists of length <=2 over labels 0..3 on both sides
        let mut lists: Vec<Pairs> = vec![vec![]];
        for a in 0..4 {
            for b in 0..4 {
                lists.push(vec![(a, b)]);
                for c in 0..4 {
                    for d in 0..4 {
                        lists.push(vec![(a, b), (c, d)]);
                    }
                }
            }
        }
        let auts = Auts::new(2, 2, &[(0, 0), (1, 2), (2, 1), (1, 3)]).collect(|a| a.is_canonical() && a.is_trim() && a.arcs.len() == 2);
        let few: Vec<Pairs> = vec![vec![], vec![(1, 2), (2, 1)], vec![(2, 0)], vec![(1, 3)], vec![(3, 1), (1, 2)]];
        m.family("relabel-in", "all trim 2-state machines x all input relabelling lists of length <=2 over labels 0..3 x 5 output lists", Prod(&auts, Prod(&lists, &few)), |(a, (i, o))| relabel(a, i, o));
        m.family("relabel-out", "same with sides exchanged", Prod(&auts, Prod(&few, &lists)), |(a, (i, o))| relabel(a, i, o));
        m.assumptions = vec!["string pairs up to length 3 per side; free non-commutative weights truncated at words of length 7".into()];
    })
}
