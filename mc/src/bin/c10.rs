//! C10: encode / decode. The encoded machine is compared arc by arc with the original (bijection between
//! tuples and labels), then decoded directly and after relation-preserving transformations.
use mc::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::determinize::*;
use rustfst::prelude::*;
use std::collections::HashMap;

const L: usize = 3;
type W = Nc<7>;
fn w(c: i32) -> W {
    match c {
        0 => W::one(),
        c => W::gen(c as usize - 1),
    }
}
fn t(c: i32) -> TropicalWeight {
    TropicalWeight::new(c as f32)
}
const TYPES: [EncodeType; 3] = [EncodeType::EncodeWeights, EncodeType::EncodeLabels, EncodeType::EncodeWeightsAndLabels];

/// The encoding itself: positions kept, tuples and labels in bijection, the hidden parts gone.
fn check_encoded<X: Semiring>(ty: EncodeType, m: &M<X>, e: &VectorFst<X>) -> Result<(), String> {
    let g = M::of(e)?;
    let (el, ew) = (ty.encode_labels(), ty.encode_weights());
    let mut by_tuple: HashMap<(Label, Label, Option<X>), Label> = HashMap::new();
    let mut by_label: HashMap<Label, (Label, Label, Option<X>)> = HashMap::new();
    let mut bind = |tuple: (Label, Label, Option<X>), l: Label| -> Result<(), String> {
        states(1);
        if l == 0 {
            return Err("a transition was encoded as epsilon".into());
        }
        if *by_tuple.entry(tuple.clone()).or_insert(l) != l || *by_label.entry(l).or_insert(tuple.clone()) != tuple {
            return Err(format!("label {l} and tuple {tuple:?} are not in one-to-one correspondence"));
        }
        Ok(())
    };
    if g.start != m.start {
        return Err("encoding moved the start state".into());
    }
    for s in 0..m.n() {
        if g.arcs.len() <= s || g.arcs[s].len() < m.arcs[s].len() {
            return Err(format!("encoding lost transitions of state {s}"));
        }
        for (i, a) in m.arcs[s].iter().enumerate() {
            let b = &g.arcs[s][i];
            transitions(1);
            if b.3 != a.3 || (!el && b.1 != a.1) || (el && b.1 != b.0) || (ew && !b.2.is_one()) || (!ew && b.2 != a.2) {
                return Err(format!("transition {i} of state {s} encoded as {b:?} from {a:?}"));
            }
            bind((a.0, if el { a.1 } else { 0 }, if ew { Some(a.2.clone()) } else { None }), b.0)?;
        }
        let extra = &g.arcs[s][m.arcs[s].len()..];
        match (&m.fin[s], ew) {
            (Some(f), true) => {
                if g.fin[s].is_some() || extra.len() != 1 {
                    return Err(format!("final state {s} not moved to a single super-final transition"));
                }
                let x = &extra[0];
                if x.3 < m.n() || g.fin[x.3] != Some(X::one()) || !g.arcs[x.3].is_empty() || !x.2.is_one() || x.1 != if el { x.0 } else { 0 } {
                    return Err(format!("super-final transition of state {s} is {x:?}"));
                }
                bind((0, 0, Some(f.clone())), x.0)?;
            }
            (None, true) | (_, false) => {
                if !extra.is_empty() || g.fin[s] != m.fin[s] {
                    return Err(format!("state {s} gained transitions or changed finality"));
                }
            }
        }
    }
    if !ew && g.n() != m.n() {
        return Err("encoding labels changed the number of states".into());
    }
    let truth = Truth::of(&g);
    truth.check("encode", e.properties())?;
    Ok(())
}

fn direct(a: &Aut) -> Result<(), String> {
    let m = a.model(|_, c| w(c), |_, c| w(c));
    let r = match relation(&m, L, L) {
        Some(r) => r,
        None => {
            skip();
            return Ok(());
        }
    };
    if !r.is_empty() {
        nontrivial();
    }
    for f in with_flags(&a.build(|_, c| w(c), |_, c| w(c))) {
        for ty in TYPES {
            let mut e = f.clone();
            let table = ok("encode", encode(&mut e, ty))?;
            trace();
            // mapping a machine without start state is a no-op by design
            if a.start.is_some() {
                check_encoded(ty, &m, &e).map_err(|x| format!("{ty:?}: {x}"))?;
            }
            // disturb the machine in relation-preserving ways that add or remove arcs
            let mut v = e.clone();
            ok("decode", decode(&mut v, table))?;
            trace();
            cmp_rel(&format!("{ty:?}: encode, decode"), &rel_of(&v, L, L)?, &r, eq_exact)?;
            flags_ok("decode", &v)?;
            for k in 0..if a.start.is_some() { 3 } else { 2 } {
                let mut e = f.clone();
                let table = ok("encode", encode(&mut e, ty))?;
                match k {
                    0 => ok("connect", connect(&mut e))?,
                    1 => tr_sort(&mut e, OLabelCompare {}),
                    _ => {
                        // twice reversed: fresh start with an epsilon transition
                        let x: VectorFst<W> = ok("reverse", reverse(&e))?;
                        e = ok("reverse", reverse(&x))?;
                    }
                }
                ok("decode", decode(&mut e, table))?;
                trace();
                cmp_rel(&format!("{ty:?}: encode, {}, decode", ["connect", "tr_sort", "reverse twice"][k]), &rel_of(&e, L, L)?, &r, eq_exact)?;
                flags_ok("decode", &e)?;
            }
        }
    }
    Ok(())
}

fn transformed(a: &Aut) -> Result<(), String> {
    let m = a.model(|_, c| t(c), |_, c| t(c));
    let r = match relation(&m, L, L) {
        Some(r) => r,
        None => {
            skip();
            return Ok(());
        }
    };
    if !r.is_empty() {
        nontrivial();
    }
    let f = a.build(|_, c| t(c), |_, c| t(c));
    let acyclic = a.is_acyclic();
    for ty in TYPES {
        let unweighted = ty.encode_weights();
        let acceptor = ty.encode_labels();
        for k in 0..6 {
            // determinization and minimization need an acceptor, and here an unweighted or acyclic one
            if (k < 3) && !(acceptor && (unweighted || acyclic)) {
                continue;
            }
            let mut e = f.clone();
            let table = ok("encode", encode(&mut e, ty))?;
            let what = ["determinize", "minimize", "determinize and minimize", "sort, sum and unique", "push weights", "epsilon removal"][k];
            match k {
                0 => e = ok(what, determinize(&e))?,
                1 => ok(what, minimize_with_config(&mut e, MinimizeConfig { allow_nondet: true, ..Default::default() }))?,
                2 => {
                    e = ok(what, determinize(&e))?;
                    ok(what, minimize_with_config(&mut e, MinimizeConfig { allow_nondet: false, ..Default::default() }))?;
                }
                3 => {
                    tr_sort(&mut e, ILabelCompare {});
                    tr_sum(&mut e);
                    tr_unique(&mut e);
                }
                4 => ok(what, push_weights(&mut e, ReweightType::ReweightToInitial))?,
                _ => ok(what, rm_epsilon(&mut e))?,
            }
            ok("decode", decode(&mut e, table))?;
            trace();
            cmp_rel(&format!("{ty:?}: encode, {what}, decode"), &rel_of(&e, L, L)?, &r, eq_exact)?;
            let _ = FstProperties::empty();
        }
    }
    Ok(())
}

fn main() {
    run("C10", "model_checking", |m| {
        let p = [(0, 0), (1, 1), (1, 2), (2, 1), (0, 2), (2, 0)];
        let cw = [0, 1, 2];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 2, &p).all_starts().aw(&cw).fw(&cw).collect(|_| true));
        m.family("n<=1", "all machines with <=1 state, <=2 arcs over 6 label pairs and 3 weights", v, direct);
        m.family("n=2", "all machines with 2 states, <=2 (3) arcs, 3 arc and final weights, any start", Auts::new(2, 2, &p).all_starts().aw(&cw).fw(&cw[..2]), direct);
        m.family("n=2,k=3", "all machines with 2 states, 3 arcs over 3 (4) label pairs, 2 weights", Auts::new(2, 3, &p[..m.pick(4, 6)]).kmin(3).aw(&[0, 1]).fw(&[1]), direct);
        m.family("n=3", "all machines with 3 states, <=2 (3) arcs, start 1", Auts::new(3, 3, &p[..m.pick(2, 4)]).starts(vec![Some(1)]).aw(&[0, 1]).fw(&[1]), direct);
        m.family("via n=2", "2 states, <=3 arcs over 3 label pairs and 2 weights, then determinize/minimize/sum/push/rmeps", Auts::new(2, 3, &p[..3]).aw(&[0, 1]).fw(&[0, 1]), transformed);
        m.family("via n=3", "3 states, <=3 arcs over 3 (4) label pairs", Auts::new(3, 3, &[(1, 2), (0, 1), (1, 1), (0, 0)][..m.pick(2, 4)]).aw(&[0, 1]).fw(&[1]), transformed);
        let big = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6, 7, 9, 12, 20][..], &[4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 33, 40][..]), 4, &[1, 2, 3]);
        m.family("larger", "patterned machines of 4 to 20 (40) states: 5 shapes, 3 label profiles", &big, direct);
        m.assumptions = vec!["string pairs up to length 3; free non-commutative weights (direct) and tropical weights (after determinization, minimization, pushing)".into()];
    })
}
