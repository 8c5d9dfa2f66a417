//! C18: tr_sort, tr_sum, tr_unique, tr_map, weight_convert against a list model.
use anyhow::Result as AResult;
use mc::*;
use rustfst::algorithms::tr_compares::{ILabelCompare, OLabelCompare};
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::fst_properties::FstProperties;

type W = Co<3>;
fn w(c: i32) -> W {
    match c {
        -1 => W::zero(),
        0 => W::one(),
        c => W::gen(c as usize - 1),
    }
}
fn key<X: std::fmt::Debug>(t: &(Label, Label, X, usize)) -> (Label, Label, usize, String) {
    (t.0, t.1, t.3, format!("{:?}", t.2))
}
fn bag<X: std::fmt::Debug>(v: &[(Label, Label, X, usize)]) -> Vec<(Label, Label, usize, String)> {
    let mut k: Vec<_> = v.iter().map(key).collect();
    k.sort();
    k
}
fn same_frame<X: Semiring>(what: &str, g: &M<X>, m: &M<X>) -> Result<(), String> {
    if g.start != m.start || g.fin != m.fin || g.n() != m.n() {
        return Err(format!("{what} changed the start or final states: {g:?}"));
    }
    Ok(())
}

fn lists(a: &Aut) -> Result<(), String> {
    let m = a.model(|_, c| w(c), |_, c| w(c));
    for f in with_flags(&a.build(|_, c| w(c), |_, c| w(c))) {
        for side in [0, 1] {
            let mut g = f.clone();
            if side == 0 {
                tr_sort(&mut g, ILabelCompare {})
            } else {
                tr_sort(&mut g, OLabelCompare {})
            }
            let got = M::of(&g)?;
            same_frame("tr_sort", &got, &m)?;
            for s in 0..m.n() {
                if bag(&got.arcs[s]) != bag(&m.arcs[s]) {
                    return Err(format!("tr_sort changed the transitions of state {s}: {:?}", got.arcs[s]));
                }
                if got.arcs[s].windows(2).any(|p| if side == 0 { p[0].0 > p[1].0 } else { p[0].1 > p[1].1 }) {
                    return Err(format!("tr_sort left state {s} unsorted: {:?}", got.arcs[s]));
                }
            }
            trace();
        }
        let mut g = f.clone();
        tr_sum(&mut g);
        let got = M::of(&g)?;
        same_frame("tr_sum", &got, &m)?;
        flags_ok("tr_sum", &g)?;
        for s in 0..m.n() {
            let mut want: Vec<(Label, Label, W, usize)> = vec![];
            for t in &m.arcs[s] {
                states(1);
                match want.iter_mut().find(|u| (u.0, u.1, u.3) == (t.0, t.1, t.3)) {
                    Some(u) => {
                        nontrivial();
                        transitions(1);
                        u.2.plus_assign(&t.2).unwrap()
                    }
                    None => want.push(t.clone()),
                }
            }
            if bag(&got.arcs[s]) != bag(&want) {
                return Err(format!("tr_sum gives {:?} at state {s}, expected {:?}", got.arcs[s], want));
            }
        }
        trace();
        let mut g = f.clone();
        tr_unique(&mut g);
        let got = M::of(&g)?;
        same_frame("tr_unique", &got, &m)?;
        flags_ok("tr_unique", &g)?;
        for s in 0..m.n() {
            let mut want = bag(&m.arcs[s]);
            want.dedup();
            if bag(&got.arcs[s]) != want {
                return Err(format!("tr_unique gives {:?} at state {s}, expected {want:?}", got.arcs[s]));
            }
            // the stored epsilon counts must follow
            let ie = got.arcs[s].iter().filter(|t| t.0 == 0).count();
            let oe = got.arcs[s].iter().filter(|t| t.1 == 0).count();
            if (ie, oe) != (g.num_input_epsilons(s as StateId).unwrap(), g.num_output_epsilons(s as StateId).unwrap()) {
                return Err(format!("epsilon counts wrong after tr_unique at state {s}"));
            }
        }
        trace();
    }
    Ok(())
}

fn norm<X: Semiring>(mut m: M<X>) -> M<X> {
    for f in m.fin.iter_mut() {
        if f.as_ref().map_or(false, |w| w.is_zero()) {
            *f = None
        }
    }
    m
}
fn cmp<X: Semiring>(what: &str, got: M<X>, want: M<X>) -> Result<(), String> {
    let (g, w) = (norm(got), norm(want));
    trace();
    states(w.n() as u64);
    transitions(w.num_arcs() as u64);
    let okk = g.start == w.start && g.fin == w.fin && g.n() == w.n() && (0..g.n()).all(|s| bag(&g.arcs[s]) == bag(&w.arcs[s]));
    if !okk {
        return Err(format!("{what} gives {g:?}\n  expected {w:?}"));
    }
    Ok(())
}
type Mapped<X> = (Label, Label, X);
/// Reference: apply `ft` to arcs and `ff` to final weights, with the final action.
fn reference<X: Semiring, Y: Semiring>(m: &M<X>, ft: impl Fn(Label, Label, &X) -> Mapped<Y>, ff: impl Fn(&X) -> Mapped<Y>, act: MapFinalAction) -> Option<M<Y>> {
    let n = m.n();
    let mut r = M {
        start: m.start,
        fin: vec![None; n],
        arcs: m.arcs.iter().map(|v| v.iter().map(|t| { let x = ft(t.0, t.1, &t.2); (x.0, x.1, x.2, t.3) }).collect()).collect(),
    };
    let sup = |r: &mut M<Y>| {
        if r.fin.len() == n {
            r.fin.push(Some(Y::one()));
            r.arcs.push(vec![]);
        }
    };
    if act == MapFinalAction::MapRequireSuperfinal {
        sup(&mut r);
    }
    for s in 0..n {
        let Some(x) = &m.fin[s] else { continue };
        let y = ff(x);
        let lab = y.0 != 0 || y.1 != 0;
        match act {
            MapFinalAction::MapNoSuperfinal => {
                if lab {
                    return None;
                }
                r.fin[s] = Some(y.2)
            }
            MapFinalAction::MapAllowSuperfinal => {
                if lab {
                    sup(&mut r);
                    r.arcs[s].push((y.0, y.1, y.2, n))
                } else {
                    r.fin[s] = Some(y.2)
                }
            }
            MapFinalAction::MapRequireSuperfinal => {
                if lab || !y.2.is_zero() {
                    r.arcs[s].push((y.0, y.1, y.2, n))
                }
            }
        }
    }
    Some(r)
}
/// A mapper that changes everything, with any final action.
struct Custom(u8, bool);
impl Custom {
    fn act(&self) -> MapFinalAction {
        match self.0 {
            0 => MapFinalAction::MapNoSuperfinal,
            1 => MapFinalAction::MapAllowSuperfinal,
            _ => MapFinalAction::MapRequireSuperfinal,
        }
    }
    fn fin(&self, x: &W) -> Mapped<W> {
        let y = x.times(W::gen(8)).unwrap();
        // label only some final states, so both branches of "allow" occur
        if self.1 && *x == w(5) {
            (7, 8, y)
        } else if self.1 && *x == w(6) {
            (0, 9, y)
        } else {
            (0, 0, y)
        }
    }
}
impl TrMapper<W> for Custom {
    fn tr_map(&self, tr: &mut Tr<W>) -> AResult<()> {
        tr.ilabel += 10;
        tr.olabel += 20;
        tr.weight.times_assign(W::gen(9))
    }
    fn final_tr_map(&self, t: &mut FinalTr<W>) -> AResult<()> {
        assert!(t.ilabel == 0 && t.olabel == 0);
        let y = self.fin(&t.weight);
        (t.ilabel, t.olabel, t.weight) = y;
        Ok(())
    }
    fn final_action(&self) -> MapFinalAction {
        self.act()
    }
    fn properties(&self, _: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}
impl WeightConverter<W, W> for Custom {
    fn tr_map(&mut self, tr: &Tr<W>) -> AResult<Tr<W>> {
        Ok(Tr::new(tr.ilabel + 10, tr.olabel + 20, tr.weight.times(W::gen(9))?, tr.nextstate))
    }
    fn final_tr_map(&mut self, t: &FinalTr<W>) -> AResult<FinalTr<W>> {
        let y = self.fin(&t.weight);
        Ok(FinalTr { ilabel: y.0, olabel: y.1, weight: y.2 })
    }
    fn final_action(&self) -> MapFinalAction {
        self.act()
    }
    fn properties(&self, _: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}

fn builtin<X, T>(what: &str, f: &VectorFst<X>, m: &M<X>, mp: T, ft: impl Fn(Label, Label, &X) -> Mapped<X>, ff: impl Fn(&X) -> X) -> Result<(), String>
where
    X: Semiring + 'static,
    T: TrMapper<X> + WeightConverter<X, X>,
{
    let want = reference(m, ft, |x| (0, 0, ff(x)), MapFinalAction::MapNoSuperfinal).unwrap();
    let mut g = f.clone();
    ok(what, tr_map(&mut g, &mp))?;
    cmp(&format!("tr_map with {what}"), M::of(&g)?, want.clone())?;
    let mut mp = mp;
    let g: VectorFst<X> = ok(what, weight_convert(f, &mut mp))?;
    cmp(&format!("weight_convert with {what}"), M::of(&g)?, want.clone())?;
    let cf: ConstFst<X> = f.clone().into();
    let g: VectorFst<X> = ok(what, weight_convert(&cf, &mut mp))?;
    cmp(&format!("weight_convert of an immutable FST with {what}"), M::of(&g)?, want)
}

fn maps(a: &Aut) -> Result<(), String> {
    let m = a.model(|_, c| w(c), |s, c| if c == 0 { w(4 + s as i32) } else { w(c) });
    let f = a.build(|_, c| w(c), |s, c| if c == 0 { w(4 + s as i32) } else { w(c) });
    if m.num_arcs() > 0 {
        nontrivial();
    }
    builtin("IdentityTrMapper", &f, &m, IdentityTrMapper {}, |i, o, x| (i, o, x.clone()), |x| x.clone())?;
    builtin("InputEpsilonMapper", &f, &m, InputEpsilonMapper {}, |_, o, x| (0, o, x.clone()), |x| x.clone())?;
    builtin("OutputEpsilonMapper", &f, &m, OutputEpsilonMapper {}, |i, _, x| (i, 0, x.clone()), |x| x.clone())?;
    let g9 = W::gen(9);
    builtin("PlusMapper", &f, &m, PlusMapper::from_weight(g9.clone()), |i, o, x| (i, o, x.plus(&g9).unwrap()), |x| x.plus(&g9).unwrap())?;
    builtin("TimesMapper", &f, &m, TimesMapper::from_weight(g9.clone()), |i, o, x| (i, o, x.times(&g9).unwrap()), |x| x.times(&g9).unwrap())?;
    let rm = |x: &W| if x.is_zero() { W::zero() } else { W::one() };
    builtin("RmWeightMapper", &f, &m, RmWeightMapper {}, |i, o, x| (i, o, rm(x)), rm)?;
    let tw = |c: i32| if c == -1 { TropicalWeight::zero() } else { TropicalWeight::new(c as f32 + 0.3) };
    let (mt, ft) = (a.model(|_, c| tw(c), |_, c| tw(c)), a.build(|_, c| tw(c), |_, c| tw(c)));
    if a.arcs.iter().all(|x| x.w != -1) {
        let inv = |x: &TropicalWeight| TropicalWeight::new(-x.value());
        builtin("InvertWeightMapper", &ft, &mt, InvertWeightMapper {}, |i, o, x| (i, o, inv(x)), inv)?;
    }
    let q = |x: &TropicalWeight| if x.is_zero() { *x } else { TropicalWeight::new((x.value() / 0.5 + 0.5).floor() * 0.5) };
    builtin("QuantizeMapper", &ft, &mt, QuantizeMapper::new(0.5), |i, o, x| (i, o, q(x)), q)?;
    let lg = |x: &TropicalWeight| LogWeight::new(*x.value());
    let g: VectorFst<LogWeight> = ok("SimpleWeightConverter", weight_convert(&ft, &mut SimpleWeightConverter {}))?;
    cmp("SimpleWeightConverter", M::of(&g)?, mt.map_w(lg))?;
    for act in 0..3 {
        for lab in [false, true] {
            let c = Custom(act, lab);
            let want = reference(&m, |i, o, x| (i + 10, o + 20, x.times(W::gen(9)).unwrap()), |x| c.fin(x), c.act());
            let mut g = f.clone();
            let r1 = tr_map(&mut g, &c);
            let r2: AResult<VectorFst<W>> = weight_convert(&f, &mut Custom(act, lab));
            match want {
                None => {
                    if r1.is_ok() || r2.is_ok() {
                        return Err("labelled final transition accepted without a super-final state".into());
                    }
                }
                Some(want) => {
                    ok("tr_map", r1)?;
                    cmp("tr_map with a relabelling mapper", M::of(&g)?, want.clone())?;
                    cmp("weight_convert with a relabelling mapper", M::of(&ok("weight_convert", r2)?)?, want)?;
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run("C18", "model_checking", |m| {
        // ordered transition lists of one state: every arrangement
        let mut a24 = vec![];
        for i in 0..3 {
            for o in 0..2 {
                for c in 1..3 {
                    for d in 0..2 {
                        a24.push(Arc5 { s: 0, i, o, w: c, d });
                    }
                }
            }
        }
        let one = |al: &[Arc5], v: &Vec<usize>| Aut { n: 2, start: Some(0), fin: vec![None, Some(3)], arcs: v.iter().map(|x| al[*x].clone()).collect() };
        m.family("lists-24", "every ordered list of <=4 transitions over 24 (3 input x 2 output labels x 2 weights x 2 destinations)", Seqs { m: 24, kmin: 0, kmax: 4 }, |v| lists(&one(&a24, v)));
        let a8: Vec<Arc5> = a24.iter().filter(|a| a.i == 0 || (a.i == 1 && a.o == 1)).cloned().filter(|a| a.o == 1 || a.w == 1).take(8).collect();
        m.family("lists-8", "every ordered list of 5..6 (7) transitions over 8", Seqs { m: 8, kmin: 5, kmax: m.pick(6, 7) }, |v| lists(&one(&a8, v)));
        let mut a4 = vec![];
        for c in 1..3 {
            for d in 0..2 {
                a4.push(Arc5 { s: 0, i: 1, o: 1, w: c, d });
            }
        }
        m.family("lists-4", "every ordered list of 7..9 (10) parallel transitions over 4", Seqs { m: 4, kmin: 7, kmax: m.pick(8, 10) }, |v| lists(&one(&a4, v)));
        let p = [(0, 0), (1, 1), (1, 2), (2, 0)];
        m.family("machines", "all machines with 2 states, <=3 arcs over 4 label pairs x weights, any start, both arc orders", Auts::new(2, 3, &p).aw(&[0, 1]).all_starts().both_orders(), lists);
        m.family("long-lists", "lists of 8..70 transitions (every length) with every label period 1..7, ascending and descending", {
            let mut v = vec![];
            for n in 8..70usize {
                for k in 1..8usize {
                    for desc in [false, true] {
                        let mut arcs: Vec<Arc5> = (0..n).map(|j| Arc5 { s: 0, i: ((j * 5) % k) as Label, o: ((j * 3) % (k + 1)) as Label, w: 1 + (j % 2) as i32, d: (j / 3) % 2 }).collect();
                        if desc {
                            arcs.reverse();
                        }
                        v.push(Aut { n: 2, start: Some(0), fin: vec![None, Some(0)], arcs });
                    }
                }
            }
            v
        }, lists);
        m.family("maps-2", "all machines with 2 states, <=2 (3) arcs over 4 label pairs x 3 weights (zero, one, generator), final weights generator or one, every start; all mappers", Auts::new(2, m.pick(2, 3), &p).aw(&[-1, 0, 1]).fw(&[0, -1, 1]).starts(vec![Some(0), Some(1)]), maps);
        m.family("maps-3", "all machines with 3 states, <=2 (3) arcs; all mappers", Auts::new(3, m.pick(2, 3), &p[..3]).aw(&[1]).starts(vec![Some(1)]), maps);
        m.family("maps-larger", "patterned machines of 4 to 16 (40) states: 5 shapes, 4 label profiles; all mappers", riches(&[0, 1, 2, 3, 4], &(4..m.pick(17, 41)).collect::<Vec<_>>(), 4, &[0, 1, 2, 3]), |a| maps(a).and_then(|_| lists(a)));
        m.assumptions = vec!["formal commutative weights; order of transitions within a state is only checked for the sorts".into(), "mapping a machine without start state is outside the domain".into()];
    })
}
