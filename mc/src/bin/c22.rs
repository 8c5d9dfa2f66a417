//! C22: weight factoring and gallic conversion.  Weights are modelled as lists of alternatives
//! (string, number); machines are compared path by path.
use mc::*;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::{factor_weight, FactorIterator, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::weight_convert;
use rustfst::algorithms::weight_converters::{FromGallicConverter, ToGallicConverter};
use rustfst::algorithms::WeightConverter;
use rustfst::prelude::*;
use std::collections::BTreeMap;

type T = TropicalWeight;
type Alts = Vec<(Vec<Label>, i32)>;
const FIN: Label = 50;

trait Fz: WeightQuantize + 'static {
    type FI: FactorIterator<Self>;
    const UNION: bool;
    /// whether weights carry a number besides the string
    const NUM: bool;
    fn mk(a: &Alts) -> Self;
    fn alts(&self) -> Result<Alts, String>;
    /// nothing left to factor
    fn done(a: &Alts) -> bool;
}
fn labels(v: &<StringWeightLeft as Semiring>::Type) -> Result<Vec<Label>, String> {
    if v.is_infinity() {
        return Err("infinite string in the result".into());
    }
    Ok(v.unwrap_labels().clone())
}
macro_rules! string {
    ($t: ty, $f: ty) => {
        impl Fz for $t {
            type FI = $f;
            const UNION: bool = false;
            const NUM: bool = false;
            fn mk(a: &Alts) -> Self {
                a[0].0.clone().into()
            }
            fn alts(&self) -> Result<Alts, String> {
                Ok(vec![(labels(self.value())?, 0)])
            }
            fn done(a: &Alts) -> bool {
                a[0].0.is_empty()
            }
        }
    };
}
macro_rules! gallic {
    ($t: ident, $f: ident) => {
        impl Fz for $t<T> {
            type FI = $f<T>;
            const UNION: bool = false;
            const NUM: bool = true;
            fn mk(a: &Alts) -> Self {
                (a[0].0.clone(), T::new(a[0].1 as f32)).into()
            }
            fn alts(&self) -> Result<Alts, String> {
                Ok(vec![(labels(self.value1().value())?, *self.value2().value() as i32)])
            }
            fn done(a: &Alts) -> bool {
                a[0].0.len() <= 1
            }
        }
    };
}
string!(StringWeightLeft, StringFactorLeft);
string!(StringWeightRight, StringFactorRight);
string!(StringWeightRestrict, StringFactorRestrict);
gallic!(GallicWeightLeft, GallicFactorLeft);
gallic!(GallicWeightRight, GallicFactorRight);
gallic!(GallicWeightRestrict, GallicFactorRestrict);
gallic!(GallicWeightMin, GallicFactorMin);
impl Fz for GallicWeight<T> {
    type FI = GallicFactor<T>;
    const UNION: bool = true;
    const NUM: bool = true;
    fn mk(a: &Alts) -> Self {
        let mut w = GallicWeight::zero();
        for (s, n) in a {
            w.plus_assign(GallicWeight::from((s.clone(), T::new(*n as f32)))).unwrap();
        }
        w
    }
    fn alts(&self) -> Result<Alts, String> {
        self.iter().map(|w| Ok((labels(w.value1().value())?, *w.value2().value() as i32))).collect()
    }
    fn done(a: &Alts) -> bool {
        a.is_empty() || a.len() == 1 && a[0].0.len() <= 1
    }
}
/// Weight code -> alternatives; `k` makes the numbers of different places differ.
fn code<G: Fz>(k: usize, c: i32) -> Alts {
    let n = if G::NUM { (k as i32 + 1) * 3 } else { 0 };
    let l = (k % 2) as Label;
    match c {
        0 => vec![(vec![], n)],
        1 => vec![(vec![3 + l], n)],
        2 => vec![(vec![3, 4], n)],
        3 => vec![(vec![4, 3 + l, 3], n)],
        // several alternatives
        4 => vec![(vec![3], n), (vec![4], n + 1)],
        5 => vec![(vec![], n + 1), (vec![3, 4], n)],
        6 => vec![(vec![4, 4], n), (vec![3, 4], n + 2), (vec![3], n + 1)],
        _ => unreachable!(),
    }
}
fn times<G: Fz>(a: &Alts, b: &Alts) -> Alts {
    let mut v: Alts = a.iter().flat_map(|x| b.iter().map(move |y| ([x.0.clone(), y.0.clone()].concat(), x.1 + y.1))).collect();
    if G::UNION {
        let mut m: BTreeMap<Vec<Label>, i32> = BTreeMap::new();
        for (s, n) in v {
            let e = m.entry(s).or_insert(n);
            *e = (*e).min(n);
        }
        v = m.into_iter().collect();
    }
    v
}
/// One complete path: input labels, output labels, string, number, number of factored-final steps.
type Path = (Vec<Label>, Vec<Label>, Vec<Label>, i32, usize);
struct Walk<'a> {
    m: &'a M<Alts>,
    max: usize,
    mode: FactorWeightType,
    out: Vec<Path>,
}
impl Walk<'_> {
    /// The factored paths the input machine must give rise to.
    fn expect<G: Fz>(&mut self, s: usize, il: Vec<Label>, ol: Vec<Label>, acc: Alts, res: Alts, k: usize) {
        states(1);
        if let Some(f) = &self.m.fin[s] {
            self.close::<G>(&il, &ol, &acc, times::<G>(&res, f), 0);
        }
        if k == self.max {
            return;
        }
        let m = self.m;
        for t in &m.arcs[s] {
            transitions(1);
            let w = times::<G>(&res, &t.2);
            let (mut i2, mut o2) = (il.clone(), ol.clone());
            i2.push(t.0);
            o2.push(t.1);
            if !self.mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS) || G::done(&w) {
                self.expect::<G>(t.3, i2, o2, times::<G>(&acc, &w), vec![(vec![], 0)], k + 1);
            } else {
                for (s, n) in &w {
                    let cut = s.len().min(1);
                    let first = vec![(s[..cut].to_vec(), *n)];
                    self.expect::<G>(t.3, i2.clone(), o2.clone(), times::<G>(&acc, &first), vec![(s[cut..].to_vec(), 0)], k + 1);
                }
            }
        }
    }
    fn close<G: Fz>(&mut self, il: &[Label], ol: &[Label], acc: &Alts, w: Alts, steps: usize) {
        if !self.mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS) || G::done(&w) {
            for (s, n) in times::<G>(acc, &w) {
                self.out.push((il.to_vec(), ol.to_vec(), s, n, steps));
            }
        } else {
            for (s, n) in &w {
                let cut = s.len().min(1);
                self.close::<G>(il, ol, &times::<G>(acc, &vec![(s[..cut].to_vec(), *n)]), vec![(s[cut..].to_vec(), 0)], steps + 1);
            }
        }
    }
    /// The paths of a real result.
    fn real<G: Fz>(&mut self, s: usize, il: Vec<Label>, ol: Vec<Label>, acc: Alts, steps: usize) {
        if let Some(f) = &self.m.fin[s] {
            for (x, n) in times::<G>(&acc, f) {
                self.out.push((il.clone(), ol.clone(), x, n, steps));
            }
        }
        let m = self.m;
        for t in &m.arcs[s] {
            let w = times::<G>(&acc, &t.2);
            if t.0 >= FIN {
                self.real::<G>(t.3, il.clone(), ol.clone(), w, steps + 1);
            } else if il.len() < self.max {
                self.real::<G>(t.3, [&il[..], &[t.0]].concat(), [&ol[..], &[t.1]].concat(), w, steps);
            }
        }
    }
    fn fold<G: Fz>(mut self) -> Vec<Path> {
        if G::UNION {
            let mut m: BTreeMap<(Vec<Label>, Vec<Label>, Vec<Label>, usize), i32> = BTreeMap::new();
            for (i, o, s, n, k) in self.out {
                let e = m.entry((i, o, s, k)).or_insert(n);
                *e = (*e).min(n);
            }
            m.into_iter().map(|((i, o, s, k), n)| (i, o, s, n, k)).collect()
        } else {
            self.out.sort();
            self.out
        }
    }
}
fn alts_of<G: Fz>(f: &VectorFst<G>) -> Result<M<Alts>, String> {
    let m = M::of(f)?;
    let mut r = M { start: m.start, fin: vec![], arcs: vec![] };
    for s in 0..m.n() {
        r.fin.push(m.fin[s].as_ref().map(|w| w.alts()).transpose()?);
        let mut v = vec![];
        for t in &m.arcs[s] {
            v.push((t.0, t.1, t.2.alts()?, t.3));
        }
        r.arcs.push(v);
    }
    Ok(r)
}
fn diff(what: &str, got: &[Path], want: &[Path]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let miss: Vec<_> = want.iter().filter(|p| !got.contains(p)).take(3).collect();
    let extra: Vec<_> = got.iter().filter(|p| !want.contains(p)).take(3).collect();
    Err(format!("{what}: {} paths, want {}; missing {miss:?}, unexpected {extra:?} (input labels, output labels, string, number, steps of the factored final weight)", got.len(), want.len()))
}
const BOTH: FactorWeightType = FactorWeightType::FACTOR_ARC_WEIGHTS.union(FactorWeightType::FACTOR_FINAL_WEIGHTS);
fn factored<G: Fz>(name: &str, a: &Aut) -> Result<(), String> {
    let m = M { start: a.start, fin: (0..a.n).map(|s| a.fin[s].map(|c| code::<G>(10 + s, c))).collect(), arcs: (0..a.n).map(|s| a.arcs.iter().enumerate().filter(|(_, t)| t.s == s).map(|(k, t)| (t.i, t.o, code::<G>(k, t.w), t.d)).collect()).collect() };
    let f: VectorFst<G> = a.build(|k, c| G::mk(&code::<G>(k, c)), |s, c| G::mk(&code::<G>(10 + s, c)));
    let max = if a.is_acyclic() { a.n } else { 4 };
    for mode in [FactorWeightType::FACTOR_ARC_WEIGHTS, FactorWeightType::FACTOR_FINAL_WEIGHTS, BOTH] {
        let mut w = Walk { m: &m, max, mode, out: vec![] };
        if let Some(s) = m.start {
            w.expect::<G>(s, vec![], vec![], vec![(vec![], 0)], vec![(vec![], 0)], 0);
        }
        let want = w.fold::<G>();
        if want.iter().any(|p| p.2.len() > 1) {
            nontrivial();
        }
        for (inc, f) in with_flags(&f).into_iter().enumerate() {
            let mut o = FactorWeightOptions::new(mode);
            o.final_ilabel = FIN;
            o.final_olabel = FIN + 20;
            o.increment_final_ilabel = inc == 1;
            o.increment_final_olabel = inc == 1;
            let what = format!("factoring {name} ({mode:?}, increment {})", inc == 1);
            let g: VectorFst<G> = ok(&what, factor_weight::<_, VectorFst<G>, _, _, G::FI>(&f, o))?;
            flags_ok(&what, &g)?;
            let gm = alts_of(&g)?;
            for s in 0..gm.fin.len() {
                let mut nf = 0;
                for t in &gm.arcs[s] {
                    let arc_sel = mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS) || t.0 >= FIN;
                    if arc_sel && (t.2.len() > 1 || t.2.iter().any(|x| x.0.len() > 1)) {
                        return Err(format!("{what}: transition weight {:?} is not factored", t.2));
                    }
                    if t.0 >= FIN {
                        let want = if inc == 1 { (FIN + nf, FIN + 20 + nf) } else { (FIN, FIN + 20) };
                        if (t.0, t.1) != want {
                            return Err(format!("{what}: final transition labelled {:?}, want {want:?}", (t.0, t.1)));
                        }
                        nf += 1;
                    }
                }
                if let Some(w) = &gm.fin[s] {
                    if mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS) && !G::done(w) {
                        return Err(format!("{what}: final weight {w:?} is not factored"));
                    }
                }
            }
            let mut w = Walk { m: &gm, max, mode, out: vec![] };
            if let Some(s) = gm.start {
                w.real::<G>(s, vec![], vec![], vec![(vec![], 0)], 0);
            }
            diff(&what, &w.fold::<G>(), &want)?;
            trace();
        }
    }
    let mut o = FactorWeightOptions::new(BOTH);
    o.mode = FactorWeightType::empty();
    if factor_weight::<_, VectorFst<G>, _, VectorFst<G>, G::FI>(&f, o).is_ok() {
        return Err("factoring nothing is not refused".into());
    }
    Ok(())
}
fn all(a: &Aut) -> Result<(), String> {
    factored::<StringWeightLeft>("left strings", a)?;
    factored::<StringWeightRight>("right strings", a)?;
    factored::<StringWeightRestrict>("restricted strings", a)?;
    factored::<GallicWeightLeft<T>>("left gallic", a)?;
    factored::<GallicWeightRight<T>>("right gallic", a)?;
    factored::<GallicWeightRestrict<T>>("restricted gallic", a)?;
    factored::<GallicWeightMin<T>>("min gallic", a)?;
    factored::<GallicWeight<T>>("general gallic", a)
}

/// Transducer -> gallic acceptor -> transducer, and gallic acceptor -> factored -> transducer.
fn round<G: Fz>(name: &str, a: &Aut) -> Result<(), String>
where
    ToGallicConverter: WeightConverter<T, G>,
    FromGallicConverter: WeightConverter<G, T>,
{
    let f: VectorFst<T> = a.build(|k, _| T::new(k as f32 + 1.0), |s, _| T::new(20.0 + s as f32));
    let m = M::of(&f)?;
    for f in with_flags(&f) {
        let g: VectorFst<G> = ok("to gallic", weight_convert(&f, &mut ToGallicConverter {}))?;
        flags_ok("to gallic", &g)?;
        if a.start.is_none() {
            return Ok(()); // the converters drop machines without start state
        }
        let gm = alts_of(&g)?;
        for s in 0..a.n {
            let want: Vec<_> = m.arcs[s].iter().map(|t| (t.0, t.0, vec![(if t.1 == 0 { vec![] } else { vec![t.1] }, *t.2.value() as i32)], t.3)).collect();
            let wf = m.fin[s].map(|w| vec![(vec![], *w.value() as i32)]);
            if gm.arcs[s] != want || gm.fin[s] != wf {
                return Err(format!("to {name}: state {s} has {:?} {:?}, want {want:?} {wf:?}", gm.arcs[s], gm.fin[s]));
            }
        }
        let b: VectorFst<T> = ok("from gallic", weight_convert(&g, &mut FromGallicConverter { superfinal_label: 0 }))?;
        flags_ok("from gallic", &b)?;
        if M::of(&b)? != m {
            return Err(format!("{name}: there and back gives {:?}, want {m:?}", M::of(&b)?));
        }
        trace();
    }
    Ok(())
}
fn rounds(a: &Aut) -> Result<(), String> {
    if a.arcs.iter().any(|t| t.i != t.o) {
        nontrivial();
    }
    round::<GallicWeightLeft<T>>("left gallic", a)?;
    round::<GallicWeightRight<T>>("right gallic", a)?;
    round::<GallicWeightRestrict<T>>("restricted gallic", a)?;
    round::<GallicWeightMin<T>>("min gallic", a)?;
    round::<GallicWeight<T>>("general gallic", a)
}
/// Gallic acceptor, factored or not, turned into a transducer.
fn lower<G: Fz>(name: &str, a: &Aut) -> Result<(), String>
where
    FromGallicConverter: WeightConverter<G, T>,
{
    if a.start.is_none() {
        return Ok(());
    }
    let g: VectorFst<G> = a.build(|k, c| G::mk(&code::<G>(k, c)), |s, c| G::mk(&code::<G>(10 + s, c)));
    let gm = alts_of(&g)?;
    let acceptor = a.arcs.iter().all(|t| t.i == t.o);
    let fits = |w: &Alts| w.len() <= 1 && w.iter().all(|x| x.0.len() <= 1);
    let ready = acceptor && gm.arcs.iter().flatten().all(|t| fits(&t.2)) && gm.fin.iter().flatten().all(fits);
    for sup in [0, FIN] {
        let what = format!("from {name} (superfinal label {sup})");
        let r: anyhow::Result<VectorFst<T>> = no_panic(&what, || weight_convert(&g, &mut FromGallicConverter { superfinal_label: sup }))?;
        if !ready {
            if let Ok(r) = r {
                return Err(format!("{what}: a machine that needs factoring is converted: {:?}", M::of(&r)?));
            }
            trace();
            if !acceptor {
                continue;
            }
            // after factoring it must go through
            let mut o = FactorWeightOptions::new(BOTH);
            o.final_ilabel = sup;
            o.final_olabel = sup;
            let h: VectorFst<G> = ok("factor", factor_weight::<_, VectorFst<G>, _, _, G::FI>(&g, o))?;
            let r: VectorFst<T> = ok(&what, weight_convert(&h, &mut FromGallicConverter { superfinal_label: sup }))?;
            same_relation::<G>(&what, &gm, &r, sup, a)?;
            continue;
        }
        let r = ok(&what, r)?;
        same_relation::<G>(&what, &gm, &r, sup, a)?;
    }
    Ok(())
}
fn same_relation<G: Fz>(what: &str, gm: &M<Alts>, r: &VectorFst<T>, _sup: Label, a: &Aut) -> Result<(), String> {
    flags_ok(what, r)?;
    let max = if a.is_acyclic() { a.n } else { 4 };
    let rm = M::of(r)?;
    // paths of the transducer: labels >= FIN and epsilons dropped
    let mut got: BTreeMap<(Vec<Label>, Vec<Label>), i32> = BTreeMap::new();
    let mut st = vec![(rm.start.ok_or("no start state")?, vec![], vec![], 0i32, 0usize)];
    while let Some((s, i, o, w, k)) = st.pop() {
        if let Some(f) = rm.fin[s] {
            let e = got.entry((i.clone(), o.clone())).or_insert(i32::MAX);
            *e = (*e).min(w + *f.value() as i32);
        }
        for t in &rm.arcs[s] {
            let (mut i2, mut o2, mut k2) = (i.clone(), o.clone(), k);
            if t.0 != 0 && t.0 < FIN {
                i2.push(t.0);
                k2 += 1;
            }
            if t.1 != 0 {
                o2.push(t.1);
            }
            if k2 <= max {
                st.push((t.3, i2, o2, w + *t.2.value() as i32, k2));
            }
        }
    }
    let mut want: BTreeMap<(Vec<Label>, Vec<Label>), i32> = BTreeMap::new();
    let mut st = vec![(gm.start.unwrap(), vec![], vec![(vec![], 0)])];
    while let Some((s, i, w)) = st.pop() {
        if let Some(f) = &gm.fin[s] {
            for (o, n) in times::<G>(&w, f) {
                let e = want.entry((i.clone(), o)).or_insert(i32::MAX);
                *e = (*e).min(n);
            }
        }
        for t in &gm.arcs[s] {
            let mut i2: Vec<Label> = i.clone();
            i2.push(t.0);
            if i2.len() <= max {
                st.push((t.3, i2, times::<G>(&w, &t.2)));
            }
        }
    }
    trace();
    if got != want {
        return Err(format!("{what}: relation {got:?}, want {want:?}"));
    }
    if want.keys().any(|k| k.1.len() > k.0.len()) {
        nontrivial();
    }
    Ok(())
}
fn lowers(a: &Aut) -> Result<(), String> {
    lower::<GallicWeightLeft<T>>("left gallic", a)?;
    lower::<GallicWeightRight<T>>("right gallic", a)?;
    lower::<GallicWeightRestrict<T>>("restricted gallic", a)?;
    lower::<GallicWeightMin<T>>("min gallic", a)?;
    lower::<GallicWeight<T>>("general gallic", a)
}

fn main() {
    run("C22", "model_checking", |m| {
        let fwd = |a: &Aut| a.arcs.iter().all(|t| t.s < t.d);
        let p1 = [(1, 1)];
        let p2 = [(1, 1), (1, 2), (2, 2)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 0, &p1).all_starts().fw(&[0, 1, 2, 3]).collect(|_| true));
        v.extend(Auts::new(2, 2, &p1).all_starts().aw(&[0, 1, 2, 3]).fw(&[0, 1, 2, 3]).collect(fwd));
        v.extend(Auts::new(3, 3, &p1).aw(m.pick(&[0, 1, 2], &[0, 1, 2, 3])).fw(m.pick(&[0, 2], &[0, 1, 2, 3])).collect(fwd));
        m.family("strings-acyclic", "acyclic machines of <=3 states with string weights of length 0..3, every mode, eight weight types: same paths, strings spelt out one label at a time", v, all);
        let mut v = Auts::new(1, 2, &p2).aw(&[0, 1]).fw(&[0, 1, 2, 3]).collect(|_| true);
        v.extend(Auts::new(2, 3, &p2[..m.pick(2, 3)]).aw(&[0, 1]).fw(&[0, 1, 3]).collect(|_| true));
        m.family("strings-cyclic", "machines with cycles whose transition strings have at most one label (longer ones unfold for ever)", v, all);
        let mut v = Auts::new(2, 2, &p1).aw(&[0, 1, 2, 4, 5, 6]).fw(&[0, 2, 4, 5, 6]).collect(fwd);
        v.extend(Auts::new(3, 2, &p1).kmin(2).aw(&[0, 1, 2, 4, 5, 6]).fw(&[0, 2, 4, 5, 6]).collect(fwd));
        m.family("alternatives", "general gallic weights with up to three alternatives", v, |a| factored::<GallicWeight<T>>("general gallic", a));
        let tr = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 2, &tr).all_starts().collect(|_| true));
        v.extend(Auts::new(2, 3, &tr).all_starts().collect(|_| true));
        v.extend(Auts::new(3, 3, &tr[m.pick(1, 0)..]).collect(|_| true));
        m.family("round-trip", "transducer to gallic acceptor and back, five gallic types: the very same machine", v, rounds);
        let mut v = Auts::new(1, 1, &p2).aw(&[0, 1]).fw(&[0, 1, 2, 3]).collect(|_| true);
        v.extend(Auts::new(2, 2, &p2).aw(&[0, 1, 2, 3]).fw(&[0, 1, 2, 3]).collect(fwd));
        v.extend(Auts::new(2, 2, &[(1, 1), (2, 2)]).aw(&[0, 1]).fw(&[0, 1, 2]).collect(|_| true));
        v.extend(Auts::new(3, 3, &p1).aw(&[0, 1, 2]).fw(m.pick(&[0, 2], &[0, 1, 2])).collect(fwd));
        m.family("lower", "gallic acceptor to transducer: refused when a weight is not factored, otherwise (and after factoring) the same relation", v, lowers);
        m.family("round-trip-larger", "patterned machines of 4 to 16 (40) states: 5 shapes, 4 label profiles", riches(&[0, 1, 2, 3, 4], &(4..m.pick(17, 41)).collect::<Vec<_>>(), 4, &[0, 1, 2, 3]), rounds);
        m.assumptions = vec![
            "paths of acyclic machines are compared completely, of cyclic ones up to 4 transitions".into(),
            "string weights that would make factoring unfold for ever (cycles with strings longer than one label) and zero-weight transitions are outside the property".into(),
        ];
    })
}
