//! C29: mutable / immutable storage mirror each other; equality, approximate equality and isomorphism
//! answer truthfully.  Oracle: the plain model `M` the machines were built from.
use mc::*;
use rustfst::algorithms::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use rustfst::TrsConst;
use std::sync::Arc;

type W = TropicalWeight;
type V = VectorFst<W>;
type C = ConstFst<W>;
fn aw(_: usize, c: i32) -> W {
    W::new(c as f32)
}
fn fw(_: usize, c: i32) -> W {
    W::new(c as f32)
}
fn symt(words: &[&str]) -> Arc<SymbolTable> {
    let mut s = SymbolTable::new();
    s.add_symbols(words.iter().map(|w| w.to_string()));
    Arc::new(s)
}
type A3 = (Label, Label, W, usize);
fn arcs(t: &[Tr<W>]) -> Vec<A3> {
    t.iter().map(|t| (t.ilabel, t.olabel, t.weight, t.nextstate as usize)).collect()
}
/// One `Trs` value answers alike through all its read operations.
fn trs_ok<T: Trs<W> + Clone>(what: &str, t: &T, want: &Vec<A3>) -> Result<(), String> {
    let mut views = vec![
        ("trs", arcs(t.trs())),
        ("deref", arcs(&t[..])),
        ("to_trs_vec", arcs(t.to_trs_vec().trs())),
        ("shallow_clone", arcs(t.shallow_clone().trs())),
        ("clone", arcs(t.clone().trs())),
        ("shallow_clone.to_trs_vec", arcs(t.shallow_clone().to_trs_vec().trs())),
        ("clone.to_trs_vec", arcs(t.clone().to_trs_vec().trs())),
    ];
    // editing a copy leaves the original alone
    let mut v = t.to_trs_vec();
    v.push(Tr::new(9, 9, W::new(9.0), 0));
    views.push(("trs after editing a to_trs_vec copy", arcs(t.trs())));
    let mut w2 = want.clone();
    w2.push((9, 9, W::new(9.0), 0));
    if arcs(&v) != w2 {
        return Err(format!("{what}: pushing on a to_trs_vec copy gives {:?}, want {w2:?}", arcs(&v)));
    }
    for (n, got) in views {
        if &got != want {
            return Err(format!("{what}: {n} gives {got:?}, want {want:?}"));
        }
    }
    Ok(())
}
/// Every read operation answers as the model does.
fn reads<F>(what: &str, f: &F, m: &M<W>, syms: &[Option<Arc<SymbolTable>>; 2]) -> Result<(), String>
where
    F: ExpandedFst<W>,
    F::TRS: Clone,
{
    let n = m.n();
    let bad = |x: String| Err(format!("{what}: {x}"));
    if f.num_states() != n {
        return bad(format!("num_states {} want {n}", f.num_states()));
    }
    if f.start() != m.start.map(|s| s as StateId) {
        return bad(format!("start {:?} want {:?}", f.start(), m.start));
    }
    if f.states_range() != (0..n as StateId) || f.states_iter().collect::<Vec<_>>() != (0..n as StateId).collect::<Vec<_>>() {
        return bad("states iteration".into());
    }
    let want_fin: Vec<_> = (0..n).filter(|s| m.fin[*s].is_some()).map(|s| (s as StateId, m.fin[s].unwrap())).collect();
    let got_fin: Vec<_> = f.final_states_iter().collect();
    if got_fin != want_fin.iter().map(|x| x.0).collect::<Vec<_>>() {
        return bad(format!("final_states_iter {got_fin:?} want {want_fin:?}"));
    }
    for s in 0..n {
        let si = s as StateId;
        let a = &m.arcs[s];
        let (ie, oe) = (a.iter().filter(|t| t.0 == EPS_LABEL).count(), a.iter().filter(|t| t.1 == EPS_LABEL).count());
        if ok(what, f.final_weight(si))? != m.fin[s] || unsafe { f.final_weight_unchecked(si) } != m.fin[s] {
            return bad(format!("final weight of {s}: {:?} want {:?}", f.final_weight(si), m.fin[s]));
        }
        if ok(what, f.is_final(si))? != m.fin[s].is_some() || unsafe { f.is_final_unchecked(si) } != m.fin[s].is_some() {
            return bad(format!("is_final({s})"));
        }
        if f.is_start(si) != (m.start == Some(s)) {
            return bad(format!("is_start({s})"));
        }
        if ok(what, f.num_trs(si))? != a.len() || unsafe { f.num_trs_unchecked(si) } != a.len() {
            return bad(format!("num_trs({s}) {:?} want {}", f.num_trs(si), a.len()));
        }
        if ok(what, f.num_input_epsilons(si))? != ie || ok(what, f.num_output_epsilons(si))? != oe {
            return bad(format!("epsilon counts of {s}: {:?}/{:?} want {ie}/{oe}", f.num_input_epsilons(si), f.num_output_epsilons(si)));
        }
        trs_ok(&format!("{what}: get_trs({s})"), &ok(what, f.get_trs(si))?, a)?;
        trs_ok(&format!("{what}: get_trs_unchecked({s})"), &unsafe { f.get_trs_unchecked(si) }, a)?;
    }
    let it: Vec<_> = f.fst_iter().collect();
    if it.len() != n {
        return bad(format!("fst_iter yields {} items", it.len()));
    }
    for (s, d) in it.into_iter().enumerate() {
        if d.state_id as usize != s || d.num_trs != m.arcs[s].len() || d.final_weight != m.fin[s] {
            return bad(format!("fst_iter item {s}: {} {} {:?}", d.state_id, d.num_trs, d.final_weight));
        }
        trs_ok(&format!("{what}: fst_iter item {s}"), &d.trs, &m.arcs[s])?;
    }
    for s in [n as StateId, n as StateId + 1, StateId::MAX] {
        if f.final_weight(s).is_ok() || f.is_final(s).is_ok() || f.num_trs(s).is_ok() || f.get_trs(s).is_ok() || f.num_input_epsilons(s).is_ok() || f.num_output_epsilons(s).is_ok() {
            return bad(format!("state {s} of {n} is not reported as an error"));
        }
        if f.is_start(s) {
            return bad(format!("is_start({s}) of {n} states"));
        }
    }
    for (got, want, side) in [(f.input_symbols(), &syms[0], "input"), (f.output_symbols(), &syms[1], "output")] {
        let same = match (got, want) {
            (None, None) => true,
            (Some(a), Some(b)) => **a == **b,
            _ => false,
        };
        if !same {
            return bad(format!("{side} symbol table is {got:?}, want {want:?}"));
        }
    }
    flags_ok(what, f)
}
fn into_iter_ok<F>(what: &str, f: F, m: &M<W>) -> Result<(), String>
where
    F: ExpandedFst<W>,
{
    let mut k = 0;
    for (s, d) in f.fst_into_iter().enumerate() {
        let got: Vec<A3> = d.trs.map(|t| (t.ilabel, t.olabel, t.weight, t.nextstate as usize)).collect();
        if s >= m.n() || d.state_id as usize != s || d.num_trs != m.arcs[s].len() || d.final_weight != m.fin[s] || got != m.arcs[s] {
            return Err(format!("{what}: fst_into_iter item {s}: {} {} {:?} {got:?}, want {:?} {:?}", d.state_id, d.num_trs, d.final_weight, m.fin, m.arcs));
        }
        k += 1;
    }
    if k != m.n() {
        return Err(format!("{what}: fst_into_iter yields {k} items of {}", m.n()));
    }
    Ok(())
}
fn set_ok<F: ExpandedFst<W>>(what: &str, mut f: F) -> Result<(), String>
where
    F::TRS: Clone,
{
    let (x, y) = (symt(&["x"]), symt(&["y", "z"]));
    f.set_input_symbols(x.clone());
    f.set_output_symbols(y.clone());
    let two = |f: &F| (f.input_symbols().cloned(), f.output_symbols().cloned());
    if two(&f) != (Some(x.clone()), Some(y.clone())) {
        return Err(format!("{what}: symbol tables set but not read back"));
    }
    if f.take_output_symbols() != Some(y) || two(&f) != (Some(x.clone()), None) || f.take_input_symbols() != Some(x) || two(&f) != (None, None) {
        return Err(format!("{what}: take_*_symbols"));
    }
    Ok(())
}

fn mirror((a, sy): &(Aut, usize)) -> Result<(), String> {
    let m = a.model(aw, fw);
    let syms = [if sy & 1 == 1 { Some(symt(&["a", "b"])) } else { None }, if sy & 2 == 2 { Some(symt(&["c", "d", "e"])) } else { None }];
    let mut f: V = a.build(aw, fw);
    if let Some(s) = &syms[0] {
        f.set_input_symbols(s.clone());
    }
    if let Some(s) = &syms[1] {
        f.set_output_symbols(s.clone());
    }
    states(m.n() as u64);
    transitions(m.num_arcs() as u64);
    if m.num_arcs() > 0 && m.n() > 1 {
        nontrivial();
    }
    for (i, f) in with_flags(&f).into_iter().enumerate() {
        let l = |s: &str| format!("{s} (flags {})", if i == 0 { "as built" } else { "computed" });
        reads(&l("vector"), &f, &m, &syms)?;
        let held: Vec<_> = (0..m.n()).map(|s| f.get_trs(s as StateId).unwrap()).collect();
        let c: C = f.clone().into();
        reads(&l("const from vector"), &c, &m, &syms)?;
        // conversion of a machine whose lists are shared with someone else
        let c2: C = {
            let g = f.clone();
            let keep: Vec<_> = (0..m.n()).map(|s| g.get_trs(s as StateId).unwrap()).collect();
            let c: C = g.into();
            for (s, k) in keep.iter().enumerate() {
                trs_ok(&l("list held across the conversion"), k, &m.arcs[s])?;
            }
            c
        };
        reads(&l("const from shared vector"), &c2, &m, &syms)?;
        let held_c: Vec<TrsConst<W>> = (0..m.n()).map(|s| c2.get_trs(s as StateId).unwrap()).collect();
        if c != c2 {
            return Err(l("two immutable conversions of one machine differ"));
        }
        reads(&l("const clone"), &c.clone(), &m, &syms)?;
        reads(&l("vector from const ref"), &fst_convert_from_ref::<W, C, V>(&c), &m, &syms)?;
        reads(&l("vector from const"), &fst_convert::<W, C, V>(c2), &m, &syms)?;
        reads(&l("vector from vector ref"), &fst_convert_from_ref::<W, V, V>(&f), &m, &syms)?;
        reads(&l("vector from vector"), &fst_convert::<W, V, V>(f.clone()), &m, &syms)?;
        reads(&l("round trip"), &fst_convert::<W, C, V>(fst_convert_from_ref::<W, C, V>(&c).into()), &m, &syms)?;
        into_iter_ok(&l("vector"), f.clone(), &m)?;
        into_iter_ok(&l("const"), c.clone(), &m)?;
        for s in 0..m.n() {
            trs_ok(&l("vector list held"), &held[s], &m.arcs[s])?;
            trs_ok(&l("const list held"), &held_c[s], &m.arcs[s])?;
        }
        // quantised weights of whole numbers are unchanged
        let q: V = ok("quantize", c.quantize())?;
        if M::of(&q)? != m && m.start.is_some() {
            return Err(l("quantize changes whole-number weights"));
        }
        set_ok("vector", f.clone())?;
        set_ok("const", c.clone())?;
        // acyclic: the same paths
        if a.is_acyclic() {
            let p1: Vec<_> = f.paths_iter().collect();
            let p2: Vec<_> = c.paths_iter().collect();
            if p1 != p2 {
                return Err(format!("paths_iter: vector {p1:?} const {p2:?}"));
            }
        }
    }
    trace();
    Ok(())
}

/// The library prints the reason on stdout whenever approx_equal answers false: silence it.
struct Mute(i32);
fn mute() -> Mute {
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        Mute(keep)
    }
}
impl Drop for Mute {
    fn drop(&mut self) {
        use std::io::Write;
        std::io::stdout().flush().ok();
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}

const D: f32 = 0.25;
fn near(c: i32) -> W {
    W::new(1.0 + [0.0, 0.125, 1.0][c as usize])
}
fn equality((a, b): &(Aut, Aut)) -> Result<(), String> {
    let (ma, mb) = (a.model(|_, c| near(c), |_, c| near(c)), b.model(|_, c| near(c), |_, c| near(c)));
    let (fa, fb) = (ma.to_fst(), mb.to_fst());
    let (ca, cb): (C, C) = (fa.clone().into(), fb.clone().into());
    let same = ma == mb;
    let close = |x: &Option<W>, y: &Option<W>| match (x, y) {
        (None, None) => true,
        (Some(x), Some(y)) => (x.value() - y.value()).abs() <= D,
        _ => false,
    };
    let approx = |d0: bool| {
        ma.start == mb.start
            && ma.n() == mb.n()
            && (0..ma.n()).all(|s| {
                (if d0 { ma.fin[s] == mb.fin[s] } else { close(&ma.fin[s], &mb.fin[s]) })
                    && ma.arcs[s].len() == mb.arcs[s].len()
                    && ma.arcs[s].iter().zip(&mb.arcs[s]).all(|(x, y)| (x.0, x.1, x.3) == (y.0, y.1, y.3) && (if d0 { x.2 == y.2 } else { close(&Some(x.2), &Some(y.2)) }))
            })
    };
    if (fa == fb) != same || (ca == cb) != same {
        return Err(format!("equality answers vector {} const {}, want {same}", fa == fb, ca == cb));
    }
    let want = approx(false);
    for (n, got) in [
        ("vector~vector", fa.approx_equal(&fb, D)),
        ("vector~const", fa.approx_equal(&cb, D)),
        ("const~vector", ca.approx_equal(&fb, D)),
        ("const~const", ca.approx_equal(&cb, D)),
    ] {
        if got != want {
            return Err(format!("{n}: approx_equal(delta {D}) = {got}, want {want}"));
        }
    }
    if fa.approx_equal(&cb, 0.01) != approx(true) {
        return Err(format!("approx_equal(delta 0.01) != {}", approx(true)));
    }
    if want && !same {
        nontrivial();
    }
    trace();
    Ok(())
}

/// Reachable part, renumbered in increasing order.
fn reach(m: &M<W>) -> M<W> {
    let mut seen = vec![false; m.n()];
    let mut st: Vec<usize> = m.start.into_iter().collect();
    while let Some(s) = st.pop() {
        if !std::mem::replace(&mut seen[s], true) {
            st.extend(m.arcs[s].iter().map(|t| t.3));
        }
    }
    let keep: Vec<usize> = (0..m.n()).filter(|s| seen[*s]).collect();
    let p = |s: usize| keep.iter().position(|k| *k == s).unwrap();
    M { start: m.start.map(p), fin: keep.iter().map(|s| m.fin[*s]).collect(), arcs: keep.iter().map(|s| m.arcs[*s].iter().map(|t| (t.0, t.1, t.2, p(t.3))).collect()).collect() }
}
fn sorted(mut m: M<W>) -> M<W> {
    for v in m.arcs.iter_mut() {
        v.sort_by(|x, y| x.2.partial_cmp(&y.2).unwrap().then((x.0, x.1, x.3).cmp(&(y.0, y.1, y.3))));
    }
    m
}
fn iso(a: &M<W>, b: &M<W>) -> bool {
    if a.n() != b.n() || a.num_arcs() != b.num_arcs() {
        return false;
    }
    let b = sorted(b.clone());
    perms(a.n()).iter().any(|p| {
        let mut r = M { start: a.start.map(|s| p[s]), fin: vec![None; a.n()], arcs: vec![vec![]; a.n()] };
        for s in 0..a.n() {
            r.fin[p[s]] = a.fin[s];
            r.arcs[p[s]] = a.arcs[s].iter().map(|t| (t.0, t.1, t.2, p[t.3])).collect();
        }
        sorted(r) == b
    })
}
/// Two transitions of one state share both labels and the weight.
fn ambiguous(m: &M<W>) -> bool {
    m.arcs.iter().any(|v| (0..v.len()).any(|i| (0..i).any(|j| (v[i].0, v[i].1, v[i].2) == (v[j].0, v[j].1, v[j].2))))
}
fn isomorphism((a, b): &(Aut, Aut)) -> Result<(), String> {
    let (ma, mb) = (a.model(aw, fw), b.model(aw, fw));
    let (ra, rb) = (reach(&ma), reach(&mb));
    let want = iso(&ra, &rb);
    let amb = ambiguous(&ra);
    let (fa, fb) = (ma.to_fst(), mb.to_fst());
    let cb: C = fb.clone().into();
    states((ma.n() + mb.n()) as u64);
    if want && ma != mb {
        nontrivial();
    }
    for (n, r) in [("vector/vector", isomorphic(&fa, &fb)), ("vector/const", isomorphic(&fa, &cb)), ("delta", isomorphic_with_config(&fa, &fb, IsomorphicConfig::new(0.25)))] {
        match r {
            Ok(got) if got != want => return Err(format!("isomorphic ({n}) answers {got}, want {want}")),
            Err(e) if !amb => return Err(format!("isomorphic ({n}) refuses machines without ambiguous transitions: {e}")),
            _ => {}
        }
    }
    trace();
    Ok(())
}

fn main() {
    run("C29", "model_checking", |m| {
        let pr = [(0, 0), (0, 1), (1, 0), (1, 2), (2, 2)];
        let mut s: Vec<(Aut, usize)> = vec![];
        s.push((Aut::empty(), 0));
        s.push((Aut::empty(), 3));
        for n in 1..=3usize {
            let k = [0, 3, m.pick(2, 3), m.pick(2, 3)][n];
            for a in Auts::new(n, k, if n == 3 { &pr[1..4] } else { &pr }).all_starts().fw(&[0, 2]).collect(|_| true) {
                let sy = (a.arcs.len() + a.n) % 4;
                s.push((a.clone(), sy));
                if n == 2 {
                    s.push((a, (sy + 1) % 4));
                }
            }
        }
        for (i, k) in (0..6).flat_map(|k| (1..6).map(move |n| (k, n))).enumerate() {
            s.push((shape(k.0, k.1, i), i % 4));
        }
        m.family("mirror", "every read operation answers as on the original through every conversion route, with shared lists left alone and out-of-range states refused", s, |x| mirror(x));

        {
            let _q = mute();
            let small: Vec<Aut> = [Aut::empty()].into_iter().chain((1..=2usize)
                .flat_map(|n| Auts::new(n, [0, 1, m.pick(1, 2)][n], &[(1, 1), (1, 2)]).all_starts().aw(&[0, 1, 2]).fw(&[0, 1, 2]).collect(|_| true)))
                .collect();
            let v: Vec<(Aut, Aut)> = small.iter().flat_map(|a| small.iter().filter(move |b| a.n == b.n || a.n + b.n <= 2).map(move |b| (a.clone(), b.clone()))).filter(|(a, b)| m.thorough() || (a.arcs.len().abs_diff(b.arcs.len()) < 2 && (a.start == b.start || a.arcs == b.arcs))).collect();
            m.family("equality", "== and approx_equal between any two machines say whether the models are equal / equal up to the given weight difference", v, |x| equality(x));
        }
        // every pair: reachable machines with the same number of states, any numbering
        let mut v: Vec<(Aut, Aut)> = vec![];
        for (n, k, pairs, finals) in [
            (1usize, 2usize, vec![(1, 1), (1, 2)], vec![0, 1]),
            (2, m.pick(2, 3), vec![(1, 1), (1, 2)], vec![0, 1]),
            (3, m.pick(2, 3), vec![(1, 1), (2, 2)], vec![0]),
        ] {
            let all: Vec<Aut> = Auts::new(n, k, &pairs).all_starts().aw(if n < 3 { &[0, 1] } else { &[0] }).fw(&finals).collect(|a| a.start.is_some() && (n < 3 || a.reach().iter().filter(|x| **x).count() > 1));
            let mut groups: std::collections::BTreeMap<_, Vec<Aut>> = Default::default();
            for a in all {
                // only pairs that agree on coarse features are interesting; others are in `cross`
                let key = (a.arcs.len(), a.fin.iter().flatten().count());
                groups.entry(key).or_default().push(a);
            }
            for g in groups.values() {
                for a in g {
                    if !a.is_canonical() && a.n > 1 {
                        continue;
                    }
                    for b in g {
                        v.push((a.clone(), b.clone()));
                    }
                }
            }
        }
        m.family("isomorphic", "isomorphic answers whether the reachable parts are the same machine up to state numbering and transition order; it refuses only when a state has two transitions with equal labels and weight", v, |x| isomorphism(x));
        // different sizes (merged states), including startless machines
        let small: Vec<Aut> = [Aut::empty()].into_iter().chain((1..=3usize).flat_map(|n| Auts::new(n, [0, 2, 2, 2][n], &[(1, 1), (2, 2)]).starts(vec![Some(0), None]).collect(|a| a.start.is_none() || a.arcs.len() < 2 || a.reach().iter().all(|x| *x)))).collect();
        let v: Vec<(Aut, Aut)> = small.iter().flat_map(|a| small.iter().filter(move |b| a.n != b.n).map(move |b| (a.clone(), b.clone()))).collect();
        m.family("isomorphic-sizes", "as above for machines with different numbers of states and without start state", v, |x| isomorphism(x));
        m.assumptions = vec![
            "isomorphism is judged on the reachable parts (two machines without start state are the same machine)".into(),
            "weights are tropical; symbol-table sharing is compared by content".into(),
        ];
    })
}
