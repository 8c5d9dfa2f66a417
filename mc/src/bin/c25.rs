//! C25: random generation, explored over every outcome of the random choices (stateless exploration: the
//! selector is scripted and the script is advanced like an odometer until every choice sequence was run).
use mc::*;
use rustfst::algorithms::randgen::{randgen, randgen_with_config, RandGenConfig, TrSelector, UniformTrSelector};
use rustfst::fst_traits::*;
use rustfst::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Debug, Default)]
struct Script {
    choice: Vec<usize>,
    width: Vec<usize>,
    /// (input state, position drawn); position == number of transitions means "stop here"
    log: Vec<(usize, usize)>,
    bad: Option<String>,
    limit: usize,
}
#[derive(Debug, Clone)]
struct Scripted(Rc<RefCell<Script>>);
impl TrSelector for Scripted {
    fn select_tr<W: Semiring, F: Fst<W>>(&mut self, fst: &F, state: StateId) -> anyhow::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = fst.num_trs(state)? + fst.is_final(state)? as usize;
        if n == 0 {
            s.bad = Some(format!("asked to choose at state {state}, which has nothing to choose from"));
            anyhow::bail!("nothing to choose");
        }
        let k = s.log.len();
        if k >= s.limit {
            s.bad = Some(format!("more than {} draws", s.limit));
            anyhow::bail!("too many draws");
        }
        if k == s.choice.len() {
            s.choice.push(0);
        }
        s.width.truncate(k);
        s.width.push(n);
        let c = s.choice[k];
        s.log.push((state as usize, c));
        Ok(c)
    }
}
/// Runs `f` under every choice sequence.
fn every(limit: usize, mut f: impl FnMut(Scripted, &Rc<RefCell<Script>>) -> Result<(), String>) -> Result<u64, String> {
    let sc = Rc::new(RefCell::new(Script { limit, ..Default::default() }));
    let mut runs = 0;
    loop {
        sc.borrow_mut().log.clear();
        runs += 1;
        f(Scripted(sc.clone()), &sc).map_err(|e| format!("draws (state, position) {:?}: {e}", sc.borrow().log))?;
        let mut s = sc.borrow_mut();
        if let Some(b) = &s.bad {
            return Err(b.clone());
        }
        let used = s.log.len();
        s.choice.truncate(used);
        let mut k = used;
        loop {
            if k == 0 {
                return Ok(runs);
            }
            k -= 1;
            if s.choice[k] + 1 < s.width[k] {
                s.choice[k] += 1;
                s.choice.truncate(k + 1);
                break;
            }
        }
    }
}
/// The k-th transition carries a unique label pair, so an output path names its input transitions.
fn lab(k: usize) -> (Label, Label) {
    ((k + 1) as Label, (k + 31) as Label)
}
fn input<W: Semiring<Type = f32>>(a: &Aut) -> VectorFst<W> {
    let mut f = VectorFst::<W>::new();
    f.add_states(a.n);
    for (k, t) in a.arcs.iter().enumerate() {
        let (i, o) = lab(k);
        f.add_tr(t.s as StateId, Tr::new(i, o, W::new(0.5 + k as f32), t.d as StateId)).unwrap();
    }
    for s in 0..a.n {
        if a.fin[s].is_some() {
            f.set_final(s as StateId, W::new(2.0)).unwrap();
        }
    }
    if let Some(s) = a.start {
        f.set_start(s as StateId).unwrap();
    }
    f.set_input_symbols(Arc::new(rustfst::symt!["i"]));
    f.set_output_symbols(Arc::new(rustfst::symt!["o", "p"]));
    f
}
/// Index of the input transition an output transition stands for; it must leave input state `s`.
fn arc_of(a: &Aut, s: usize, i: Label, o: Label) -> Result<usize, String> {
    let k = (i as usize).checked_sub(1).filter(|k| *k < a.arcs.len() && lab(*k) == (i, o)).ok_or(format!("output transition {i}:{o} is no transition of the input"))?;
    if a.arcs[k].s != s {
        return Err(format!("output transition {i}:{o} follows a path that is at input state {s}"));
    }
    Ok(k)
}
fn pos_of(a: &Aut, k: usize) -> usize {
    a.arcs[..k].iter().filter(|t| t.s == a.arcs[k].s).count()
}
type Draws = BTreeMap<(usize, usize), usize>;
fn draws(log: &[(usize, usize)]) -> Draws {
    let mut d = Draws::new();
    for x in log {
        *d.entry(*x).or_default() += 1;
    }
    d
}
fn degree(a: &Aut, s: usize) -> usize {
    a.arcs.iter().filter(|t| t.s == s).count()
}
fn syms_ok<W: Semiring>(a: &Aut, f: &VectorFst<W>, g: &VectorFst<W>) -> Result<(), String> {
    if a.start.is_some() && (g.input_symbols() != f.input_symbols() || g.output_symbols() != f.output_symbols()) {
        return Err("symbol tables not carried over".into());
    }
    Ok(())
}
/// Unweighted: one chain per completed draw.
fn unweighted<W: Semiring<Type = f32> + 'static>(a: &Aut, np: usize, ml: usize) -> Result<(), String> {
    let f = input::<W>(a);
    let runs = every(np * (ml + 1) + 1, |sel, sc| {
        let cfg = RandGenConfig::new(sel).with_npath(np).with_max_length(ml);
        let g: VectorFst<W> = ok("randgen", randgen_with_config(&f, cfg))?;
        let log = sc.borrow().log.clone();
        let m = M::of(&g)?;
        flags_ok("randgen", &g)?;
        syms_ok(a, &f, &g)?;
        let d = draws(&log);
        let stops: usize = d.iter().filter(|(k, _)| k.1 == degree(a, k.0)).map(|x| x.1).sum();
        if a.start.is_none() || stops == 0 {
            if relation(&m, ml, ml).unwrap().len() != 0 {
                return Err(format!("paths generated without any completed draw: {m:?}"));
            }
            return Ok(());
        }
        let start = m.start.ok_or("completed draws but no start state")?;
        let mut used: Draws = Draws::new();
        let mut ends = 0;
        let s0 = a.start.unwrap();
        if m.fin[start].is_some() {
            if m.fin[start] != Some(W::one()) {
                return Err("the empty path is weighted".into());
            }
            *used.entry((s0, degree(a, s0))).or_default() += 1;
        }
        for first in &m.arcs[start] {
            let (mut s, mut st, mut t, mut len) = (s0, start, first, 0);
            loop {
                let k = arc_of(a, s, t.0, t.1)?;
                if t.2 != W::one() {
                    return Err(format!("an unweighted sample carries weight {:?}", t.2));
                }
                *used.entry((s, pos_of(a, k))).or_default() += 1;
                (s, st, len) = (a.arcs[k].d, t.3, len + 1);
                if len > ml {
                    return Err(format!("path longer than {ml}"));
                }
                if st == start || m.arcs[st].len() > 1 {
                    return Err(format!("samples are not separate chains: {m:?}"));
                }
                match (m.arcs[st].first(), &m.fin[st]) {
                    (Some(n), None) => t = n,
                    (None, Some(w)) if *w == W::one() => break,
                    _ => return Err(format!("a sample does not end as a path does: {m:?}")),
                }
            }
            if a.fin[s].is_none() {
                return Err(format!("a sample ends in input state {s}, which is not final"));
            }
            ends += 1;
            *used.entry((s, degree(a, s))).or_default() += 1;
        }
        let empty = *d.get(&(s0, degree(a, s0))).unwrap_or(&0);
        // draws of the empty path cannot be told from those of later visits of the start state: bound them
        if ends + m.fin[start].is_some() as usize > stops {
            return Err(format!("{ends} samples but only {stops} completed draws"));
        }
        if empty == 0 && ends != stops {
            return Err(format!("{ends} samples, want {stops}: {m:?}"));
        }
        // nothing was cut or lost: every draw shows up, and exactly npath samples
        let lost = np - stops;
        if lost == 0 && m.fin[start].is_none() && used != d {
            return Err(format!("drawn {d:?}, generated {used:?}"));
        }
        for (k, n) in &used {
            if n > d.get(k).unwrap_or(&0) {
                return Err(format!("drawn {d:?}, generated {used:?}"));
            }
        }
        states(m.n() as u64);
        transitions(log.len() as u64);
        trace();
        Ok(())
    })?;
    if runs > 1 {
        nontrivial();
    }
    Ok(())
}
/// Weighted: a tree whose weights give back how often each branch was drawn.
fn weighted<W: Semiring<Type = f32> + 'static>(a: &Aut, np: usize, ml: usize, total: bool, prob: impl Fn(&W) -> f64) -> Result<(), String> {
    let f = input::<W>(a);
    let runs = every(np * (ml + 1) + 1, |sel, sc| {
        let cfg = RandGenConfig::new(sel).with_npath(np).with_max_length(ml).with_weighted(true).with_remove_total_weight(total);
        let g: VectorFst<W> = ok("randgen", randgen_with_config(&f, cfg))?;
        let log = sc.borrow().log.clone();
        let m = M::of(&g)?;
        flags_ok("randgen", &g)?;
        syms_ok(a, &f, &g)?;
        let mut got = Draws::new();
        if let Some(start) = m.start {
            let mut seen = vec![false; m.n()];
            let mut st = vec![(start, a.start.ok_or("start state out of nowhere")?, np, 0usize)];
            while let Some((s, is, n, len)) = st.pop() {
                if std::mem::replace(&mut seen[s], true) {
                    return Err(format!("the samples do not form a tree: {m:?}"));
                }
                let mut sum = 0;
                let mut count = |w: &W, scale: f64| -> Result<usize, String> {
                    let c = prob(w) * n as f64 / scale;
                    if (c - c.round()).abs() > 1e-3 || c.round() < 1.0 {
                        return Err(format!("weight {w:?} is no share of {n} draws (comes to {c})"));
                    }
                    sum += c.round() as usize;
                    Ok(c.round() as usize)
                };
                for t in &m.arcs[s] {
                    let k = arc_of(a, is, t.0, t.1)?;
                    let c = count(&t.2, 1.0)?;
                    *got.entry((is, pos_of(a, k))).or_default() += c;
                    st.push((t.3, a.arcs[k].d, c, len + 1));
                }
                if let Some(w) = &m.fin[s] {
                    if a.fin[is].is_none() {
                        return Err(format!("a sample ends in input state {is}, which is not final"));
                    }
                    let c = count(w, if total { 1.0 } else { np as f64 })?;
                    *got.entry((is, degree(a, is))).or_default() += c;
                }
                let cut = len == ml || degree(a, is) + a.fin[is].is_some() as usize == 0;
                if sum != if cut { 0 } else { n } {
                    return Err(format!("a branch drawn {n} times continues {sum} times: {m:?}"));
                }
            }
            if seen.iter().any(|x| !x) {
                return Err(format!("unreachable states: {m:?}"));
            }
        } else if a.start.is_some() {
            return Err("no start state".into());
        }
        if got != draws(&log) {
            return Err(format!("drawn {:?}, generated {got:?}", draws(&log)));
        }
        states(m.n() as u64);
        transitions(log.len() as u64);
        trace();
        Ok(())
    })?;
    if runs > 1 {
        nontrivial();
    }
    Ok(())
}
fn nl(w: f32) -> f64 {
    (-w as f64).exp()
}
fn both(x: &(Aut, usize, usize)) -> Result<(), String> {
    let (a, np, ml) = x;
    unweighted::<TropicalWeight>(a, *np, *ml)?;
    weighted::<TropicalWeight>(a, *np, *ml, false, |w| nl(*w.value()))?;
    weighted::<LogWeight>(a, *np, *ml, true, |w| nl(*w.value()))
}
/// The library's own selector: reproducible, in range, and able to draw everything.
fn seeded(a: &Aut) -> Result<(), String> {
    let f = input::<TropicalWeight>(a);
    let mut met: Vec<std::collections::BTreeSet<usize>> = vec![Default::default(); a.n];
    for seed in 0..64u64 {
        for s in 0..a.n {
            let n = degree(a, s) + a.fin[s].is_some() as usize;
            if n == 0 {
                continue;
            }
            let (mut x, mut y) = (UniformTrSelector::from_seed(seed), UniformTrSelector::from_seed(seed));
            let mut z = x.clone();
            for _ in 0..4 {
                let (p, q, r) = (ok("select", x.select_tr(&f, s as StateId))?, ok("select", y.select_tr(&f, s as StateId))?, ok("select", z.select_tr(&f, s as StateId))?);
                if p >= n {
                    return Err(format!("seed {seed}: drew position {p} of {n} at state {s}"));
                }
                if p != q || p != r {
                    return Err(format!("seed {seed}: the same seed draws {p}, {q} and {r} at state {s}"));
                }
                met[s].insert(p);
            }
        }
        for w in [false, true] {
            let run = || -> Result<VectorFst<TropicalWeight>, String> { ok("randgen", randgen_with_config(&f, RandGenConfig::new(UniformTrSelector::from_seed(seed)).with_npath(3).with_max_length(4).with_weighted(w))) };
            if run()? != run()? {
                return Err(format!("seed {seed}: two runs differ (weighted {w})"));
            }
            trace();
        }
    }
    for s in 0..a.n {
        let n = degree(a, s) + a.fin[s].is_some() as usize;
        if n > 1 {
            nontrivial();
        }
        if met[s].len() != n {
            return Err(format!("state {s}: of {n} possibilities only {:?} are ever drawn over 64 seeds", met[s]));
        }
    }
    // the one-call form draws one path of an acyclic machine
    if a.is_acyclic() && a.start.is_some() && a.is_trim() {
        let g: VectorFst<TropicalWeight> = ok("randgen", randgen(&f))?;
        let m = M::of(&g)?;
        if relation(&m, a.n, a.n).unwrap().len() != 1 {
            return Err(format!("randgen yields {m:?}, not one path"));
        }
    }
    Ok(())
}

fn main() {
    run("C25", "model_checking", |m| {
        let p = [(1, 1)];
        let mut base: Vec<Aut> = vec![Aut::empty()];
        base.extend(Auts::new(1, 2, &p).all_starts().collect(|_| true));
        base.extend(Auts::new(2, 3, &p).all_starts().collect(|_| true));
        let mut v = vec![];
        for a in &base {
            for (np, ml) in [(1, 6), (2, 3), (3, 2), (2, 1), (2, 0), (0, 3), (4, 1), (3, m.pick(2, 3))] {
                v.push((a.clone(), np, ml));
            }
        }
        m.family("cyclic", "all machines of <=2 states and <=3 transitions; 0..4 samples, length limit 0..4; every outcome of every draw", v, both);
        let fwd = |a: &Aut| a.arcs.iter().all(|t| t.s < t.d);
        let acy = Auts::new(3, m.pick(4, 5), &p).starts(vec![Some(0), Some(1)]).collect(fwd);
        let v: Vec<_> = acy.iter().flat_map(|a| [(1, usize::MAX >> 8), (2, usize::MAX >> 8), (m.pick(3, 5), 7)].map(|(n, l)| (a.clone(), n, l))).collect();
        m.family("acyclic", "all acyclic 3-state machines; 1..3 (5) samples without length limit", v, |x| {
            let (a, n, l) = x;
            // the scripted selector's own bound needs a small number
            let l = if *l > 100 { 8 } else { *l };
            both(&(a.clone(), *n, l))
        });
        let v: Vec<_> = Auts::new(3, 4, &p).kmin(2).simple().collect(|a| a.is_canonical() && a.is_trim()).into_iter().flat_map(|a| [(a.clone(), 2, m.pick(4, 5)), (a, 3, m.pick(3, 3))]).collect();
        m.family("cyclic3", "all trim 3-state machines with 2..4 distinct transitions; 2 samples with length limit 4 (5), 3 samples with length limit 3", v, both);
        m.family("seeded", "the library's uniform selector: same seed same result, always in range, every possibility drawn within 64 seeds", {
            let mut v = base.clone();
            v.extend(acy.clone());
            v
        }, seeded);
        m.family("probability", "weighted generation over probability weights", vec!["one transition, one sample".to_string()], |_| {
            let a = Auts::new(2, 1, &p).collect(|a| a.arcs.len() == 1 && a.is_trim()).remove(0);
            weighted::<ProbabilityWeight>(&a, 1, 3, false, |w| *w.value() as f64)
        });
        m.assumptions = vec![
            "a sample that reaches the length limit or a state without way out yields no path (the branch stays, unfinished, in the weighted tree)".into(),
            "draws of the empty path cannot be counted in unweighted mode (they all make the start state final)".into(),
        ];
    })
}
