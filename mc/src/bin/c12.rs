//! C12: minimization.
use mc::*;
use rustfst::algorithms::{minimize, minimize_with_config, MinimizeConfig};
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

type T = TropicalWeight;
const INF: i32 = i32::MAX / 4;

/// Number of states of the canonical minimal machine of a deterministic weighted acceptor:
/// Moore refinement of the useful part after moving every weight as early as possible.
fn minimal(a: &Aut) -> usize {
    let (r, c) = (a.reach(), a.coreach());
    let useful: Vec<bool> = (0..a.n).map(|s| r[s] && c[s]).collect();
    let Some(start) = a.start.filter(|s| useful[*s]) else { return 0 };
    let mut d: Vec<i32> = (0..a.n).map(|s| a.fin[s].unwrap_or(INF)).collect();
    for _ in 0..=a.n {
        for t in &a.arcs {
            if useful[t.s] && useful[t.d] {
                d[t.s] = d[t.s].min(t.w + d[t.d]);
            }
        }
    }
    // the total weight has to sit on the start's transitions, or on a new start if the start is on a cycle
    let on_cycle = a.arcs.iter().any(|t| t.d == start && useful[t.s]);
    let extra = usize::from(on_cycle && d[start] != 0);
    let add = |s: usize| if s == start && !on_cycle { d[start] } else { 0 };
    let mut cls: Vec<usize> = vec![0; a.n];
    let mut count = 0;
    loop {
        let mut sig: BTreeMap<(Option<i32>, BTreeSet<(Label, i32, usize)>, usize), usize> = BTreeMap::new();
        let mut nx = vec![0; a.n];
        for s in 0..a.n {
            if !useful[s] {
                continue;
            }
            let f = a.fin[s].map(|w| w - d[s] + add(s));
            let o: BTreeSet<_> = a.arcs.iter().filter(|t| t.s == s && useful[t.d]).map(|t| (t.i, t.w + d[t.d] - d[s] + add(s), cls[t.d])).collect();
            let k = sig.len();
            nx[s] = *sig.entry((f, o, cls[s])).or_insert(k);
            states(1);
        }
        cls = nx;
        if sig.len() == count {
            return count + extra;
        }
        count = sig.len();
    }
}
/// Exact language equivalence of two deterministic unweighted acceptors (product walk).
fn equivalent(a: &M<T>, b: &M<T>) -> Result<(), String> {
    let mut seen = HashSet::new();
    let mut q = vec![(a.start, b.start)];
    while let Some((x, y)) = q.pop() {
        if !seen.insert((x, y)) {
            continue;
        }
        states(1);
        let fin = |m: &M<T>, s: Option<usize>| s.is_some_and(|s| m.fin[s].is_some());
        if fin(a, x) != fin(b, y) {
            return Err("the minimized machine accepts a different language".into());
        }
        let mut labels = BTreeSet::new();
        for (m, s) in [(a, x), (b, y)] {
            if let Some(s) = s {
                for t in &m.arcs[s] {
                    labels.insert(t.0);
                    if t.0 != t.1 || !t.2.is_one() {
                        return Err("minimizing an unweighted acceptor changed labels or weights".into());
                    }
                }
            }
        }
        for l in labels {
            transitions(1);
            let step = |m: &M<T>, s: Option<usize>| -> Option<usize> { s.and_then(|s| m.arcs[s].iter().find(|t| t.0 == l).map(|t| t.3)) };
            q.push((step(a, x), step(b, y)));
        }
    }
    Ok(())
}
fn det(m: &M<T>) -> bool {
    m.arcs.iter().all(|v| {
        let mut l: Vec<_> = v.iter().map(|t| t.0).collect();
        l.sort_unstable();
        l.windows(2).all(|w| w[0] != w[1])
    })
}
fn min(f: &VectorFst<T>) -> Result<VectorFst<T>, String> {
    let mut g = f.clone();
    ok("minimize", minimize(&mut g))?;
    Ok(g)
}
/// Deterministic unweighted acceptor: equivalent and canonical size.
fn dfa(a: &Aut) -> Result<(), String> {
    let want = minimal(a);
    if want > 1 && want < a.n {
        nontrivial();
    }
    let m = a.m_trop();
    let f = a.fst_trop();
    let g = min(&f)?;
    let r = M::of(&g)?;
    if !det(&r) {
        return Err("the minimized machine is not deterministic".into());
    }
    equivalent(&m, &r)?;
    if r.n() != want {
        return Err(format!("minimized to {} states, the minimal automaton has {want}: {r:?}", r.n()));
    }
    flags_ok("minimize", &g)?;
    trace();
    Ok(())
}
/// Deterministic weighted acceptor.
fn wdfa(a: &Aut, len: usize) -> Result<(), String> {
    let want = minimal(a);
    let rel = relation(&a.m_trop(), len, len).ok_or("no relation")?;
    if want > 0 && want < a.n {
        nontrivial();
    }
    for v in with_flags(&a.fst_trop()) {
        let g = min(&v)?;
        cmp_rel("minimized machine", &rel_of(&g, len, len)?, &rel, eq_exact)?;
        let r = M::of(&g)?;
        if !det(&r) {
            return Err("the minimized machine is not deterministic".into());
        }
        if r.n() != want {
            return Err(format!("minimized to {} states, the minimal weighted automaton has {want}: {r:?}", r.n()));
        }
        flags_ok("minimize", &g)?;
        trace();
    }
    Ok(())
}
/// Input-deterministic transducer: relation kept.
fn fst(a: &Aut, len: usize) -> Result<(), String> {
    let rel = relation(&a.m_trop(), len, len).ok_or("no relation")?;
    if !rel.is_empty() {
        nontrivial();
    }
    for v in with_flags(&a.fst_trop()) {
        let g = min(&v)?;
        cmp_rel("minimized transducer", &rel_of(&g, len, len)?, &rel, eq_exact)?;
        flags_ok("minimize", &g)?;
        trace();
    }
    Ok(())
}
/// Any machine: refused when non-deterministic, relation kept when allowed.
fn nondet(a: &Aut, len: usize) -> Result<(), String> {
    let m = a.m_trop();
    let d = det(&m);
    let f = a.fst_trop();
    for v in with_flags(&f) {
        let mut g = v.clone();
        if minimize(&mut g).is_ok() != d {
            return Err(if d { "a deterministic machine was refused" } else { "a non-deterministic machine was not refused" }.into());
        }
        if !d && M::of(&g)? != m {
            return Err("a refused machine was modified".into());
        }
        let Some(rel) = relation(&m, len, len) else {
            skip();
            return Ok(());
        };
        if !d && !rel.is_empty() {
            nontrivial();
        }
        let mut g = v.clone();
        ok("minimize (allow_nondet)", minimize_with_config(&mut g, MinimizeConfig::default().with_allow_nondet(true)))?;
        cmp_rel("minimized machine (allow_nondet)", &rel_of(&g, len, len)?, &rel, eq_exact)?;
        if g.num_states() > a.n + 1 && a.arcs.iter().all(|t| t.i == t.o) {
            return Err(format!("minimization grew an acceptor from {} to {} states", a.n, g.num_states()));
        }
        flags_ok("minimize", &g)?;
        trace();
    }
    if !d {
        // over a non-idempotent semiring it must be refused even when non-determinism is allowed
        let mut g: VectorFst<LogWeight> = a.build(|_, w| LogWeight::new(w as f32), |_, w| LogWeight::new(w as f32));
        if minimize_with_config(&mut g, MinimizeConfig::default().with_allow_nondet(true)).is_ok() {
            return Err("a non-deterministic machine over the log semiring was not refused".into());
        }
    }
    Ok(())
}
/// A start state, `k` middle states entered by different labels, a final sink and a state one step before it;
/// middle state j is described by c[j] = final? + 2 * (target of label 1: none, sink, before) + 6 * (same for label 2).
/// Numbering: natural, reversed, or start last.
fn fan(c: &[usize], num: usize) -> Aut {
    let k = c.len();
    let n = k + 3;
    let p = |s: usize| match num {
        0 => s,
        1 => n - 1 - s,
        _ => (s + n - 1) % n,
    };
    let mut a = Aut { n, start: Some(p(0)), fin: vec![None; n], arcs: vec![] };
    a.fin[p(n - 1)] = Some(0);
    a.arcs.push(Arc5 { s: p(n - 2), i: 1, o: 1, w: 0, d: p(n - 1) });
    for (j, x) in c.iter().enumerate() {
        a.arcs.push(Arc5 { s: p(0), i: 1 + j as Label, o: 1 + j as Label, w: 0, d: p(1 + j) });
        if x % 2 == 1 {
            a.fin[p(1 + j)] = Some(0);
        }
        for (l, y) in [(1, x / 2 % 3), (2, x / 6)] {
            if y > 0 {
                a.arcs.push(Arc5 { s: p(1 + j), i: l, o: l, w: 0, d: p(n - y) });
            }
        }
    }
    a.arcs.sort_by_key(|t| t.s);
    a
}
fn modular(n: usize, ab: usize, cd: usize, k: usize, ord: usize) -> Aut {
    let mut a = Aut { n, start: Some(ord % n), fin: (0..n).map(|s| if s % k == 0 { Some(0) } else { None }).collect(), arcs: vec![] };
    for s in 0..n {
        let mut v = vec![Arc5 { s, i: 1, o: 1, w: 0, d: (s * (ab % 4) + ab / 4) % n }, Arc5 { s, i: 2, o: 2, w: 0, d: (s * (cd % 4) + cd / 4) % n }];
        if ord == 1 || (ord == 2 && s % 3 == 1) {
            v.reverse();
        }
        a.arcs.extend(v);
    }
    a
}
fn main() {
    run("C12", "model_checking", |m| {
        let any = |n: usize| (0..n).map(Some).chain([None]).collect::<Vec<_>>();
        let mut v = vec![Aut::empty()];
        let sp = Dfas::new(1, &[0, 1, 2]).starts(any(1));
        v.extend((0..sp.len()).map(|i| sp.get(i)));
        m.family("dfa-1", "all partial DFAs with <=1 state over labels eps,1,2", v, dfa);
        m.family("dfa-2", "all partial DFAs with 2 states over 3 labels, any start, every arc order", Dfas::new(2, &[1, 2, 3]).starts(any(2)).orders(&[0, 1, 2]), dfa);
        m.family("dfa-3", "all partial DFAs with 3 states over 2 labels, any start, three arc orders", Dfas::new(3, &[1, 2]).starts(any(3)).orders(&[0, 1, 2]), dfa);
        if m.thorough() {
            m.family("dfa-4", "all partial DFAs with 4 states over 2 labels, three arc orders", Dfas::new(4, &[1, 2]).orders(&[0, 1, 2]), dfa);
            m.family("dfa-3x3", "all complete DFAs with 3 states over 3 labels", Dfas::new(3, &[1, 2, 3]).complete().orders(&[0, 1, 2]), dfa);
        } else {
            m.family("dfa-4", "all complete DFAs with 4 states over 2 labels", Dfas::new(4, &[1, 2]).complete().orders(&[2]), dfa);
        }
        m.family("dfa-5", "all partial DFAs with 5 states over one label", Dfas::new(5, &[3]).starts(vec![Some(0), Some(3)]), dfa);
        m.family("dfa-6", "all complete DFAs with 6 states over one label", Dfas::new(6, &[1]).complete(), dfa);
        m.family("dfa-big-labels", "all partial 2-state DFAs over labels 5, 2^31+1, 2^32-2", Dfas::new(2, &[5, 0x8000_0001, u32::MAX - 1]).orders(&[0, 1, 2]), dfa);
        let r = |n: usize| (0..n).collect::<Vec<usize>>();
        m.family("dfa-modular", "DFAs with n=5..20 (40) states over 2 labels with successors (a*s+b) mod n and (c*s+d) mod n, every k-th state final: all a,c<4 b,d<3 k in 2..6, both arc orders", Prod(Prod(Prod((5..m.pick(20, 40)).collect::<Vec<usize>>(), r(12)), Prod(r(12), (2..6).collect::<Vec<usize>>())), r(3)), |(((n, ab), (cd, k)), ord)| dfa(&modular(*n, *ab, *cd, *k, *ord)));
        m.family("dag-5", "all acyclic DFAs with 5 states over 2 labels, numbered forward", Dfas::new(5, &[1, 2]).forward().orders(m.pick(&[2][..], &[0, 1, 2][..])), dfa);
        let fans = {
            let small: Vec<usize> = (0..18).filter(|x| x / 2 % 3 < 2 && x / 6 < 2).collect();
            let mut v: Vec<(Vec<usize>, usize)> = vec![];
            for num in 0..3 {
                for (k, all) in [(3u32, true), (4, m.thorough())] {
                    let ch: Vec<usize> = if all { (0..18).collect() } else { small.clone() };
                    let q = ch.len();
                    for x in 0..q.pow(k) {
                        v.push(((0..k).map(|j| ch[x / q.pow(j) % q]).collect(), num));
                    }
                }
            }
            v
        };
        m.family("fans", "a start state fanning out to 3 or 4 middle states, each one final or not with any successors on 2 labels among a final sink, a state before it or none (3: all; 4: all of height 1, thorough all), three state numberings", fans, |(c, num)| dfa(&fan(c, *num)));
        m.family("wdfa-2", "all 2-state DFAs over 2 labels with weights {0,1,3}, finals {0,2}, any start", Dfas::new(2, &[1, 2]).aw(&[0, 1, 3]).fw(&[0, 2]).starts(any(2)).orders(&[0, 2]), |a| wdfa(a, 5));
        m.family("wdfa-3", "all 3-state DFAs over 1 label with weights {0,1,3}, finals {0,2}, any start", Dfas::new(3, &[1]).aw(&[0, 1, 3]).fw(&[0, 2]).starts(any(3)), |a| wdfa(a, 6));
        m.family("wdag-3", "all acyclic 3-state DFAs over 2 labels with weights {0,1,2}, finals {0,1}", Dfas::new(3, &[1, 2]).forward().aw(&[0, 1, 2]).fw(&[0, 1]).orders(&[0, 2]), |a| wdfa(a, 3));
        m.family("wdag-4", "all acyclic 4-state DFAs over 2 labels with weights {0,1}, finals {0}", Dfas::new(4, &[1, 2]).forward().aw(&[0, 1]).orders(&[2]), |a| wdfa(a, 4));
        if m.thorough() {
            m.family("wdfa-3x2", "all 3-state DFAs over 2 labels with weights {0,2}", Dfas::new(3, &[1, 2]).aw(&[0, 2]), |a| wdfa(a, 5));
        }
        m.family("fst-2", "all 2-state input-deterministic transducers over 2 input labels, outputs eps,1,2", Dfas::new(2, &[1, 2]).outs(&[0, 1, 2]).starts(any(2)), |a| fst(a, 4));
        m.family("fst-2w", "all 2-state input-deterministic transducers over 1 input label, outputs eps,1,2, weights {0,1,3}, finals {0,2}", Dfas::new(2, &[1]).outs(&[0, 1, 2]).aw(&[0, 1, 3]).fw(&[0, 2]).starts(any(2)), |a| fst(a, 5));
        m.family("fst-3", "all 3-state input-deterministic transducers over 1 input label, outputs eps,1,2, weights {0,2}", Dfas::new(3, &[1]).outs(&[0, 1, 2]).aw(&[0, 2]).fw(&[0, 1]).starts(vec![Some(0), Some(2)]), |a| fst(a, 5));
        m.family("fst-dag-3", "all acyclic 3-state transducers over 2 input labels, outputs eps,1,2", Dfas::new(3, &[1, 2]).forward().outs(&[0, 1, 2]).aw(&[0, 1]).fw(&[0, 1]).orders(&[0, 2]), |a| fst(a, 3));
        m.family("nondet-2", "all 2-state acceptors with <=3 (4) arcs over labels eps,1,2, weights {0,1}", Auts::new(2, m.pick(3, 4), &[(1, 1), (2, 2), (0, 0)]).aw(&[0, 1]).fw(&[0, 1]).all_starts(), |a| nondet(a, 4));
        m.family("nondet-3", "all 3-state unweighted acceptors with <=4 (5) arcs over 2 labels", Auts::new(3, m.pick(4, 5), &[(1, 1), (2, 2)]).starts(vec![Some(0), Some(1)]).both_orders(), |a| nondet(a, 4));
        m.family("nondet-fst", "all 2-state transducers with <=3 (4) arcs over 4 label pairs", Auts::new(2, m.pick(2, 3), &[(1, 1), (1, 2), (0, 2), (1, 0)]).aw(&[0, 1]).fw(&[0, 1]).all_starts(), |a| nondet(a, 3));
        let wm = |&(n, (ab, (cd, (k, ord)))): &(usize, (usize, (usize, (usize, usize)))), outs: bool| {
            let mut a = modular(n, ab, cd, k, ord);
            for (j, t) in a.arcs.iter_mut().enumerate() {
                t.w = ((j * 3 + t.d) % 4) as i32;
                if outs {
                    t.o = ((j * j + t.s) % 3) as Label;
                }
            }
            a
        };
        let sp = |ns: Vec<usize>| Prod(ns, Prod(r(12), Prod(r(12), Prod(vec![2usize, 3], vec![2usize]))));
        m.family("wdfa-modular", "the same DFAs with 4..8 (12) states and weights 0..3", sp((4..m.pick(9, 13)).collect()), |x| wdfa(&wm(x, false), 4));
        m.family("fst-modular", "the same as transducers with outputs eps,1,2", sp((4..m.pick(6, 9)).collect()), |x| fst(&wm(x, true), 3));
        m.family("nondet-larger", "patterned machines of 4 to 6 (9) states: 5 shapes, acceptors (with epsilons, big labels) and transducers", riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 6][..], &[4, 5, 6, 7, 8, 9][..]), 4, &[0, 1, 3, 4]), |a| nondet(a, 3));
        m.assumptions = vec!["weights are small integers; weighted relations compared on strings up to the stated length; unweighted acceptors compared exactly".into()];
    })
}
