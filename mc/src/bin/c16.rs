//! C16: single and n-best shortest paths against exhaustive path enumeration.
use mc::*;
use rustfst::algorithms::{shortest_path, shortest_path_with_config, ShortestPathConfig};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::collections::BTreeMap;

type I = Vec<Vec<(Label, Label, i32, usize)>>;
struct G {
    start: Option<usize>,
    fin: Vec<Option<i32>>,
    arcs: I,
}
fn ival(w: &TropicalWeight) -> Result<i32, String> {
    let v = *w.value();
    if v.is_finite() && v.fract() == 0.0 {
        Ok(v as i32)
    } else {
        Err(format!("a result weight is {v}, the sum of no input weights"))
    }
}
fn graph(m: &M<TropicalWeight>) -> Result<G, String> {
    let mut arcs = vec![];
    for v in &m.arcs {
        let mut r = vec![];
        for t in v {
            r.push((t.0, t.1, ival(&t.2)?, t.3));
        }
        arcs.push(r);
    }
    let mut fin = vec![];
    for f in &m.fin {
        fin.push(match f {
            Some(w) => Some(ival(w)?),
            None => None,
        });
    }
    Ok(G { start: m.start, fin, arcs })
}
/// The `k` smallest accepting-path weights (fewer if fewer paths exist), by k-best dynamic programming over path length.
fn kbest(g: &G, k: usize) -> Vec<i32> {
    let n = g.fin.len();
    let Some(s0) = g.start else { return vec![] };
    let mut best: Vec<i32> = vec![];
    let mut cur: Vec<Vec<i32>> = vec![vec![]; n];
    cur[s0].push(0);
    for _ in 0..=n * k {
        for s in 0..n {
            if let Some(f) = g.fin[s] {
                best.extend(cur[s].iter().map(|w| w + f));
            }
        }
        best.sort_unstable();
        best.truncate(k);
        let mut nx: Vec<Vec<i32>> = vec![vec![]; n];
        for s in 0..n {
            for t in &g.arcs[s] {
                transitions(1);
                nx[t.3].extend(cur[s].iter().map(|w| w + t.2));
            }
        }
        for v in nx.iter_mut() {
            v.sort_unstable();
            v.truncate(k);
        }
        cur = nx;
        if cur.iter().all(|v| v.is_empty()) {
            break;
        }
    }
    best
}
/// A string of labels 1..=3, two bits each after a leading one.
type S = u128;
fn put(s: S, l: Label) -> S {
    assert!(l < 4 && s >> 124 == 0, "string too long for the harness");
    if l == 0 {
        s
    } else {
        (s << 2) | l as S
    }
}
type Count = BTreeMap<(S, S, i32), u64>;
/// Accepting paths of at most `maxlen` transitions and weight at most `cut`, counted by (input, output, weight).
fn paths(g: &G, maxlen: usize, cut: i32, min: i32) -> Count {
    let mut res = Count::new();
    let Some(s0) = g.start else { return res };
    let mut cur: BTreeMap<(usize, S, S, i32), u64> = BTreeMap::new();
    cur.insert((s0, 1, 1, 0), 1);
    for len in 0..=maxlen {
        for ((s, i, o, w), c) in &cur {
            if let Some(f) = g.fin[*s] {
                if w + f <= cut {
                    *res.entry((*i, *o, w + f)).or_default() += c;
                }
            }
        }
        if len == maxlen {
            break;
        }
        let mut nx = BTreeMap::new();
        for ((s, i, o, w), c) in &cur {
            for t in &g.arcs[*s] {
                transitions(1);
                if min < 0 || w + t.2 <= cut {
                    *nx.entry((t.3, put(*i, t.0), put(*o, t.1), w + t.2)).or_default() += c;
                }
            }
        }
        states(nx.len() as u64);
        cur = nx;
        if cur.is_empty() {
            break;
        }
    }
    res
}
fn result(what: &str, f: &VectorFst<TropicalWeight>) -> Result<Count, String> {
    let m = M::of(f)?;
    let g = graph(&m)?;
    let n = g.fin.len();
    // longest path of an acyclic machine has fewer than n arcs
    let mut c = vec![0usize; n];
    for v in &g.arcs {
        for t in v {
            c[t.3] += 1;
        }
    }
    let mut q: Vec<usize> = (0..n).filter(|s| c[*s] == 0).collect();
    let mut seen = 0;
    while let Some(s) = q.pop() {
        seen += 1;
        for t in &g.arcs[s] {
            c[t.3] -= 1;
            if c[t.3] == 0 {
                q.push(t.3);
            }
        }
    }
    if seen != n {
        return Err(format!("{what}: the result has a cycle, hence not finitely many paths"));
    }
    if n > 0 && g.start.is_none() {
        return Err(format!("{what}: the result has states but no start"));
    }
    flags_ok(what, f)?;
    Ok(paths(&g, n, i32::MAX / 2, -1))
}
fn sp(f: &VectorFst<TropicalWeight>, n: usize, u: bool) -> Result<VectorFst<TropicalWeight>, String> {
    ok("shortest_path", shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(n).with_unique(u)))
}
fn check(a: &Aut, kmax: usize) -> Result<(), String> {
    check_on(a, kmax, true)
}
fn check_on(a: &Aut, kmax: usize, member: bool) -> Result<(), String> {
    let f = a.fst_trop();
    let g = graph(&a.m_trop())?;
    let minw = a.arcs.iter().map(|t| t.w).chain(a.fin.iter().flatten().copied()).min().unwrap_or(0);
    let best = kbest(&g, kmax);
    if !best.is_empty() {
        nontrivial();
    }
    for v in with_flags(&f) {
        // single shortest path
        let one: VectorFst<TropicalWeight> = ok("shortest_path", shortest_path(&v))?;
        let m = M::of(&one)?;
        if best.is_empty() {
            if m.n() != 0 {
                return Err("shortest_path of a machine without accepting path is not empty".into());
            }
        } else {
            // a chain whose every step exists in the input
            let gm = graph(&m)?;
            let mut s = gm.start.ok_or("shortest path: no start")?;
            let mut at: Vec<bool> = (0..a.n).map(|x| Some(x) == a.start).collect();
            let (mut tot, mut len) = (0, 0);
            loop {
                if gm.arcs[s].is_empty() {
                    break;
                }
                if gm.arcs[s].len() > 1 || gm.fin[s].is_some() {
                    return Err("shortest path: the result is not a single path".into());
                }
                let t = gm.arcs[s][0];
                let mut nx = vec![false; a.n];
                for (x, on) in at.iter().enumerate() {
                    if *on {
                        for e in &g.arcs[x] {
                            if (e.0, e.1, e.2) == (t.0, t.1, t.2) {
                                nx[e.3] = true;
                            }
                        }
                    }
                }
                at = nx;
                tot += t.2;
                s = t.3;
                len += 1;
                if len > a.n {
                    return Err("shortest path: more transitions than states".into());
                }
            }
            let Some(fw) = gm.fin[s] else { return Err("shortest path: last state is not final".into()) };
            if !(0..a.n).any(|x| at[x] && g.fin[x] == Some(fw)) {
                return Err(format!("the single shortest path is not an accepting path of the input: {m:?}"));
            }
            if gm.fin.len() != len + 1 {
                return Err("shortest path: unused states in the result".into());
            }
            if tot + fw != best[0] {
                return Err(format!("single shortest path weighs {}, the minimum is {}", tot + fw, best[0]));
            }
        }
        flags_ok("shortest path", &one)?;
        trace();
        let zero = sp(&v, 0, false)?;
        if zero.num_states() != 0 {
            return Err("nshortest=0 gives a non-empty result".into());
        }
        for k in 2..=kmax {
            let r = result("n shortest paths", &sp(&v, k, false)?)?;
            let want = &best[..k.min(best.len())];
            let mut got = vec![];
            for ((_, _, w), c) in &r {
                got.extend(std::iter::repeat(*w).take((*c).min(64) as usize));
            }
            got.sort_unstable();
            if got != want {
                return Err(format!("{k} shortest paths have weights {got:?}, the best are {want:?}"));
            }
            let Some(cut) = want.last() else { continue };
            if !member {
                continue;
            }
            let all = paths(&g, a.n * k, *cut, minw);
            for (key, c) in &r {
                let have = all.get(key).copied().unwrap_or(0);
                if *c > have {
                    return Err(format!("{k} shortest paths: {}:{} of weight {} is returned {c} times, the input has {have} such paths", show(key.0), show(key.1), key.2));
                }
            }
            for (key, c) in &all {
                if key.2 < *cut && r.get(key) != Some(c) {
                    return Err(format!("{k} shortest paths: better path {}:{} of weight {} is missing", show(key.0), show(key.1), key.2));
                }
            }
            trace();
        }
    }
    Ok(())
}
fn show(mut s: S) -> String {
    let mut v = vec![];
    while s > 1 {
        v.push((s & 3) as Label);
        s >>= 2;
    }
    v.reverse();
    format!("{v:?}")
}
/// Acyclic epsilon-free acceptors: each string once, best weight.
fn unique(a: &Aut, kmax: usize) -> Result<(), String> {
    let g = graph(&a.m_trop())?;
    let all = paths(&g, a.n, i32::MAX / 2, -1);
    let mut best: BTreeMap<(S, S), i32> = BTreeMap::new();
    for (i, o, w) in all.keys() {
        let e = best.entry((*i, *o)).or_insert(*w);
        *e = (*e).min(*w);
    }
    if best.len() > 1 {
        nontrivial();
    }
    let mut ws: Vec<i32> = best.values().copied().collect();
    ws.sort_unstable();
    for mut v in with_flags(&a.fst_trop()) {
        ok("properties", v.compute_and_update_properties(FstProperties::ACCEPTOR))?;
        for k in 2..=kmax {
            let r = result("unique shortest paths", &sp(&v, k, true)?)?;
            let mut got = vec![];
            for ((i, o, w), c) in &r {
                if *c > 1 || best.get(&(*i, *o)) != Some(w) {
                    return Err(format!("{k} unique shortest paths: {} appears {c} times with weight {w}, its best weight is {:?}", show(*i), best.get(&(*i, *o))));
                }
                got.push(*w);
            }
            got.sort_unstable();
            if got != ws[..k.min(ws.len())] {
                return Err(format!("{k} unique shortest paths have weights {got:?}, the best distinct strings {:?}", &ws[..k.min(ws.len())]));
            }
            trace();
        }
    }
    Ok(())
}
/// Weights without the path property have no shortest path: refused.
fn refused(a: &Aut) -> Result<(), String> {
    let f: VectorFst<LogWeight> = a.build(|_, w| LogWeight::new(w as f32), |_, w| LogWeight::new(w as f32));
    nontrivial();
    for n in [1, 2, 3] {
        let r: anyhow::Result<VectorFst<LogWeight>> = shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n));
        if let Ok(r) = r {
            if a.start.is_some() || r.num_states() > 0 {
                return Err(format!("shortest_path(n={n}) accepted log weights, which have no best path"));
            }
        }
        trace();
    }
    Ok(())
}
fn main() {
    run("C16", "model_checking", |m| {
        let p1 = [(1, 2)];
        let p3 = [(1, 1), (0, 2), (2, 0)];
        let k = m.pick(4, 6);
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 3, &p3).aw(&[0, 1]).fw(&[0, 2]).all_starts().collect(|_| true));
        m.family("n<=1", "all machines with <=1 state and <=3 arcs (labels 1:1, eps:2, 2:eps; weights 0,1; finals 0,2), any start", v, |a| check(a, 4));
        m.family("n=2", "all machines with 2 states, <=3 arcs with weights {0,1,3}, finals {0,2}, any start; n-best up to 4 (6)", Auts::new(2, 3, &p1).aw(&[0, 1, 3]).fw(&[0, 2]).all_starts(), |a| check(a, k));
        m.family("n=2-labels", "all machines with 2 states, <=3 (4) arcs over 3 label pairs incl. epsilons, weights {1,2}", Auts::new(2, m.pick(3, 4), &p3).aw(&[1, 2]).fw(&[0, 1]).all_starts(), |a| check(a, 4));
        m.family("n=3", "all machines with 3 states, <=4 (5) arcs with weights {1,2}, finals {0,1}, start 0 or 2, both arc orders", Auts::new(3, m.pick(4, 5), &p1).aw(&[1, 2]).fw(&[0, 1]).starts(vec![Some(0), Some(2)]).both_orders(), |a| check(a, 3));
        m.family("n=3-ties", "all machines with 3 states, <=4 (5) arcs of weight 0 or 1, with zero-weight cycles", Auts::new(3, m.pick(4, 5), &p1).aw(&[0, 1]).fw(&[0]).starts(vec![Some(1)]), |a| check(a, 3));
        m.family("n=4", "all machines with 4 states, 3..=4 distinct arcs with weights {1,3}, start 0", Auts::new(4, m.pick(3, 4), &p1).kmin(3).simple().aw(&[1, 3]).fw(&[0, 4]).starts(vec![Some(0)]), |a| check(a, 3));
        m.family("n=5-unweighted", "all 5-state machines with 4 (5) distinct arcs of weight 1, finals {0}, start 2", Auts::new(5, m.pick(4, 5), &p1).kmin(4).simple().aw(&[1]).fw(&[0]).starts(vec![Some(2)]), |a| check(a, 2));
        m.family("negative", "all 3-state acyclic machines with <=4 arcs with weights {-2,1}", Auts::new(3, 4, &p1).aw(&[-2, 1]).fw(&[0, -1]).starts(vec![Some(0), Some(2)]).collect(|a| a.is_acyclic()), |a| check(a, 4));
        m.family("acyclic-4", "all acyclic 4-state machines, forward numbering, <=5 (6) arcs with weights {1,2}", Auts::new(4, m.pick(4, 5), &p1).aw(&[1, 2]).fw(&[0, 3]).starts(vec![Some(0)]).collect(|a| a.arcs.iter().all(|t| t.s < t.d)), |a| check(a, k));
        let acc = [(1, 1), (2, 2)];
        m.family("unique-3", "all acyclic epsilon-free 3-state acceptors, <=4 arcs over 2 labels with weights {1,2}, finals {0,1}", Auts::new(3, m.pick(4, 5), &acc).aw(&[1, 2]).fw(&[0, 1]).starts(vec![Some(0), Some(1)]).collect(|a| a.is_acyclic()), |a| unique(a, 4));
        m.family("unique-4", "all acyclic epsilon-free 4-state acceptors numbered forward, 3..=4 (5) arcs over 2 labels with weights {0,2}", Auts::new(4, m.pick(4, 5), &acc).kmin(3).aw(&[0, 2]).fw(&[0]).starts(vec![Some(0)]).collect(|a| a.arcs.iter().all(|t| t.s < t.d)), |a| unique(a, 5));
        m.family("no-path-property", "all 2-state machines with <=2 arcs, log weights", Auts::new(2, 2, &p1).aw(&[1, 2]).fw(&[0]).all_starts(), refused);
        let (kinds, sizes, seeds): (Vec<usize>, Vec<usize>, Vec<usize>) = ((0..5).collect(), (2..m.pick(16, 24)).collect(), (0..m.pick(8, 24)).collect());
        m.family("shapes", "five parametric graph shapes of every size up to 15 (23) with patterned weights: single path and weights of the 4 best", Prod(Prod(kinds, sizes), seeds), |((k, n), s)| check_on(&shape(*k, *n, *s), 4, false));
        m.assumptions = vec!["tropical weights are small integers (exact in f32)".into(), "uniqueness is judged on acyclic epsilon-free acceptors".into()];
    })
}
