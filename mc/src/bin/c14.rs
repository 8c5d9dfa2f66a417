//! C14: reweighting, weight pushing and label pushing.
use mc::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;

type T = TropicalWeight;
fn tw(x: i32) -> T {
    T::new(x as f32)
}
fn divided(rel: &Rel<T>, total: &T) -> Rel<T> {
    rel.iter().map(|(k, w)| (*k, T::new(w.value() - total.value()))).collect()
}
fn total(m: &M<T>) -> T {
    // smallest accepting path
    let n = m.n();
    let mut d = vec![f32::INFINITY; n];
    if let Some(s) = m.start {
        d[s] = 0.0;
    }
    for _ in 0..n {
        for s in 0..n {
            for t in &m.arcs[s] {
                let v = d[s] + t.2.value();
                if v < d[t.3] {
                    d[t.3] = v;
                }
            }
        }
    }
    T::new((0..n).filter_map(|s| m.fin[s].map(|f| d[s] + f.value())).fold(f32::INFINITY, f32::min))
}
fn useful<W: Semiring>(m: &M<W>) -> Vec<bool> {
    let n = m.n();
    let mut r = vec![false; n];
    if let Some(s) = m.start {
        r[s] = true;
    }
    let mut c: Vec<bool> = m.fin.iter().map(|f| f.as_ref().is_some_and(|w| !w.is_zero())).collect();
    for _ in 0..n {
        for s in 0..n {
            for t in &m.arcs[s] {
                if r[s] {
                    r[t.3] = true;
                }
                if c[t.3] {
                    c[s] = true;
                }
            }
        }
    }
    (0..n).map(|s| r[s] && c[s]).collect()
}
/// After pushing to the start: at each useful state other than the start, out-weights and final sum to one.
/// After pushing to the end: the same on the reversed machine (in-weights of each non-final-only state).
fn normalised(m: &M<T>, to_initial: bool) -> Result<(), String> {
    let u = useful(m);
    for s in 0..m.n() {
        if !u[s] {
            continue;
        }
        if to_initial {
            if Some(s) == m.start {
                continue;
            }
            let mut w = m.fin[s].unwrap_or(T::zero());
            for t in &m.arcs[s] {
                if u[t.3] {
                    w.plus_assign(t.2).unwrap();
                }
            }
            if !w.is_one() {
                return Err(format!("after pushing to the start, state {s} sums to {w:?}"));
            }
        } else {
            let mut w = if Some(s) == m.start { T::one() } else { T::zero() };
            for x in 0..m.n() {
                if u[x] {
                    for t in m.arcs[x].iter().filter(|t| t.3 == s) {
                        w.plus_assign(t.2).unwrap();
                    }
                }
            }
            // the start may have to carry the removed initial weight
            if Some(s) != m.start && !w.is_one() {
                return Err(format!("after pushing to the end, the transitions entering state {s} sum to {w:?}"));
            }
        }
    }
    Ok(())
}
fn weights(a: &Aut, len: usize) -> Result<(), String> {
    let m = a.m_trop();
    let rel = relation(&m, len, len).ok_or("no relation")?;
    let tot = total(&m);
    if !rel.is_empty() && a.arcs.iter().any(|t| t.w != 0) {
        nontrivial();
    }
    for v in with_flags(&a.fst_trop()) {
        for ty in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
            let ini = ty == ReweightType::ReweightToInitial;
            let name = if ini { "pushing weights to the start" } else { "pushing weights to the end" };
            let mut f = v.clone();
            ok(name, push_weights(&mut f, ty))?;
            cmp_rel(name, &rel_of(&f, len, len)?, &rel, eq_exact)?;
            normalised(&M::of(&f)?, ini)?;
            flags_ok(name, &f)?;
            trace();
            let mut f = v.clone();
            ok(name, push_weights_with_config(&mut f, ty, PushWeightsConfig::default().with_remove_total_weight(true)))?;
            let want = if rel.is_empty() { rel.clone() } else { divided(&rel, &tot) };
            cmp_rel(&format!("{name}, total weight removed"), &rel_of(&f, len, len)?, &want, eq_exact)?;
            normalised(&M::of(&f)?, ini)?;
            flags_ok(name, &f)?;
            trace();
            for (pt, want) in [(PushType::PUSH_WEIGHTS, &rel), (PushType::PUSH_WEIGHTS | PushType::REMOVE_TOTAL_WEIGHT, &want), (PushType::empty(), &rel)] {
                let f: VectorFst<T> = ok("push", push(&v, ty, pt))?;
                cmp_rel(&format!("push({pt:?})"), &rel_of(&f, len, len)?, want, eq_exact)?;
                if pt.intersects(PushType::PUSH_WEIGHTS) {
                    normalised(&M::of(&f)?, ini)?;
                } else if M::of(&f)? != m {
                    return Err("push with nothing to push changed the machine".into());
                }
                flags_ok("push", &f)?;
                trace();
            }
        }
        if M::of(&v)? != m {
            return Err("push modified its input".into());
        }
    }
    Ok(())
}
fn reweighted((a, pot): &(Aut, Vec<usize>), len: usize) -> Result<(), String> {
    let vals = [0, 1, 5];
    let p: Vec<T> = (0..a.n).map(|s| tw(vals[pot[s]])).collect();
    let m = a.m_trop();
    let rel = relation(&m, len, len).ok_or("no relation")?;
    if !rel.is_empty() && pot.iter().any(|x| *x > 0) {
        nontrivial();
    }
    for v in with_flags(&a.fst_trop()) {
        for ty in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
            let ini = ty == ReweightType::ReweightToInitial;
            let mut f = v.clone();
            ok("reweight", reweight(&mut f, &p, ty))?;
            cmp_rel(if ini { "reweight to the start" } else { "reweight to the end" }, &rel_of(&f, len, len)?, &rel, eq_exact)?;
            flags_ok("reweight", &f)?;
            // each transition not leaving the start is shifted by the potential difference
            let g = M::of(&f)?;
            for s in 0..a.n {
                if Some(s) == a.start {
                    continue;
                }
                for (x, y) in m.arcs[s].iter().zip(&g.arcs[s]) {
                    let d = p[x.3].value() - p[s].value();
                    let want = if ini { x.2.value() + d } else { x.2.value() - d };
                    if *y.2.value() != want || (x.0, x.1, x.3) != (y.0, y.1, y.3) {
                        return Err(format!("reweight: transition {x:?} of state {s} became {y:?}"));
                    }
                }
            }
            trace();
        }
    }
    Ok(())
}
fn log_push(a: &Aut, len: usize) -> Result<(), String> {
    let lw = |_: usize, w: i32| LogWeight::new(w as f32);
    let f: VectorFst<LogWeight> = a.build(lw, lw);
    let m = a.model(lw, lw);
    let rel = relation(&m, len, len).ok_or("no relation")?;
    if !rel.is_empty() {
        nontrivial();
    }
    let eq = |x: &LogWeight, y: &LogWeight| (x.value() - y.value()).abs() < 2e-2 || x == y;
    for ty in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
        let mut g = f.clone();
        ok("push", push_weights(&mut g, ty))?;
        cmp_rel("pushing log weights", &rel_of(&g, len, len)?, &rel, eq)?;
        let r = M::of(&g)?;
        let u = useful(&r);
        if ty == ReweightType::ReweightToInitial {
            for s in 0..r.n() {
                if u[s] && Some(s) != r.start {
                    let mut w = r.fin[s].unwrap_or(LogWeight::zero());
                    for t in r.arcs[s].iter().filter(|t| u[t.3]) {
                        w.plus_assign(t.2).unwrap();
                    }
                    if w.value().abs() > 2e-2 {
                        return Err(format!("after pushing log weights, state {s} sums to {w:?}"));
                    }
                }
            }
        }
        trace();
    }
    Ok(())
}
/// Labels sit as early (late) as one label per transition allows.
fn early(m: &M<T>, to_initial: bool) -> Result<(), String> {
    let u = useful(m);
    let n = m.n();
    for s in 0..n {
        if !u[s] {
            continue;
        }
        // follow output-epsilon transitions; collect the first label of every continuation
        let mut seen = vec![false; n];
        let mut q = vec![s];
        let mut firsts = std::collections::BTreeSet::new();
        let mut ends = false;
        seen[s] = true;
        while let Some(x) = q.pop() {
            if to_initial {
                if m.fin[x].is_some() {
                    ends = true;
                }
                for t in &m.arcs[x] {
                    if u[t.3] {
                        if t.1 == 0 {
                            if !seen[t.3] {
                                seen[t.3] = true;
                                q.push(t.3);
                            }
                        } else {
                            firsts.insert(t.1);
                        }
                    }
                }
            } else {
                if m.start == Some(x) {
                    ends = true;
                }
                for y in 0..n {
                    if u[y] {
                        for t in m.arcs[y].iter().filter(|t| t.3 == x) {
                            if t.1 == 0 {
                                if !seen[y] {
                                    seen[y] = true;
                                    q.push(y);
                                }
                            } else {
                                firsts.insert(t.1);
                            }
                        }
                    }
                }
            }
        }
        // all continuations share a first (last) label: with one label per transition, none may output nothing yet
        if ends || firsts.len() != 1 {
            continue;
        }
        let lazy = if to_initial { m.arcs[s].iter().any(|t| u[t.3] && t.1 == 0) } else { (0..n).any(|y| u[y] && m.arcs[y].iter().any(|t| t.3 == s && t.1 == 0)) };
        if lazy {
            return Err(format!("after pushing labels {}, every path through state {s} has common output {firsts:?} there, but a transition delays it: {m:?}", if to_initial { "to the start" } else { "to the end" }));
        }
    }
    Ok(())
}
fn strip(rel: &Rel<T>, suffix: bool) -> (usize, Rel<T>) {
    // common affix of all outputs
    let outs: Vec<Vec<Label>> = rel.keys().map(|k| unpack(k.1)).collect();
    let Some(f) = outs.first() else { return (0, rel.clone()) };
    let mut k = f.len();
    for o in &outs {
        let same = if suffix { f.iter().rev().zip(o.iter().rev()).take_while(|(a, b)| a == b).count() } else { f.iter().zip(o).take_while(|(a, b)| a == b).count() };
        k = k.min(same);
    }
    let r = rel
        .iter()
        .map(|(key, w)| {
            let o = unpack(key.1);
            let o = if suffix { &o[..o.len() - k] } else { &o[k..] };
            ((key.0, pack_str(o)), *w)
        })
        .collect();
    (k, r)
}
/// Every successful path of an acyclic machine: input, output and the weights other than one in order.
fn weight_tape(m: &M<T>) -> Vec<(Vec<Label>, Vec<Label>, Vec<String>)> {
    fn go(m: &M<T>, s: usize, p: (Vec<Label>, Vec<Label>, Vec<String>), out: &mut Vec<(Vec<Label>, Vec<Label>, Vec<String>)>) {
        let with = |w: &T, v: &mut Vec<String>| {
            if !w.is_one() {
                v.push(format!("{w:?}"))
            }
        };
        if let Some(w) = &m.fin[s] {
            let mut q = p.clone();
            with(w, &mut q.2);
            out.push(q);
        }
        for t in &m.arcs[s] {
            let mut q = p.clone();
            q.0.extend((t.0 != 0).then_some(t.0));
            q.1.extend((t.1 != 0).then_some(t.1));
            with(&t.2, &mut q.2);
            go(m, t.3, q, out);
        }
    }
    let mut out = vec![];
    if let Some(s) = m.start {
        go(m, s, (vec![], vec![], vec![]), &mut out);
    }
    out.sort();
    out
}
fn labels(a: &Aut, len: usize) -> Result<(), String> {
    let m = a.m_trop();
    let olen = len + 1;
    let rel = relation(&m, len, olen).ok_or("no relation")?;
    if !rel.is_empty() && a.arcs.iter().any(|t| t.o != 0) {
        nontrivial();
    }
    let acyclic = a.is_acyclic();
    let tot = total(&m);
    let wt: BTreeMap<(Str, Str), T> = if rel.is_empty() { rel.clone() } else { divided(&rel, &tot) };
    for v in with_flags(&a.fst_trop()) {
        for ty in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
            let ini = ty == ReweightType::ReweightToInitial;
            for pw in [false, true] {
                let base = if pw { PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS } else { PushType::PUSH_LABELS };
                let f: VectorFst<T> = ok("push labels", push(&v, ty, base))?;
                let what = format!("push({base:?}) {}", if ini { "to the start" } else { "to the end" });
                cmp_rel(&what, &rel_of(&f, len, olen)?, &rel, eq_exact)?;
                let r = M::of(&f)?;
                early(&r, ini)?;
                if pw && ini {
                    normalised(&r, true).map_err(|e| format!("{what}: {e}"))?;
                }
                if !pw && acyclic && weight_tape(&r) != weight_tape(&m) {
                    return Err(format!("{what} moved weights although only labels were to be pushed: {r:?}"));
                }
                flags_ok(&what, &f)?;
                trace();
                if !acyclic {
                    continue;
                }
                // removing the common affix / total weight
                let f: VectorFst<T> = ok("push labels", push(&v, ty, base | PushType::REMOVE_COMMON_AFFIX))?;
                let (_, want) = strip(&rel, !ini);
                cmp_rel(&format!("{what} removing the common affix"), &rel_of(&f, len, olen)?, &want, eq_exact)?;
                flags_ok(&what, &f)?;
                trace();
                if pw {
                    let f: VectorFst<T> = ok("push labels", push(&v, ty, base | PushType::REMOVE_TOTAL_WEIGHT))?;
                    cmp_rel(&format!("{what} removing the total weight"), &rel_of(&f, len, olen)?, &wt, eq_exact)?;
                    let f: VectorFst<T> = ok("push labels", push(&v, ty, base | PushType::REMOVE_TOTAL_WEIGHT | PushType::REMOVE_COMMON_AFFIX))?;
                    let (_, want) = strip(&wt, !ini);
                    cmp_rel(&format!("{what} removing total weight and affix"), &rel_of(&f, len, olen)?, &want, eq_exact)?;
                    trace();
                }
            }
        }
    }
    Ok(())
}
fn main() {
    run("C14", "model_checking", |m| {
        let p = [(1, 1)];
        let p2 = [(1, 2), (2, 0)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 3, &p2).aw(&[0, 2]).fw(&[0, 3]).all_starts().collect(|_| true));
        m.family("n<=1", "all machines with <=1 state and <=3 arcs", v, |a| weights(a, 3));
        m.family("weights-2", "all 2-state machines, <=4 arcs with weights {0,1,3}, finals {0,2}, any start", Auts::new(2, m.pick(4, 5), &p).aw(&[0, 1, 3]).fw(&[0, 2]).all_starts(), |a| weights(a, 4));
        m.family("weights-3", "all 3-state machines, <=3 (4) arcs with weights {0,2}, finals {0,1}, any start", Auts::new(3, m.pick(3, 4), &p).aw(&[0, 2]).fw(&[0, 1]).all_starts(), |a| weights(a, 4));
        m.family("weights-4", "all 4-state machines, 3..=4 distinct arcs with weights {0,2}, finals {1}, start 2", Auts::new(4, m.pick(3, 4), &p).kmin(3).simple().aw(&[0, 2]).fw(&[1]).starts(vec![Some(2)]), |a| weights(a, 4));
        m.family("negative", "all acyclic 3-state machines, <=4 arcs with weights {-2,1}, finals {0,-1}", Auts::new(3, 4, &p).aw(&[-2, 1]).fw(&[0, -1]).starts(vec![Some(1)]).collect(|a| a.is_acyclic()), |a| weights(a, 3));
        m.family("reweight-2", "all 2-state machines, <=3 arcs, weights {0,2} x all potentials in {0,1,5}", Prod(Auts::new(2, m.pick(3, 4), &p).aw(&[0, 2]).fw(&[0, 1]).all_starts(), Seqs { m: 3, kmin: 2, kmax: 2 }), |x| reweighted(x, 4));
        m.family("reweight-3", "all 3-state machines, <=2 (3) arcs, weights {0,2} x all potentials in {0,1,5}", Prod(Auts::new(3, m.pick(2, 3), &p).aw(&[0, 2]).fw(&[1]).all_starts(), Seqs { m: 3, kmin: 3, kmax: 3 }), |x| reweighted(x, 4));
        m.family("log", "all acyclic 3-state machines, <=4 arcs with log weights {1,2}, finals {1}", Auts::new(3, m.pick(4, 5), &p).aw(&[1, 2]).fw(&[1]).starts(vec![Some(0), Some(2)]).collect(|a| a.is_acyclic()), |a| log_push(a, 3));
        m.family("weights-larger", "patterned machines of 4 to 20 (33) states: 5 shapes", riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 7, 9, 12, 20][..], &[4, 5, 6, 7, 9, 12, 16, 20, 33][..]), 4, &[0, 2]), |a| weights(a, 3));
        let q = [(1, 1), (1, 2), (2, 0), (0, 1)];
        m.family("labels-2", "all 2-state transducers, <=3 (4) arcs over 1:1 1:2 2:eps eps:1, any start", Auts::new(2, m.pick(3, 4), &q).all_starts().collect(|a| a.start.is_none() || !eps_cycle(a)), |a| labels(a, 3));
        m.family("labels-2w", "all 2-state transducers, <=2 (3) arcs over 4 label pairs, weights {0,2}, finals {0,1}", Auts::new(2, m.pick(2, 3), &q).aw(&[0, 2]).fw(&[0, 1]).all_starts().collect(|a| !eps_cycle(a)), |a| labels(a, 3));
        m.family("labels-3", "all acyclic 3-state transducers, <=4 arcs over 1:1 1:2 2:eps", Auts::new(3, 4, &q[..3]).starts(vec![Some(0), Some(1)]).collect(|a| a.is_acyclic()), |a| labels(a, 3));
        m.family("labels-3w", "all acyclic 3-state transducers, <=3 (4) arcs over 1:1 1:2 2:eps, weights {0,1}, finals {0,2}", Auts::new(3, m.pick(3, 4), &q[..3]).aw(&[0, 1]).fw(&[0, 2]).starts(vec![Some(0)]).collect(|a| a.is_acyclic()), |a| labels(a, 3));
        m.family("labels-4", "all acyclic 4-state transducers numbered forward, 3..=4 (5) arcs over 1:1 1:2 2:eps", Auts::new(4, m.pick(4, 5), &q[..3]).kmin(3).collect(|a| a.arcs.iter().all(|t| t.s < t.d)), |a| labels(a, 3));
        m.family("labels-cyclic-3", "all 3-state transducers, <=3 (4) arcs over 1:1 1:2", Auts::new(3, m.pick(3, 4), &q[..2]).starts(vec![Some(0), Some(1)]), |a| labels(a, 4));
        m.family("labels-larger", "patterned acyclic transducers of 4 to 6 (7) states", riches(&[2, 3], m.pick(&[4, 5, 6][..], &[4, 5, 6, 7][..]), 4, &[1]), |a| labels(a, 3));
        m.assumptions = vec!["tropical weights are small integers; log weights compared within 2e-2; total-weight removal judged against the minimum over all paths".into()];
    })
}
fn eps_cycle(a: &Aut) -> bool {
    let t = a.tc(|t| t.i == 0);
    (0..a.n).any(|s| t[s][s])
}
