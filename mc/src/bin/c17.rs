//! C17: connect, condense, top_sort, state_sort, add_super_final_state against a graph model.
use mc::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;

type W = TropicalWeight;
fn aw(k: usize, _: i32) -> W {
    W::new(k as f32 + 1.0)
}
/// code 1 = weight one
fn fw(s: usize, c: i32) -> W {
    W::new(if c == 1 { 0.0 } else { 100.0 + s as f32 })
}
fn fst(a: &Aut) -> VectorFst<W> {
    a.build(aw, fw)
}
fn sorted(mut m: M<W>) -> M<W> {
    for v in m.arcs.iter_mut() {
        v.sort_by(|x, y| x.2.partial_cmp(&y.2).unwrap().then((x.0, x.1, x.3).cmp(&(y.0, y.1, y.3))));
    }
    m
}
fn renum(m: &M<W>, p: &[usize]) -> M<W> {
    let mut r = M { start: m.start.map(|s| p[s]), fin: vec![None; m.n()], arcs: vec![vec![]; m.n()] };
    for s in 0..m.n() {
        r.fin[p[s]] = m.fin[s];
        r.arcs[p[s]] = m.arcs[s].iter().map(|t| (t.0, t.1, t.2, p[t.3])).collect();
    }
    r
}
/// Same machine up to renaming of states and order of transitions.
fn iso(a: &M<W>, b: &M<W>) -> bool {
    if a.n() != b.n() || a.num_arcs() != b.num_arcs() {
        return false;
    }
    if a.n() > 5 {
        // every transition has a weight of its own: the states are told apart by their transitions, and those
        // without any are interchangeable when they agree on being final
        let key = |m: &M<W>| -> Vec<(String, usize)> {
            let mut inc = vec![vec![]; m.n()];
            for s in 0..m.n() {
                for t in &m.arcs[s] {
                    inc[t.3].push(format!("{:?}", t.2));
                }
            }
            let mut v: Vec<(String, usize)> = (0..m.n())
                .map(|s| {
                    let mut out: Vec<String> = m.arcs[s].iter().map(|t| format!("{:?}", (t.0, t.1, &t.2))).collect();
                    out.sort();
                    inc[s].sort();
                    (format!("{:?}|{:?}|{:?}|{}", m.fin[s], out, inc[s], m.start == Some(s)), s)
                })
                .collect();
            v.sort();
            v
        };
        let (ka, kb) = (key(a), key(b));
        let mut p = vec![0; a.n()];
        for (x, y) in ka.iter().zip(&kb) {
            p[x.1] = y.1;
        }
        return sorted(renum(a, &p)) == sorted(b.clone());
    }
    let b = sorted(b.clone());
    perms(a.n()).iter().any(|p| sorted(renum(a, p)) == b)
}

fn check_connect(a: &Aut) -> Result<(), String> {
    let keep: Vec<usize> = {
        let (r, c) = (a.reach(), a.coreach());
        (0..a.n).filter(|s| r[*s] && c[*s]).collect()
    };
    if !keep.is_empty() && keep.len() < a.n {
        nontrivial();
    }
    let full = a.model(aw, fw);
    let new = |s: usize| keep.iter().position(|k| *k == s);
    let want = M {
        start: a.start.and_then(new),
        fin: keep.iter().map(|s| full.fin[*s]).collect(),
        arcs: keep
            .iter()
            .map(|s| full.arcs[*s].iter().filter_map(|t| new(t.3).map(|d| (t.0, t.1, t.2, d))).collect())
            .collect(),
    };
    states(a.n as u64);
    transitions(a.arcs.len() as u64);
    for f in with_flags(&fst(a)) {
        let mut g = f;
        ok("connect", connect(&mut g))?;
        let got = M::of(&g)?;
        if got != want && !iso(&got, &want) {
            return Err(format!("connect gives {got:?}, expected {want:?}"));
        }
        trace();
    }
    Ok(())
}

fn check_condense(a: &Aut) -> Result<(), String> {
    let tc = a.tc(|_| true);
    let same = |s: usize, t: usize| s == t || (tc[s][t] && tc[t][s]);
    // distinct formal weights on every transition and final state
    let f: VectorFst<Nc<7>> = a.fst_gen(0);
    let (scc, g): (Vec<i32>, VectorFst<Nc<7>>) = ok("condense", condense(&f))?;
    trace();
    states(a.n as u64);
    transitions(a.arcs.len() as u64);
    if scc.len() != a.n {
        return Err(format!("condense: {} classes listed for {} states", scc.len(), a.n));
    }
    for s in 0..a.n {
        for t in 0..s {
            if (scc[s] == scc[t]) != same(s, t) {
                return Err(format!("condense: classes {scc:?} but mutually reachable({s},{t})={}", same(s, t)));
            }
        }
    }
    let nc = (0..a.n).filter(|s| (0..*s).all(|t| !same(*s, t))).count();
    if nc < a.n && nc > 1 {
        nontrivial();
    }
    let got = M::of(&g)?;
    if got.n() != nc {
        return Err(format!("condense: {} states for {nc} classes", got.n()));
    }
    if let Some(b) = scc.iter().find(|c| **c < 0 || **c as usize >= nc) {
        return Err(format!("condense: class number {b} out of range"));
    }
    let mut want: M<Nc<7>> = M { start: a.start.map(|s| scc[s] as usize), fin: vec![None; nc], arcs: vec![vec![]; nc] };
    let full = a.m_gen::<7, false>(0);
    for s in 0..a.n {
        let c = scc[s] as usize;
        if let Some(w) = &full.fin[s] {
            want.fin[c] = Some(want.fin[c].take().map_or(w.clone(), |x| x.plus(w).unwrap()));
        }
        for t in &full.arcs[s] {
            let d = scc[t.3] as usize;
            if d != c {
                want.arcs[c].push((t.0, t.1, t.2.clone(), d));
            }
        }
    }
    let order = |mut m: M<Nc<7>>| {
        m.arcs.iter_mut().for_each(|v| v.sort_by_key(|x| (x.0, x.1, x.3, format!("{:?}", x.2))));
        m
    };
    if order(got.clone()) != order(want.clone()) {
        return Err(format!("condense gives {got:?}, expected {want:?} (classes {scc:?})"));
    }
    Ok(())
}

fn check_top(a: &Aut) -> Result<(), String> {
    let full = a.model(aw, fw);
    for f in with_flags(&fst(a)) {
        let mut g = f.clone();
        let r = top_sort(&mut g);
        let got = M::of(&g)?;
        trace();
        if !a.is_acyclic() {
            if got != full {
                return Err("top_sort changed a cyclic machine".into());
            }
            continue;
        }
        ok("top_sort", r)?;
        nontrivial();
        for s in 0..a.n {
            for t in &got.arcs[s] {
                if t.3 <= s {
                    return Err(format!("top_sort left a transition {s}->{}", t.3));
                }
            }
        }
        if !iso(&got, &full) {
            return Err(format!("top_sort gives a different machine {got:?}"));
        }
    }
    states(a.n as u64);
    transitions(a.arcs.len() as u64);
    Ok(())
}

fn check_sort(a: &Aut, ps: &[Vec<usize>]) -> Result<(), String> {
    let full = a.model(aw, fw);
    for p in ps {
        let mut g = fst(a);
        let order: Vec<StateId> = p.iter().map(|x| *x as StateId).collect();
        ok("state_sort", state_sort(&mut g, &order))?;
        let got = sorted(M::of(&g)?);
        let want = sorted(renum(&full, p));
        if got != want {
            return Err(format!("state_sort {p:?} gives {got:?}, expected {want:?}"));
        }
        trace();
        nontrivial();
    }
    for bad in [a.n + 1, a.n.wrapping_sub(1)] {
        if bad < 10 {
            let mut g = fst(a);
            let order: Vec<StateId> = (0..bad as StateId).collect();
            if state_sort(&mut g, &order).is_ok() {
                return Err(format!("state_sort accepted an order of length {bad} for {} states", a.n));
            }
            if M::of(&g)? != full {
                return Err("refused state_sort changed the machine".into());
            }
        }
    }
    Ok(())
}

fn check_super(a: &Aut) -> Result<(), String> {
    let full = a.model(aw, fw);
    for f in with_flags(&fst(a)) {
        let mut g = f;
        let s = add_super_final_state(&mut g) as usize;
        let got = M::of(&g)?;
        trace();
        let fin: Vec<usize> = (0..a.n).filter(|s| full.fin[*s].is_some()).collect();
        if fin.len() == 1 && full.fin[fin[0]] == Some(W::one()) {
            if got != full || s != fin[0] {
                return Err("add_super_final_state changed a machine that already has one".into());
            }
            continue;
        }
        nontrivial();
        let mut want = full.clone();
        want.fin = vec![None; a.n + 1];
        want.fin[a.n] = Some(W::one());
        want.arcs.push(vec![]);
        for q in fin {
            want.arcs[q].push((0, 0, full.fin[q].unwrap(), a.n));
        }
        if s != a.n || sorted(got.clone()) != sorted(want.clone()) {
            return Err(format!("add_super_final_state returns {s}, machine {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

fn all(a: &Aut) -> Result<(), String> {
    check_connect(a)?;
    check_condense(a)?;
    check_top(a)?;
    check_super(a)
}

fn main() {
    run("C17", "model_checking", |m| {
        let one = [(1, 1)];
        let p3 = perms(3);
        m.family("tiny", "all machines with <=2 states, <=3 arcs incl. parallel, any start, final weight one or not", {
            let mut v = vec![Aut::empty()];
            for n in 1..=2 {
                v.extend(Auts::new(n, 3, &[(0, 0), (1, 2)]).all_starts().fw(&[0, 1]).both_orders().collect(|_| true));
            }
            v
        }, |a| all(a).and_then(|_| check_sort(a, &perms(a.n))));
        m.family("graphs-3", "all digraphs on 3 nodes x final sets x starts x both arc orders, all 6 renumberings", Auts::new(3, 9, &one).simple().all_starts().fw(&[0, 1]).both_orders(), |a| all(a).and_then(|_| check_sort(a, &p3)));
        m.family("multi-3", "all 3-state machines with <=4 arcs incl. parallel ones", Auts::new(3, 4, &one).all_starts().both_orders(), |a| all(a).and_then(|_| check_sort(a, &p3)));
        let st4 = if m.thorough() { vec![Some(0), Some(1), Some(3), None] } else { vec![Some(1)] };
        m.family("graphs-4", "all digraphs on 4 nodes x final sets x both arc orders", Auts::new(4, 16, &one).simple().starts(st4).both_orders(), all);
        let p4 = perms(4);
        m.family("sort-4", "all 4-node digraphs with <=3 (5) arcs, all 24 renumberings", Auts::new(4, m.pick(3, 5), &one).simple().starts(vec![Some(2), None]), |a| check_sort(a, &p4));
        let mut big = Auts::new(5, m.pick(6, 7), &one).simple().starts(vec![Some(0)]).both_orders();
        big.fw = vec![];
        m.family("graphs-5", "all digraphs on 5 nodes with <=6 (7) arcs, both arc orders, start 0 and 2, final set {4}, {1}, {2,3}", big, |a| {
            for s in [0, 2] {
                for fs in [&[4usize][..], &[1], &[2, 3]] {
                    let mut b = a.clone();
                    b.start = Some(s);
                    for f in fs {
                        b.fin[*f] = Some(0);
                    }
                    check_connect(&b)?;
                }
                let mut b = a.clone();
                b.start = Some(s);
                check_condense(&b)?;
                check_top(&b)?;
            }
            Ok(())
        });
        // larger strongly connected shapes: nested cycles sharing nodes
        let mut big = Auts::new(6, m.pick(3, 4), &one).simple().starts(vec![Some(0)]).both_orders();
        big.fw = vec![];
        m.family("ring-6", "the 6-ring (entered at 0) or the 6-path plus every set of <=3 (4) chords, both arc orders", big, |a| {
            for ring in [true, false] {
                let mut b = a.clone();
                let mut arcs: Vec<Arc5> = (0..if ring { 6 } else { 5 }).map(|s| Arc5 { s, i: 1, o: 1, w: 0, d: (s + 1) % 6 }).collect();
                let mut c = b.arcs.clone();
                c.extend(arcs.drain(..));
                b.arcs = c;
                check_condense(&b)?;
                check_connect(&b)?;
                b.fin[3] = Some(0);
                check_connect(&b)?;
            }
            Ok(())
        });
        m.family("larger", "patterned machines of 4 to 24 (60) states: 5 shapes, 8 seeds", riches(&[0, 1, 2, 3, 4], &(4..m.pick(25, 61)).collect::<Vec<_>>(), 8, &[1]), all);
        m.assumptions = vec!["weights are unique integers per transition, so transitions are identified individually".into()];
    })
}
