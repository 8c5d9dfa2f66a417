//! C03: the mutable FST against its sequential model; explicit-state exploration of edit histories.
use mc::ops::*;
use mc::*;
use rustfst::prelude::*;

struct Bound {
    n: usize,
    arcs: usize,
    pairs: Vec<(Label, Label)>,
    ws: Vec<i32>,
}
fn ops(a: &Aut, b: &Bound) -> Vec<Op> {
    let mut v = vec![Op::DelAll, Op::SortI, Op::SortO, Op::Sum, Op::Unique, Op::Compute];
    if a.n < b.n {
        v.push(Op::AddState);
    }
    if a.n + 2 <= b.n {
        v.push(Op::AddStates(2));
    }
    v.push(Op::AddStates(0));
    let both = |v: &mut Vec<Op>, o: Op| {
        v.push(o.clone());
        v.push(Op::U(Box::new(o)));
    };
    // every subset of states
    for mask in 0..1usize << a.n {
        v.push(Op::DelStates((0..a.n).filter(|s| mask >> s & 1 == 1).collect()));
    }
    if a.n > 1 {
        v.push(Op::DelStates(vec![a.n - 1, 0, 0]));
    }
    for s in 0..a.n {
        both(&mut v, Op::SetStart(s));
        for w in &b.ws {
            both(&mut v, Op::SetFinal(s, *w));
        }
        both(&mut v, Op::DelFinal(s));
        both(&mut v, Op::TakeFinal(s));
        v.push(Op::DelState(s));
        v.push(Op::DelTrs(s));
        both(&mut v, Op::PopTrs(s));
        let k = a.arcs.iter().filter(|x| x.s == s).count();
        for p in &b.pairs {
            for w in &b.ws {
                for d in 0..a.n {
                    if a.arcs.len() < b.arcs {
                        both(&mut v, Op::AddTr(s, p.0, p.1, *w, d));
                        both(&mut v, Op::Emplace(s, p.0, p.1, *w, d));
                    }
                    for j in 0..k {
                        both(&mut v, Op::SetTr(s, j, p.0, p.1, *w, d));
                    }
                    if a.arcs.len() - k < b.arcs {
                        v.push(Op::SetTrs(s, vec![(p.0, p.1, *w, d)]));
                    }
                }
            }
            for j in 0..k {
                both(&mut v, Op::SetIl(s, j, p.0));
                both(&mut v, Op::SetOl(s, j, p.1));
                v.push(Op::SetLabels(s, j, p.0, p.1));
            }
        }
        v.push(Op::SetTrs(s, vec![]));
        for j in 0..k {
            for w in &b.ws {
                both(&mut v, Op::SetW(s, j, *w));
            }
            for d in 0..a.n {
                both(&mut v, Op::SetNext(s, j, d));
            }
        }
        for mask in 0..1usize << k {
            v.push(Op::DelTrId(s, (0..k).filter(|j| mask >> j & 1 == 1).collect()));
        }
        // refused edits
        for o in [Op::SetIl(s, k, 1), Op::SetOl(s, k, 1), Op::SetW(s, k, 1), Op::SetNext(s, k, 0), Op::SetTr(s, k + 3, 1, 1, 0, 0)] {
            v.push(o);
        }
    }
    let bad = a.n + 1;
    for s in [a.n, bad] {
        v.extend([
            Op::SetStart(s), Op::SetFinal(s, 0), Op::DelFinal(s), Op::TakeFinal(s), Op::AddTr(s, 0, 0, 0, 0), Op::Emplace(s, 0, 0, 0, 0),
            Op::DelState(s), Op::DelStates(vec![s]), Op::DelStates(vec![0, s]), Op::DelTrs(s), Op::PopTrs(s), Op::SetIl(s, 0, 1), Op::SetTr(s, 0, 1, 1, 0, 0),
        ]);
    }
    v
}
/// Everything readable about the machine must match the model.
fn same(f: &F, a: &Aut) -> Result<(), String> {
    let r = read(f)?;
    if r != *a {
        return Err(format!("machine reads {r:?}, model is {a:?}"));
    }
    counts(f, a)
}
fn counts(f: &F, a: &Aut) -> Result<(), String> {
    if f.num_states() != a.n || f.states_iter().collect::<Vec<_>>() != (0..a.n as StateId).collect::<Vec<_>>() {
        return Err("state count or state iteration wrong".into());
    }
    for s in 0..a.n {
        let id = s as StateId;
        let o: Vec<&Arc5> = a.arcs.iter().filter(|x| x.s == s).collect();
        let want = (o.len(), o.iter().filter(|x| x.i == 0).count(), o.iter().filter(|x| x.o == 0).count());
        let got = (f.num_trs(id).unwrap(), f.num_input_epsilons(id).unwrap(), f.num_output_epsilons(id).unwrap());
        if want != got {
            return Err(format!("state {s}: (transitions, input eps, output eps) = {got:?}, model {want:?}"));
        }
        if f.is_final(id).unwrap() != a.fin[s].is_some() || f.is_start(id) != (a.start == Some(s)) {
            return Err(format!("state {s}: is_final or is_start wrong"));
        }
    }
    let fs: Vec<usize> = f.final_states_iter().map(|s| s as usize).collect();
    if fs != (0..a.n).filter(|s| a.fin[*s].is_some()).collect::<Vec<_>>() {
        return Err(format!("final_states_iter gives {fs:?}"));
    }
    for s in [a.n, a.n + 1] {
        let id = s as StateId;
        if f.get_trs(id).is_ok() || f.final_weight(id).is_ok() || f.num_trs(id).is_ok() || f.num_input_epsilons(id).is_ok() || f.num_output_epsilons(id).is_ok() || f.is_final(id).is_ok() {
            return Err(format!("reading non-existent state {s} succeeds"));
        }
    }
    Ok(())
}
fn grouped(a: &Aut) -> Aut {
    let mut b = a.clone();
    b.arcs.sort();
    b
}
fn step(a: &Aut, b: &Bound) -> Result<Vec<Aut>, String> {
    let mut next = vec![];
    for op in ops(a, b) {
        let base = a.fst_trop();
        same(&base, a)?;
        let held: Vec<_> = (0..a.n).map(|s| base.get_trs(s as StateId).unwrap()).collect();
        let snap = |h: &Vec<rustfst::TrsVec<TropicalWeight>>| h.iter().map(|t| t.trs().to_vec()).collect::<Vec<_>>();
        let before = snap(&held);
        let copy = base.clone();
        let mut f = base;
        let e = |m: String| format!("{op:?}: {m}");
        let ans = no_panic("operation", || apply(&mut f, &op)).map_err(e)?;
        let mut want = a.clone();
        let wans = model_apply(&mut want, &op);
        trace();
        if ans != wans {
            return Err(e(format!("answered {ans:?}, model {wans:?}")));
        }
        // sorting leaves ties, summing and de-duplicating leave the order open
        if matches!(op, Op::SortI | Op::SortO | Op::Sum | Op::Unique) {
            let r = read(&f)?;
            if grouped(&r) != grouped(&want) {
                return Err(e(format!("machine reads {r:?}, model is {want:?}")));
            }
            counts(&f, &r).map_err(e)?;
            want = r;
        } else {
            same(&f, &want).map_err(e)?;
        }
        same(&copy, a).map_err(|m| e(format!("the other copy changed: {m}")))?;
        if snap(&held) != before {
            return Err(e("transitions handed out before the edit changed".into()));
        }
        // and the other way round: edit the copy
        let orig = copy;
        let mut f2 = orig.clone();
        apply(&mut f2, &op);
        same(&orig, a).map_err(|m| e(format!("the original changed through a copy: {m}")))?;
        if want.n <= b.n && want.arcs.len() <= b.arcs {
            next.push(want);
        }
    }
    Ok(next)
}
fn main() {
    run("C03", "model_checking", |m| {
        let b = Bound { n: 2, arcs: m.pick(2, 3), pairs: vec![(0, 0), (1, 1), (2, 0)], ws: vec![0, 1] };
        let (n, done) = bfs(m, "n2", "breadth-first closure under all edit operations from the empty machine: <=2 states, <=2 (3) transitions in total, 3 label pairs, 2 weights; every operation applied in every reachable state", vec![Aut::empty()], 60, |a| step(a, &b));
        m.assumptions.push(format!("n2: {n} states, closed: {done}"));
        let b = Bound { n: 3, arcs: m.pick(2, 3), pairs: vec![(0, 1), (1, 0)], ws: vec![1] };
        let (n, done) = bfs(m, "n3", "the same with <=3 states, <=2 (3) transitions, 2 label pairs, 1 weight", vec![Aut::empty()], 60, |a| step(a, &b));
        m.assumptions.push(format!("n3: {n} states, closed: {done}"));
        let b = Bound { n: 4, arcs: m.pick(1, 2), pairs: vec![(0, 0)], ws: vec![0] };
        let (n, done) = bfs(m, "n4", "the same with <=4 states, <=1 (2) transition", vec![Aut::empty()], 60, |a| step(a, &b));
        m.assumptions.push(format!("n4: {n} states, closed: {done}"));
        let b = Bound { n: 3, arcs: 4, pairs: vec![(0, 1), (1, 0)], ws: vec![1] };
        let mut sp = Auts::new(3, m.pick(4, 5), &b.pairs).starts(vec![Some(2)]);
        sp.fw = vec![];
        sp.kmin = 3;
        m.family("wide", "all 3-state machines with 3..4 (5) transitions over 2 label pairs x every single edit (deletions hitting several transitions of one state)", sp, |a| {
            nontrivial();
            let mut a = a.clone();
            for (k, x) in a.arcs.iter_mut().enumerate() {
                x.w = k as i32;
            }
            step(&a, &b).map(|_| ())
        });
    })
}
