//! C24: path enumeration, path lookup, linear builders and their decoding.
use mc::*;
use rustfst::fst_path;
use rustfst::fst_traits::{PathsIterator, StringPathsIterator};
use rustfst::prelude::*;
use rustfst::utils::{acceptor, decode_linear_fst, epsilon_machine, transducer};
use rustfst::{fst, symt};
use std::sync::Arc;

type W = Nc<7>;
type V = VectorFst<W>;
type Path = (Vec<Label>, Vec<Label>, W);

/// All accepting paths with at most `max` transitions, in the model.
fn paths(m: &M<W>, max: usize, lab: usize) -> Vec<Path> {
    let mut out = vec![];
    fn rec(m: &M<W>, s: usize, left: usize, lab: usize, p: &Path, out: &mut Vec<Path>) {
        states(1);
        if let Some(f) = &m.fin[s] {
            out.push((p.0.clone(), p.1.clone(), p.2.times(f).unwrap()));
        }
        if left == 0 {
            return;
        }
        for t in &m.arcs[s] {
            transitions(1);
            let mut q = p.clone();
            if t.0 != 0 {
                q.0.push(t.0);
            }
            if t.1 != 0 {
                q.1.push(t.1);
            }
            q.2 = q.2.times(&t.2).unwrap();
            if q.0.len() <= lab && q.1.len() <= lab {
                rec(m, t.3, left - 1, lab, &q, out);
            }
        }
    }
    if let Some(s) = m.start {
        rec(m, s, max, lab, &(vec![], vec![], W::one()), &mut out);
    }
    out
}
fn key(p: &Path) -> String {
    format!("{p:?}")
}
fn same(what: &str, got: Vec<Path>, want: &[Path]) -> Result<(), String> {
    let mut g: Vec<String> = got.iter().map(key).collect();
    let mut w: Vec<String> = want.iter().map(key).collect();
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("{what}: {g:?}, expected {w:?}"));
    }
    Ok(())
}
fn of(p: FstPath<W>) -> Path {
    (p.ilabels, p.olabels, p.weight)
}

fn enumerate(a: &Aut) -> Result<(), String> {
    let f: V = a.fst_gen(0);
    let want = paths(&a.m_gen::<7, false>(0), a.n + 1, 99);
    if want.len() > 1 {
        nontrivial();
    }
    same("paths_iter", f.paths_iter().map(of).collect(), &want)?;
    same("PathsIterator", PathsIterator::new(&f).map(of).collect(), &want)?;
    let c: ConstFst<W> = f.clone().into();
    same("paths_iter of the immutable machine", c.paths_iter().map(of).collect(), &want)?;
    trace();
    // strings
    if f.string_paths_iter().is_ok() || StringPathsIterator::new(&f).is_ok() {
        return Err("string paths of a machine without symbol tables".into());
    }
    let full = Arc::new(symt!["a ", " b b"]);
    let short = Arc::new(symt!["x"]);
    for (it, ot) in [(&full, &full), (&short, &full), (&full, &short)] {
        let mut g = f.clone();
        g.set_input_symbols(it.clone());
        if g.string_paths_iter().is_ok() {
            return Err("string paths of a machine without output symbols".into());
        }
        g.set_output_symbols(ot.clone());
        let mut got = vec![];
        let mut exp = vec![];
        for p in ok("string_paths_iter", g.string_paths_iter())? {
            got.push(format!("{:?} {:?} {:?} {:?} {:?}", p.ilabels(), p.olabels(), p.weight(), p.istring().ok(), p.ostring().ok()));
        }
        for p in &want {
            let s = |l: &[Label], t: &Arc<SymbolTable>| -> Option<String> {
                let names = ["<eps>", if Arc::ptr_eq(t, &full) { "a " } else { "x" }, " b b"];
                let n = if Arc::ptr_eq(t, &full) { 3 } else { 2 };
                l.iter().map(|x| (*x < n).then(|| names[*x as usize])).collect::<Option<Vec<_>>>().map(|v| v.join(" "))
            };
            exp.push(format!("{:?} {:?} {:?} {:?} {:?}", p.0, p.1, p.2, s(&p.0, it), s(&p.1, ot)));
        }
        got.sort();
        exp.sort();
        if got != exp {
            return Err(format!("string paths {got:?}, expected {exp:?}"));
        }
    }
    // decoding
    match decode_linear_fst(&f) {
        Ok(p) => {
            let p = of(p);
            let none = (vec![], vec![], W::one());
            let w = match want.len() {
                0 => &none,
                1 => &want[0],
                n => return Err(format!("decoding a machine with {n} paths as linear gave {p:?}")),
            };
            if key(&p) != key(w) {
                return Err(format!("decoded as {p:?}, expected {w:?}"));
            }
        }
        Err(e) => {
            if want.len() <= 1 {
                return Err(format!("decoding a machine with {} path(s) failed: {e:#}", want.len()));
            }
        }
    }
    Ok(())
}
/// Lookup of every candidate path: label sequences up to length `l`, weights of all real paths plus two others.
fn lookup(a: &Aut, l: usize) -> Result<(), String> {
    let f: V = a.fst_gen(0);
    // a path reads at most 2*l labels and never goes through an epsilon cycle
    let all: Vec<Path> = paths(&a.m_gen::<7, false>(0), 2 * l + (2 * l + 1) * (a.n - 1), l);
    let mut seqs: Vec<Vec<Label>> = vec![vec![]];
    for k in 1..=l {
        for x in 0..2usize.pow(k as u32) {
            seqs.push((0..k).map(|b| 1 + ((x >> b) & 1) as Label).collect());
        }
    }
    let mut weights: Vec<W> = vec![W::one(), W::gen(29)];
    for p in all.iter().take(12) {
        if !weights.contains(&p.2) {
            weights.push(p.2.clone());
        }
    }
    for i in &seqs {
        for o in &seqs {
            for w in &weights {
                let want = all.iter().any(|p| p.0 == *i && p.1 == *o && p.2 == *w);
                let got = check_path_in_fst(&f, &FstPath::new(i.clone(), o.clone(), w.clone()));
                trace();
                if want {
                    nontrivial();
                }
                if got != want {
                    return Err(format!("lookup of {i:?}:{o:?}/{w:?} answered {got}"));
                }
            }
        }
    }
    Ok(())
}
fn linear(i: &[usize], o: &[usize]) -> Result<(), String> {
    const LAB: [Label; 4] = [0, 1, 2, Label::MAX - 1];
    let (i, o): (Vec<Label>, Vec<Label>) = (i.iter().map(|x| LAB[*x]).collect(), o.iter().map(|x| LAB[*x]).collect());
    let nz = |v: &[Label]| -> Vec<Label> { v.iter().copied().filter(|l| *l != 0).collect() };
    nontrivial();
    for w in [W::one(), W::gen(3)] {
        let t: V = transducer(&i, &o, w.clone());
        let p = of(ok("decode", decode_linear_fst(&t))?);
        let want = (nz(&i), nz(&o), w.clone());
        if key(&p) != key(&want) {
            return Err(format!("transducer decodes to {p:?}, expected {want:?}"));
        }
        same("paths of the linear machine", paths(&M::of(&t)?, i.len().max(o.len()) + 1, 99), std::slice::from_ref(&want))?;
        flags_ok("transducer", &t)?;
        if !check_path_in_fst(&t, &FstPath::new(want.0.clone(), want.1.clone(), w.clone())) {
            return Err("linear machine does not contain its own path".into());
        }
        let c: ConstFst<W> = t.into();
        if key(&of(ok("decode", decode_linear_fst(&c))?)) != key(&want) {
            return Err("immutable linear machine decodes differently".into());
        }
        let a: V = acceptor(&i, w.clone());
        let p = of(ok("decode", decode_linear_fst(&a))?);
        let want = (nz(&i), nz(&i), w.clone());
        if key(&p) != key(&want) {
            return Err(format!("acceptor decodes to {p:?}, expected {want:?}"));
        }
        flags_ok("acceptor", &a)?;
        trace();
    }
    Ok(())
}
fn small(_: &()) -> Result<(), String> {
    type T = VectorFst<TropicalWeight>;
    nontrivial();
    let e: V = ok("epsilon_machine", epsilon_machine())?;
    same("epsilon machine", paths(&M::of(&e)?, 3, 99), &[(vec![], vec![], W::one())])?;
    let t = |f: T| ok("decode", decode_linear_fst(&f)).map(|p| (p.ilabels, p.olabels, *p.weight.value()));
    let v: Vec<(&str, (Vec<Label>, Vec<Label>, f32), T)> = vec![
        ("fst![1,2]", (vec![1, 2], vec![1, 2], 0.0), fst![1, 2]),
        ("fst![1,2;0.5]", (vec![1, 2], vec![1, 2], 0.5), fst![1, 2; 0.5]),
        ("fst![1 => 2,3]", (vec![1], vec![2, 3], 0.0), fst![1 => 2, 3]),
        ("fst![1,2 => 3;1.5]", (vec![1, 2], vec![3], 1.5), fst![1, 2 => 3; 1.5]),
    ];
    for (n, w, f) in v {
        let g = t(f)?;
        if g != w {
            return Err(format!("{n} decodes to {g:?}"));
        }
    }
    let p: FstPath<TropicalWeight> = fst_path![1, 2 => 3; 1.5];
    if p != FstPath::new(vec![1, 2], vec![3], TropicalWeight::new(1.5)) {
        return Err("fst_path! macro".into());
    }
    Ok(())
}
fn concat_paths(p: &FstPath<W>, q: &FstPath<W>) -> Result<(), String> {
    let mut r = p.clone();
    ok("concat", r.concat(q.clone()))?;
    let want = ([p.ilabels.clone(), q.ilabels.clone()].concat(), [p.olabels.clone(), q.olabels.clone()].concat(), p.weight.times(&q.weight).unwrap());
    nontrivial();
    if key(&of(r.clone())) != key(&want) || r.is_empty() != (want.0.is_empty() && want.1.is_empty() && want.2.is_one()) {
        return Err(format!("{p:?} followed by {q:?} gave {r:?}"));
    }
    Ok(())
}

fn main() {
    run("C24", "model_checking", |m| {
        let p = [(1, 1), (1, 2), (0, 2), (1, 0), (0, 0)];
        let mut v = vec![Aut::empty()];
        v.extend(Auts::new(1, 0, &p).all_starts().collect(|_| true));
        v.extend(Auts::new(2, 3, &p).all_starts().collect(|a| a.is_acyclic()));
        m.family("paths, n<=2", "all acyclic machines with <=2 states and <=3 arcs (parallel arcs included) over 5 label pairs, any start and finals; non-trivial: more than one path", v, |a| enumerate(a));
        m.family("paths, n=3", "all acyclic machines with 3 states and <=4 arcs over 4 (thorough 5) label pairs, start 0 or 1, any finals", Auts::new(3, 4, &p[..m.pick(4, 5)]).starts(vec![Some(0), Some(1)]).collect(|a| a.is_acyclic()), |a| enumerate(a));
        m.family("paths, n=4", "all acyclic trim machines with 4 states and <=5 (6) arcs over 2 label pairs", Auts::new(4, m.pick(5, 6), &[(1, 2), (0, 1)]).collect(|a| a.is_acyclic() && a.is_trim()), |a| enumerate(a));
        let noeps = |a: &Aut| {
            let t = a.tc(|x| x.i == 0 && x.o == 0);
            a.start.is_some() && (0..a.n).all(|s| !t[s][s])
        };
        let q = [(1, 1), (1, 2), (0, 2), (2, 0), (0, 0)];
        let mut v = Auts::new(2, m.pick(3, 4), &q).collect(noeps);
        v.extend(Auts::new(3, m.pick(3, 4), &q).collect(|a| noeps(a) && a.is_canonical() && a.fin[2].is_some() && a.is_trim()));
        m.family("lookup", "all machines with 2 or 3 states, <=3 (4) arcs over 5 label pairs without epsilon:epsilon cycles x all label pairs up to length 2 x the weights of all real paths and two others", v, |a| lookup(a, 2));
        let long = Auts::new(4, 3, &q[1..4]).collect(|a| a.is_acyclic() && a.is_trim() && a.arcs.len() == 3 && a.fin.iter().filter(|f| f.is_some()).count() == 1);
        m.family("lookup, chains", "all trim acyclic 4-state machines with three arcs x all label pairs up to length 3", long, |a| lookup(a, 3));
        m.family("linear builders", "all pairs of label sequences of length <=4 over {epsilon, 1, 2, largest label}, weights one and a generator", Prod(Seqs { m: 4, kmin: 0, kmax: m.pick(3, 5) }, Seqs { m: 4, kmin: 0, kmax: m.pick(4, 5) }), |(i, o)| linear(i, o));
        m.family("macros", "literal builders", vec![()], small);
        let fp: Vec<FstPath<W>> = vec![FstPath::default(), FstPath::new(vec![1], vec![], W::one()), FstPath::new(vec![], vec![2], W::gen(0)), FstPath::new(vec![1, 2], vec![3], W::gen(1)), FstPath::new(vec![], vec![], W::gen(2))];
        m.family("path concatenation", "all pairs of 5 paths", Prod(&fp, &fp), |(p, q)| concat_paths(p, q));
        m.family("paths, larger", "patterned acyclic machines of 4 to 8 (10) states: label profiles with epsilons and big labels", riches(&[0, 1, 2, 3, 4], &(4..m.pick(9, 11)).collect::<Vec<_>>(), 8, &[0, 1, 2, 3]).into_iter().filter(|a| a.is_acyclic()).collect::<Vec<_>>(), |a| enumerate(a));
        m.assumptions = vec!["decoding and lookup treat a machine that has no path, or no start state, as the empty path (lookup of startless machines is not judged)".into()];
    })
}
