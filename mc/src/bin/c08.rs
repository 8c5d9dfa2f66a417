//! C08: replacement and the delayed rational operations against the substitution of relations.
use mc::*;
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::replace::{replace, ReplaceFst};
use rustfst::algorithms::union::UnionFst;
use rustfst::prelude::*;
use std::collections::HashMap;

const K: usize = 7;
type W = Nc<K>;
type V = VectorFst<W>;
const L: usize = 3;

/// A rule system: (non-terminal, machine), the first listed is not necessarily the root.
type Sys = Vec<(Label, Aut)>;

/// Least solution of the rule equations, by iteration: every transition carries its own generator, so
/// the truncated semiring makes the iteration stop.
fn solve(sys: &[(Label, M<W>)], root: usize, eps: bool) -> Rel<W> {
    let mut x: Vec<Vec<Rel<W>>> = sys.iter().map(|(_, m)| vec![Rel::new(); m.n()]).collect();
    for _ in 0..4 * K {
        let mut y = x.clone();
        for (r, (_, m)) in sys.iter().enumerate() {
            for s in 0..m.n() {
                let mut acc = Rel::new();
                if let Some(w) = &m.fin[s] {
                    acc.insert((0, 0), w.clone());
                }
                for t in &m.arcs[s] {
                    let callee = if t.1 == 0 { None } else { sys.iter().position(|(nt, _)| *nt == t.1) };
                    let mut one = Rel::new();
                    let part = match callee {
                        None => {
                            one.insert((spush(0, t.0), spush(0, t.1)), t.2.clone());
                            r_cat(&one, &x[r][t.3], L, L)
                        }
                        Some(c) => {
                            one.insert((if eps { 0 } else { spush(0, t.0) }, 0), t.2.clone());
                            match sys[c].1.start {
                                None => Rel::new(),
                                Some(cs) => r_cat(&one, &r_cat(&x[c][cs], &x[r][t.3], L, L), L, L),
                            }
                        }
                    };
                    acc = r_sum(&acc, &part);
                }
                y[r][s] = acc;
            }
        }
        states(y.iter().map(|v| v.len() as u64).sum());
        if y == x {
            break;
        }
        x = y;
    }
    sys[root].1.start.map(|s| x[root][s].clone()).unwrap_or_default()
}
/// Walks a delayed machine down to `depth` transitions and returns what it found as a model
/// (longer paths have weight zero in the truncated semiring as every transition carries a generator).
fn walk<F: Fst<W>>(f: &F, depth: usize) -> Result<M<W>, String> {
    let mut m = M { start: None, fin: vec![], arcs: vec![] };
    let Some(s0) = f.start() else { return Ok(m) };
    let mut id: HashMap<StateId, usize> = HashMap::new();
    id.insert(s0, 0);
    let mut order = vec![s0];
    let mut q = 0;
    for d in 0..=depth {
        let end = order.len();
        while q < end {
            let s = order[q];
            q += 1;
            m.fin.push(ok("final_weight", f.final_weight(s))?);
            let mut arcs = vec![];
            if d < depth {
                for t in ok("get_trs", f.get_trs(s))?.trs() {
                    let n = order.len();
                    let k = *id.entry(t.nextstate).or_insert(n);
                    if k == n {
                        order.push(t.nextstate);
                    }
                    arcs.push((t.ilabel, t.olabel, t.weight.clone(), k));
                }
            }
            m.arcs.push(arcs);
        }
    }
    m.start = Some(0);
    Ok(m)
}

fn calls(a: &Aut, nts: &[Label]) -> Vec<usize> {
    a.arcs.iter().filter_map(|t| nts.iter().position(|n| *n == t.o && t.o != 0)).collect()
}
/// Whether some rule reachable from the root by calls calls itself, directly or not. (The eager operation
/// expands such systems for ever, whatever weights they carry.)
fn recursive(sys: &Sys) -> bool {
    let nts: Vec<Label> = sys.iter().map(|x| x.0).collect();
    let n = sys.len();
    let mut t = vec![vec![false; n]; n];
    for (r, (_, a)) in sys.iter().enumerate() {
        for c in calls(a, &nts) {
            t[r][c] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                t[i][j] |= t[i][k] && t[k][j];
            }
        }
    }
    (0..n).any(|i| t[i][i])
}

fn check(sys: &Sys, root: usize) -> Result<(), String> {
    let mut base = 0;
    let mut ms = vec![];
    let mut fs: Vec<(Label, V)> = vec![];
    for (nt, a) in sys {
        ms.push((*nt, a.m_gen::<K, false>(base)));
        fs.push((*nt, a.fst_gen(base)));
        base += a.ngen();
    }
    let rec = recursive(sys);
    let rootl = sys[root].0;
    for eps in [false, true] {
        let want = solve(&ms, root, eps);
        if !want.is_empty() && !calls(&sys[root].1, &sys.iter().map(|x| x.0).collect::<Vec<_>>()).is_empty() {
            nontrivial();
        }
        let lazy = ok("ReplaceFst::new", ReplaceFst::<W, V, V>::new(fs.clone(), rootl, eps))?;
        let m = walk(&lazy, K + 1)?;
        cmp_rel(&format!("delayed replacement (epsilon_on_replace={eps})"), &relation(&m, L, L).unwrap(), &want, eq_exact)?;
        trace();
        if !rec {
            let e: V = ok("replace", replace::<W, V, V, V>(fs.clone(), rootl, eps))?;
            cmp_rel(&format!("replacement (epsilon_on_replace={eps})"), &rel_of(&e, L, L)?, &want, eq_exact)?;
            let e: V = ok("compute", lazy.compute())?;
            cmp_rel(&format!("expanded delayed replacement (epsilon_on_replace={eps})"), &rel_of(&e, L, L)?, &want, eq_exact)?;
            trace();
            // borrowed rules, immutable rules
            let rf: Vec<(Label, &V)> = fs.iter().map(|(l, f)| (*l, f)).collect();
            let e: V = ok("replace", replace::<W, V, V, &V>(rf, rootl, eps))?;
            cmp_rel("replacement with borrowed rules", &rel_of(&e, L, L)?, &want, eq_exact)?;
            let cf: Vec<(Label, ConstFst<W>)> = fs.iter().map(|(l, f)| (*l, f.clone().into())).collect();
            let e: V = ok("replace", replace::<W, ConstFst<W>, V, ConstFst<W>>(cf, rootl, eps))?;
            cmp_rel("replacement with immutable rules", &rel_of(&e, L, L)?, &want, eq_exact)?;
            trace();
        }
    }
    Ok(())
}
/// The root and rule order vary; a root that is not listed is refused.
fn check_orders(sys: &Sys) -> Result<(), String> {
    for (root, _) in sys.iter().enumerate() {
        check(sys, root)?;
    }
    let mut rev = sys.clone();
    rev.reverse();
    check(&rev, sys.len() - 1)?;
    let fs: Vec<(Label, V)> = sys.iter().map(|(l, a)| (*l, a.fst_gen(0))).collect();
    if replace::<W, V, V, V>(fs, 99, true).is_ok() {
        return Err("replacement with an unlisted root label succeeded".into());
    }
    Ok(())
}

fn delayed_binary(a: &Aut, b: &Aut) -> Result<(), String> {
    let fa: V = a.fst_gen(0);
    let fb: V = b.fst_gen(a.ngen());
    let ra = relation(&a.m_gen::<K, false>(0), L, L).unwrap();
    let rb = relation(&b.m_gen::<K, false>(a.ngen()), L, L).unwrap();
    if !ra.is_empty() && !rb.is_empty() {
        nontrivial();
    }
    let u = ok("UnionFst::new", UnionFst::new(fa.clone(), fb.clone()))?;
    // each operand path gains two or three transitions of weight one
    let want = r_sum(&ra, &rb);
    cmp_rel("delayed union, walked", &relation(&walk(&u, K + 4)?, L, L).unwrap(), &want, eq_exact)?;
    let e: V = ok("compute", u.compute())?;
    cmp_rel("delayed union", &rel_of(&e, L, L)?, &want, eq_exact)?;
    trace();
    let c = ok("ConcatFst::new", ConcatFst::new(fa, fb))?;
    let want = r_cat(&ra, &rb, L, L);
    cmp_rel("delayed concatenation, walked", &relation(&walk(&c, K + 4)?, L, L).unwrap(), &want, eq_exact)?;
    let e: V = ok("compute", c.compute())?;
    cmp_rel("delayed concatenation", &rel_of(&e, L, L)?, &want, eq_exact)?;
    trace();
    Ok(())
}
fn delayed_unary(a: &Aut) -> Result<(), String> {
    let fa: V = a.fst_gen(0);
    let ra = relation(&a.m_gen::<K, false>(0), L, L).unwrap();
    if !ra.is_empty() {
        nontrivial();
    }
    let plus = r_plus(&ra, L, L).unwrap();
    for (t, want) in [(ClosureType::ClosurePlus, plus.clone()), (ClosureType::ClosureStar, r_sum(&plus, &r_one()))] {
        let c = ok("ClosureFst::new", ClosureFst::new(fa.clone(), t))?;
        cmp_rel("delayed closure, walked", &relation(&walk(&c, 4 * K)?, L, L).unwrap(), &want, eq_exact)?;
        let e: V = ok("compute", c.compute())?;
        cmp_rel("delayed closure", &rel_of(&e, L, L)?, &want, eq_exact)?;
        trace();
    }
    Ok(())
}

fn main() {
    run("C08", "model_checking", |m| {
        let q = m.pick(1, 2);
        // two rules, one level of calls
        let roots = Auts::new(2, 2, &[(1, 1), (0, 3), (2, 3), (0, 0)]).collect(|a| a.is_canonical());
        let mut callees = vec![Aut::empty()];
        callees.extend(Auts::new(1, 1, &[(1, 2), (0, 0)]).all_starts().collect(|_| true));
        callees.extend(Auts::new(2, q, &[(1, 2), (0, 0), (2, 0)]).all_starts().collect(|_| true));
        m.family("one call level", "all root machines with 2 states, <=2 arcs over {1:1, call eps:3, call 2:3, eps:eps} x all callees with <=2 states, <=1 (thorough 2) arcs, any start (also none), any final set; both label configurations; eager, delayed walked, borrowed, immutable", Prod(&roots, &callees), |(a, b)| check(&vec![(7, a.clone()), (3, b.clone())], 0));
        // shared callees: two or three calls of the same rule on one or several paths
        let roots3 = Auts::new(3, 3, &[(0, 3), (1, 1)]).collect(|a| a.is_canonical() && a.is_trim() && a.arcs.iter().filter(|t| t.o == 3).count() >= 2);
        let small = Auts::new(2, 1, &[(1, 2), (0, 0)]).collect(|a| a.is_trim());
        m.family("shared callee", "all trim root machines with 3 states and <=3 arcs, at least two of them calls, x all trim callees with <=2 states and one arc", Prod(&roots3, &small), |(a, b)| check(&vec![(7, a.clone()), (3, b.clone())], 0));
        // nesting, mutual and self recursion; every rule as root
        let any = Auts::new(2, 1, &[(1, 1), (0, 3), (0, 4), (2, 5), (2, 0)]).collect(|a| a.start == Some(0));
        let one = Auts::new(1, 1, &[(1, 1), (0, 3), (0, 4)]).collect(|a| a.start.is_some());
        m.family("three rules", "all systems of three rules (3, 4, 6), rules of <=2 states and one arc each that may call any rule (label 5 lies between the non-terminals and is terminal), every root; recursive systems walked lazily to the truncation depth", Prod(&any, Prod(&any, &one)), |(a, (b, c))| check_orders(&vec![(3, a.clone()), (4, b.clone()), (6, c.clone())]));
        let rc = Auts::new(2, 2, &[(1, 1), (0, 3), (1, 4)]).collect(|a| a.is_trim());
        m.family("recursion", "all pairs of trim rules of 2 states, <=2 arcs that may call themselves and each other", Prod(&rc, &rc), |(a, b)| check(&vec![(3, a.clone()), (4, b.clone())], 0));
        {
            let rc3 = Auts::new(3, m.pick(2, 3), &[(1, 1), (0, 3), (1, 4)]).collect(|a| a.is_canonical() && a.is_trim());
            let cc = Auts::new(2, 2, &[(1, 2), (0, 3), (0, 0)]).collect(|a| a.is_trim());
            m.family("recursion-3", "all trim roots with 3 states and <=3 arcs calling themselves or a second rule x all trim second rules with 2 states and <=2 arcs", Prod(&rc3, &cc), |(a, b)| check(&vec![(3, a.clone()), (4, b.clone())], 0));
        }
        // delayed rational operations
        let p3 = [(0, 0), (1, 2), (0, 1)];
        let mut ops = vec![Aut::empty()];
        ops.extend(Auts::new(1, 1, &p3).all_starts().collect(|_| true));
        ops.extend(Auts::new(2, 1, &p3).all_starts().collect(|_| true));
        if m.thorough() {
            ops.extend(Auts::new(2, 2, &p3).kmin(2).collect(|a| a.is_canonical()));
        }
        m.family("delayed union and concatenation", "all ordered pairs of machines with <=2 states, <=1 arc (thorough: also 2 arcs), every start choice incl. none, every final set", Prod(&ops, &ops), |(a, b)| delayed_binary(a, b));
        let o2 = Auts::new(2, 2, &p3).collect(|a| a.is_canonical() && a.is_trim());
        m.family("delayed union and concatenation, trim", "all ordered pairs of trim machines with 2 states and <=2 arcs", Prod(&o2, &o2), |(a, b)| delayed_binary(a, b));
        let mut un = vec![Aut::empty()];
        un.extend(Auts::new(1, 2, &p3).all_starts().collect(|_| true));
        un.extend(Auts::new(2, m.pick(2, 3), &p3).all_starts().collect(|_| true));
        m.family("delayed closure", "all machines with <=2 states, <=2 (3) arcs, any start (also none)", un, |a| delayed_unary(a));
        let pat = riches(&[0, 1, 2, 3, 4], m.pick(&[4, 7][..], &[4, 5, 7, 9, 12][..]), m.pick(1, 2), &[1, 2, 3]);
        m.family("delayed union and concatenation, larger", "all ordered pairs of patterned machines of 4 to 7 (12) states", Prod(&pat, &pat), |(a, b)| delayed_binary(a, b));
        m.family("delayed closure, larger", "patterned machines of 4 to 12 (20) states", riches(&[0, 1, 2, 3, 4], m.pick(&[4, 5, 7, 9, 12][..], &[4, 5, 6, 7, 9, 12, 16, 20][..]), 2, &[1, 2, 3]), |a| delayed_unary(a));
        let roots = riches(&[0, 2, 4], m.pick(&[3, 4][..], &[3, 4, 5][..]), 2, &[1]);
        let rules = riches(&[0, 1, 2], m.pick(&[3][..], &[3, 4][..]), 2, &[1, 2]);
        m.family("larger rules", "patterned root machines of 3 to 4 (5) states calling a patterned rule (label 3, possibly recursive)", Prod(&roots, &rules), |(a, b)| check(&vec![(9, a.clone()), (3, b.clone())], 0));
        m.assumptions = vec!["string pairs up to length 3 per side; weights in the free non-commutative semiring truncated at words of length 7".into()];
    })
}
