//! C23: symbol tables against a plain list of symbols, over all operation histories.
use mc::*;
use rustfst::prelude::*;
use rustfst::EPS_SYMBOL;
use std::collections::hash_map::RandomState;
use std::sync::Arc;

const SYMS: [&str; 6] = ["a", "b", "", EPS_SYMBOL, "é\u{301}", "A"];
const LISTS: [&[&str]; 4] = [&["a ", "\t", "b\u{a0}", "a"], &["b", "b", "c"], &["c", "a"], &["d", EPS_SYMBOL, "b"]];

fn tables() -> Vec<(SymbolTable, Vec<String>)> {
    let mut v = vec![];
    for (eps, l) in [(false, vec![]), (true, vec![]), (true, vec!["b", "a"]), (false, vec!["c", EPS_SYMBOL]), (true, vec!["x", "a", "y"])] {
        let mut t = if eps { SymbolTable::new() } else { SymbolTable::empty() };
        let mut m: Vec<String> = if eps { vec![EPS_SYMBOL.into()] } else { vec![] };
        for s in l {
            t.add_symbol(s);
            m.push(s.into());
        }
        v.push((t, m));
    }
    v
}
fn madd(m: &mut Vec<String>, s: &str) -> usize {
    match m.iter().position(|x| x == s) {
        Some(p) => p,
        None => {
            m.push(s.into());
            m.len() - 1
        }
    }
}
fn agree(t: &SymbolTable, m: &[String]) -> Result<(), String> {
    let bad = |what: &str, x: String| Err(format!("{what}: {x}, expected symbols {m:?}"));
    if t.len() != m.len() || t.is_empty() != m.is_empty() {
        return bad("size", format!("{} / empty {}", t.len(), t.is_empty()));
    }
    for (l, s) in m.iter().enumerate() {
        if t.get_symbol(l as Label) != Some(s.as_str()) || !t.contains_label(l as Label) {
            return bad("symbol lookup", format!("{l} -> {:?}", t.get_symbol(l as Label)));
        }
        if t.get_label(s) != Some(l as Label) || !t.contains_symbol(s) {
            return bad("label lookup", format!("{s:?} -> {:?}", t.get_label(s)));
        }
    }
    for l in [m.len() as Label, m.len() as Label + 1, Label::MAX, Label::MAX - 1] {
        if t.get_symbol(l).is_some() || t.contains_label(l) {
            return bad("symbol lookup out of range", format!("{l}"));
        }
    }
    for s in SYMS.iter().chain(["c", "zz", " a", "a ", "é"].iter()) {
        if t.get_label(s).is_some() != m.iter().any(|x| x == s) || t.contains_symbol(s) != m.iter().any(|x| x == s) {
            return bad("membership", format!("{s:?} -> {:?}", t.get_label(s)));
        }
    }
    let it: Vec<(Label, String)> = t.iter().map(|(l, s)| (l, s.to_string())).collect();
    let want: Vec<(Label, String)> = m.iter().enumerate().map(|(l, s)| (l as Label, s.clone())).collect();
    if it != want || t.labels().collect::<Vec<_>>() != (0..m.len() as Label).collect::<Vec<_>>() || t.symbols().collect::<Vec<_>>() != m {
        return bad("iteration", format!("{it:?}"));
    }
    let txt: String = want.iter().map(|(l, s)| format!("{s}\t{l}\n")).collect();
    if ok("text", t.text())? != txt || t.to_string() != txt {
        return bad("text", format!("{:?}", t.to_string()));
    }
    Ok(())
}
/// Ops: 0..6 add_symbol, 6..10 add_symbols, 10..15 add_table, 15 reserve, 16 clone (continue on the copy), 17 merge with itself
const NOPS: usize = 18;
fn history(start: usize, ops: &[usize], eqs: &[(SymbolTable, Vec<String>)]) -> Result<(), String> {
    let tabs = tables();
    let (mut t, mut m) = match start {
        0 => (SymbolTable::new(), vec![EPS_SYMBOL.to_string()]),
        1 => (SymbolTable::empty(), vec![]),
        _ => (SymbolTable::with_hasher(RandomState::new()), vec![EPS_SYMBOL.to_string()]),
    };
    states(1);
    agree(&t, &m)?;
    for o in ops {
        transitions(1);
        match *o {
            o @ 0..=5 => {
                let (l, w) = (t.add_symbol(SYMS[o]), madd(&mut m, SYMS[o]));
                if l as usize != w {
                    return Err(format!("add_symbol({:?}) returned {l}, expected {w}", SYMS[o]));
                }
            }
            o @ 6..=9 => {
                t.add_symbols(LISTS[o - 6].to_vec());
                LISTS[o - 6].iter().for_each(|s| {
                    madd(&mut m, s);
                });
            }
            o @ 10..=14 => {
                let (x, y) = &tabs[o - 10];
                t.add_table(x);
                y.iter().for_each(|s| {
                    madd(&mut m, s);
                });
                agree(x, y)?;
            }
            15 => t.reserve(7),
            16 => {
                let c = t.clone();
                if c != t {
                    return Err("a clone differs from its original".into());
                }
                t.add_symbol("only in the abandoned original");
                if c == t {
                    return Err("adding a symbol to the original changed the clone (or equality ignores it)".into());
                }
                t = c;
            }
            _ => {
                let c = t.clone();
                t.add_table(&c);
            }
        }
        agree(&t, &m)?;
    }
    for (x, y) in eqs {
        if (*x == t) != (*y == m) || (t == *x) != (*y == m) {
            return Err(format!("equality with {y:?} answered {}", *x == t));
        }
    }
    if m.len() > 2 {
        nontrivial();
    }
    trace();
    Ok(())
}

type W = Nc<4>;
fn table(l: &[&str]) -> SymbolTable {
    let mut t = SymbolTable::empty();
    t.add_symbols(l.to_vec());
    t
}
/// The machine with every label replaced by what `f` says; None when some label has no image.
fn mapped(m: &M<W>, fi: &dyn Fn(Label) -> Option<Label>, fo: &dyn Fn(Label) -> Option<Label>) -> Option<M<W>> {
    let mut r = m.clone();
    for a in r.arcs.iter_mut().flatten() {
        a.0 = fi(a.0)?;
        a.1 = fo(a.1)?;
    }
    Some(r)
}
fn relabel(a: &Aut, tabs: &[Vec<&'static str>], attach: usize, given: usize) -> Result<(), String> {
    let t: Vec<Arc<SymbolTable>> = tabs.iter().map(|l| Arc::new(table(l))).collect();
    for oi in 0..t.len() {
        for ni in 0..t.len() {
            for oo in 0..t.len() {
                for no in 0..t.len() {
                    let mut f: VectorFst<W> = a.fst_gen(0);
                    let before = M::of(&f)?;
                    let tr = |o: usize, n: usize, l: Label| tabs[o].as_slice().get(l as usize).and_then(|s| tabs[n].iter().position(|x| x == s)).map(|x| x as Label);
                    let want = mapped(&before, &|l| tr(oi, ni, l), &|l| tr(oo, no, l));
                    // given: bit 0 / 1 = the old input / output table is passed, otherwise it is the attached one
                    if given & 1 == 0 {
                        f.set_input_symbols(t[oi].clone());
                    }
                    if given & 2 == 0 {
                        f.set_output_symbols(t[oo].clone());
                    }
                    let r = f.relabel_tables((given & 1 != 0).then_some(&t[oi]), &t[ni], attach & 1 != 0, (given & 2 != 0).then_some(&t[oo]), &t[no], attach & 2 != 0);
                    trace();
                    match (r, want) {
                        (Ok(()), Some(w)) => {
                            if w != before {
                                nontrivial();
                            }
                            if M::of(&f)? != w {
                                return Err(format!("tables {oi}->{ni}, {oo}->{no}: relabelled to {:?}, expected {w:?}", M::of(&f)?));
                            }
                            let at = (f.input_symbols().map(|x| **x == *t[ni]), f.output_symbols().map(|x| **x == *t[no]));
                            if at != ((attach & 1 != 0).then_some(true), (attach & 2 != 0).then_some(true)) {
                                return Err(format!("tables attached: {at:?}, requested {attach}"));
                            }
                            flags_ok("relabelled machine", &f)?;
                        }
                        (Ok(()), None) => return Err("relabelling a label that has no symbol (or a symbol that has no new label) succeeded".into()),
                        (Err(e), Some(_)) => return Err(format!("relabelling failed: {e:#}")),
                        (Err(_), None) => (),
                    }
                }
            }
        }
    }
    // no table at all
    let mut f: VectorFst<W> = a.fst_gen(0);
    if f.relabel_tables(None, &t[0], true, None, &t[0], true).is_ok() {
        return Err("relabelling without any old table succeeded".into());
    }
    Ok(())
}

fn main() {
    run("C23", "model_checking", |m| {
        let d = m.pick(4, 5);
        let eqs: Vec<(SymbolTable, Vec<String>)> = {
            let mut v = tables();
            for l in [vec!["a"], vec!["a", "b"], vec!["b", "a"], vec![EPS_SYMBOL, "a"], vec![EPS_SYMBOL, "a", "b"], vec![EPS_SYMBOL, "b", "a"], vec![EPS_SYMBOL, "b", "c"], vec![EPS_SYMBOL, ""]] {
                v.push((table(&l), l.iter().map(|s| s.to_string()).collect()));
            }
            v
        };
        m.family("histories", "all sequences of <=4 (thorough 5) additions, bulk additions, merges, reservations, clones and self-merges, from a table with epsilon, an empty table and a table with its own hasher; every lookup after every step, equality with 13 tables at the end; non-trivial: more than 2 symbols", Prod(vec![0usize, 1, 2], Seqs { m: NOPS as u64, kmin: 0, kmax: d }), |(s, o)| history(*s, o, &eqs));
        let e = EPS_SYMBOL;
        let tabs: Vec<Vec<&'static str>> = vec![vec![e, "a", "b"], vec![e, "b", "a"], vec![e, "a"], vec![e, "c", "a", "b"], vec!["a", e, "b"], vec![]];
        let pairs = [(0, 1), (1, 2), (2, 2), (1, 0), (3, 1)];
        let mut mach = vec![Aut::empty()];
        mach.extend(Auts::new(2, m.pick(2, 3), &pairs).collect(|a| a.is_canonical() && a.fin[1].is_some()));
        m.family("relabel_tables", "all 2-state machines with <=2 (3) arcs over 5 label pairs x all quadruples of 6 tables (permutations, extra, missing symbols, epsilon elsewhere, empty) x attach options x old tables passed or attached", Prod(mach, Prod(vec![0usize, 1, 2, 3], vec![0usize, 1, 2, 3])), |(a, (x, g))| relabel(a, &tabs, *x, *g));
        m.assumptions = vec!["a failed relabelling may leave the machine partly relabelled (nothing is promised)".into()];
    })
}
