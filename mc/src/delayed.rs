//! Exploration of delayed machines: query histories, complete walks, canonical form.
use crate::*;
use rustfst::prelude::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Q {
    Start,
    Fin(StateId),
    Trs(StateId),
    N(StateId),
    Ie(StateId),
    Oe(StateId),
    /// iterate over all states
    Iter,
}
#[derive(Clone, Debug, PartialEq)]
pub enum A<W> {
    Start(Option<StateId>),
    Fin(Option<W>),
    Trs(Vec<(Label, Label, W, StateId)>),
    N(usize),
    Iter(Vec<StateId>),
}

pub fn ask<W: Semiring, F: Fst<W>>(f: &F, q: Q) -> Result<A<W>, String> {
    transitions(1);
    Ok(match q {
        Q::Start => A::Start(f.start()),
        Q::Fin(s) => A::Fin(ok("final_weight", f.final_weight(s))?),
        Q::Trs(s) => A::Trs(ok("get_trs", f.get_trs(s))?.trs().iter().map(|t| (t.ilabel, t.olabel, t.weight.clone(), t.nextstate)).collect()),
        Q::N(s) => A::N(ok("num_trs", f.num_trs(s))?),
        Q::Ie(s) => A::N(ok("num_input_epsilons", f.num_input_epsilons(s))?),
        Q::Oe(s) => A::N(ok("num_output_epsilons", f.num_output_epsilons(s))?),
        Q::Iter => A::Iter(f.states_iter().take(200).collect()),
    })
}

/// The whole machine as seen through the queries, numbered as the delayed machine numbers its states.
pub struct Walk<W> {
    pub start: Option<StateId>,
    pub st: HashMap<StateId, (Option<W>, Vec<(Label, Label, W, StateId)>)>,
}
pub fn walk_all<W: Semiring, F: Fst<W>>(f: &F, max: usize) -> Result<Walk<W>, String> {
    let mut w = Walk { start: f.start(), st: HashMap::new() };
    let mut stack: Vec<StateId> = w.start.into_iter().collect();
    while let Some(s) = stack.pop() {
        if w.st.contains_key(&s) {
            continue;
        }
        let A::Fin(fw) = ask(f, Q::Fin(s))? else { unreachable!() };
        let A::Trs(t) = ask(f, Q::Trs(s))? else { unreachable!() };
        let eps = (t.iter().filter(|t| t.0 == 0).count(), t.iter().filter(|t| t.1 == 0).count());
        if ask(f, Q::N(s))? != A::N(t.len()) || ask(f, Q::Ie(s))? != A::N(eps.0) || ask(f, Q::Oe(s))? != A::N(eps.1) {
            return Err(format!("state {s}: transition or epsilon counts disagree with its transitions"));
        }
        stack.extend(t.iter().map(|t| t.3));
        w.st.insert(s, (fw, t));
        if w.st.len() > max {
            return Err(format!("more than {max} states"));
        }
    }
    Ok(w)
}
impl<W: Semiring> Walk<W> {
    /// States renumbered in breadth-first order, transitions of a state in the order of their labels and weights.
    pub fn canon(&self) -> M<W> {
        let mut m = M { start: None, fin: vec![], arcs: vec![] };
        let Some(s0) = self.start else { return m };
        let mut id: HashMap<StateId, usize> = HashMap::from([(s0, 0)]);
        let mut order = vec![s0];
        let mut i = 0;
        while i < order.len() {
            let (fw, t) = &self.st[&order[i]];
            let mut t: Vec<_> = t.iter().map(|t| ((t.0, t.1, format!("{:?}", t.2)), t)).collect();
            t.sort_by(|a, b| a.0.cmp(&b.0));
            let mut arcs = vec![];
            for (_, t) in t {
                let n = order.len();
                let k = *id.entry(t.3).or_insert(n);
                if k == n {
                    order.push(t.3);
                }
                arcs.push((t.0, t.1, t.2.clone(), k));
            }
            m.fin.push(fw.clone());
            m.arcs.push(arcs);
            i += 1;
        }
        m.start = Some(0);
        m
    }
    pub fn answer(&self, q: Q) -> Option<A<W>> {
        Some(match q {
            Q::Start => A::Start(self.start),
            Q::Fin(s) => A::Fin(self.st.get(&s)?.0.clone()),
            Q::Trs(s) => A::Trs(self.st.get(&s)?.1.clone()),
            Q::N(s) => A::N(self.st.get(&s)?.1.len()),
            Q::Ie(s) => A::N(self.st.get(&s)?.1.iter().filter(|t| t.0 == 0).count()),
            Q::Oe(s) => A::N(self.st.get(&s)?.1.iter().filter(|t| t.1 == 0).count()),
            Q::Iter => return None,
        })
    }
}

/// Explores every history of queries up to `depth` on machines made by `mk` (re-executed from scratch for
/// every history) and checks that all of them see one machine, the one `reference` describes.
pub struct Explore<'a, W: Semiring, F> {
    pub what: &'a str,
    pub mk: &'a dyn Fn() -> Result<F, String>,
    pub dup: Option<&'a dyn Fn(&F) -> F>,
    pub reference: M<W>,
    pub depth: usize,
    pub width: usize,
}
impl<W: Semiring, F: Fst<W>> Explore<'_, W, F> {
    pub fn run(&self) -> Result<(), String> {
        self.node(&mut vec![])
    }
    fn node(&self, h: &mut Vec<Q>) -> Result<(), String> {
        let r = no_panic("query history", || self.visit(h)).and_then(|r| r);
        let known = r.map_err(|e| format!("{} after {h:?}: {e}", self.what))?;
        if h.len() == self.depth {
            return Ok(());
        }
        let mut next = vec![Q::Start, Q::Iter];
        for s in known.into_iter().take(self.width) {
            next.extend([Q::Trs(s), Q::Fin(s), Q::N(s), Q::Ie(s), Q::Oe(s)]);
        }
        for q in next {
            if !h.contains(&q) {
                h.push(q);
                self.node(h)?;
                h.pop();
            }
        }
        Ok(())
    }
    fn visit(&self, h: &[Q]) -> Result<Vec<StateId>, String> {
        states(1);
        trace();
        let f = (self.mk)()?;
        let mut known: Vec<StateId> = vec![];
        let mut ans = vec![];
        let see = |known: &mut Vec<StateId>, s: StateId| {
            if !known.contains(&s) {
                known.push(s)
            }
        };
        for q in h {
            let a = ask(&f, *q)?;
            match &a {
                A::Start(Some(s)) => see(&mut known, *s),
                A::Trs(t) => t.iter().for_each(|t| see(&mut known, t.3)),
                A::Iter(v) => v.iter().for_each(|s| see(&mut known, *s)),
                _ => (),
            }
            ans.push(a);
        }
        let copy = self.dup.map(|d| d(&f));
        self.whole(&f, h, &ans).map_err(|e| format!("machine itself: {e}"))?;
        if let Some(c) = copy {
            self.whole(&c, h, &ans).map_err(|e| format!("clone: {e}"))?;
            self.whole(&f, h, &ans).map_err(|e| format!("machine itself, after its clone was used: {e}"))?;
        }
        Ok(known)
    }
    fn whole(&self, f: &F, h: &[Q], ans: &[A<W>]) -> Result<(), String> {
        let max = 50 + self.reference.n();
        for (q, a) in h.iter().zip(ans) {
            if *q != Q::Iter && ask(f, *q)? != *a {
                return Err(format!("{q:?} answered {:?} at first and {:?} later", a, ask(f, *q)?));
            }
        }
        let w = walk_all(f, max)?;
        for (q, a) in h.iter().zip(ans) {
            if let Some(b) = w.answer(*q) {
                if b != *a {
                    return Err(format!("{q:?} answered {a:?} at first and {b:?} after expansion"));
                }
            }
        }
        let c = w.canon();
        if c != self.reference {
            return Err(format!("expands to {c:?}, not to {:?}", self.reference));
        }
        // iteration visits every reachable state exactly once
        let it: Vec<StateId> = f.states_iter().take(2 * max).collect();
        let mut sorted = it.clone();
        sorted.sort_unstable();
        sorted.dedup();
        if sorted.len() != it.len() {
            return Err(format!("state iteration repeats states: {it:?}"));
        }
        if let Some(s) = w.st.keys().find(|s| !sorted.contains(s)) {
            return Err(format!("state iteration {it:?} misses state {s}"));
        }
        Ok(())
    }
}
