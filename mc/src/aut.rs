//! Neutral automata, their enumeration, and the reference semantics.
use crate::harness::{states, transitions, Space};
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Arc5 {
    pub s: usize,
    pub i: Label,
    pub o: Label,
    pub w: i32,
    pub d: usize,
}
/// A machine as plain data. Weight codes are small integers, interpreted per weight type.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Aut {
    pub n: usize,
    pub start: Option<usize>,
    pub fin: Vec<Option<i32>>,
    pub arcs: Vec<Arc5>,
}
impl fmt::Debug for Aut {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Aut{{n={} start={:?} arcs=[", self.n, self.start)?;
        for (k, a) in self.arcs.iter().enumerate() {
            if k > 0 {
                write!(f, " ")?;
            }
            write!(f, "{}-{}:{}/{}->{}", a.s, a.i, a.o, a.w, a.d)?;
        }
        write!(f, "] final=[")?;
        for (s, w) in self.fin.iter().enumerate() {
            if let Some(w) = w {
                write!(f, "{s}/{w} ")?;
            }
        }
        write!(f, "]}}")
    }
}

impl Aut {
    pub fn empty() -> Self {
        Aut { n: 0, start: None, fin: vec![], arcs: vec![] }
    }
    /// Builds the real mutable FST; `aw(k, code)` gives the weight of the k-th arc and `fw(s, code)` the final weight.
    pub fn build<W: Semiring>(&self, aw: impl Fn(usize, i32) -> W, fw: impl Fn(usize, i32) -> W) -> VectorFst<W> {
        let mut f = VectorFst::<W>::new();
        f.add_states(self.n);
        if let Some(s) = self.start {
            f.set_start(s as StateId).unwrap();
        }
        for (k, a) in self.arcs.iter().enumerate() {
            f.add_tr(a.s as StateId, Tr::new(a.i, a.o, aw(k, a.w), a.d as StateId)).unwrap();
        }
        for (s, w) in self.fin.iter().enumerate() {
            if let Some(w) = w {
                f.set_final(s as StateId, fw(s, *w)).unwrap();
            }
        }
        f
    }
    /// The reference machine with the same weights.
    pub fn model<W: Semiring>(&self, aw: impl Fn(usize, i32) -> W, fw: impl Fn(usize, i32) -> W) -> M<W> {
        let mut m = M { start: self.start, fin: vec![None; self.n], arcs: vec![vec![]; self.n] };
        for (k, a) in self.arcs.iter().enumerate() {
            m.arcs[a.s].push((a.i, a.o, aw(k, a.w), a.d));
        }
        for (s, w) in self.fin.iter().enumerate() {
            m.fin[s] = w.map(|w| fw(s, w));
        }
        m
    }
    /// One generator per arc and per final state, starting at `base`.
    pub fn fst_gen<const K: usize, const C: bool>(&self, base: usize) -> VectorFst<crate::semi::Free<K, C>> {
        let na = self.arcs.len();
        self.build(|k, _| crate::semi::Free::gen(base + k), |s, _| crate::semi::Free::gen(base + na + s))
    }
    pub fn m_gen<const K: usize, const C: bool>(&self, base: usize) -> M<crate::semi::Free<K, C>> {
        let na = self.arcs.len();
        self.model(|k, _| crate::semi::Free::gen(base + k), |s, _| crate::semi::Free::gen(base + na + s))
    }
    pub fn ngen(&self) -> usize {
        self.arcs.len() + self.n
    }
    pub fn fst_trop(&self) -> VectorFst<TropicalWeight> {
        self.build(|_, w| TropicalWeight::new(w as f32), |_, w| TropicalWeight::new(w as f32))
    }
    pub fn m_trop(&self) -> M<TropicalWeight> {
        self.model(|_, w| TropicalWeight::new(w as f32), |_, w| TropicalWeight::new(w as f32))
    }
    pub fn reach(&self) -> Vec<bool> {
        let mut r = vec![false; self.n];
        let mut st = vec![];
        if let Some(s) = self.start {
            r[s] = true;
            st.push(s);
        }
        while let Some(s) = st.pop() {
            for a in self.arcs.iter().filter(|a| a.s == s) {
                if !r[a.d] {
                    r[a.d] = true;
                    st.push(a.d);
                }
            }
        }
        r
    }
    pub fn coreach(&self) -> Vec<bool> {
        let mut r: Vec<bool> = self.fin.iter().map(|f| f.is_some()).collect();
        loop {
            let mut ch = false;
            for a in &self.arcs {
                if r[a.d] && !r[a.s] {
                    r[a.s] = true;
                    ch = true;
                }
            }
            if !ch {
                return r;
            }
        }
    }
    /// Every state lies on an accepting path.
    pub fn is_trim(&self) -> bool {
        self.start.is_some() && self.reach().iter().all(|x| *x) && self.coreach().iter().all(|x| *x)
    }
    /// Reachability matrix by at least one arc passing `keep`.
    pub fn tc(&self, keep: impl Fn(&Arc5) -> bool) -> Vec<Vec<bool>> {
        let mut m = vec![vec![false; self.n]; self.n];
        for a in self.arcs.iter().filter(|a| keep(a)) {
            m[a.s][a.d] = true;
        }
        for k in 0..self.n {
            for i in 0..self.n {
                if m[i][k] {
                    for j in 0..self.n {
                        if m[k][j] {
                            m[i][j] = true;
                        }
                    }
                }
            }
        }
        m
    }
    pub fn is_acyclic(&self) -> bool {
        let m = self.tc(|_| true);
        (0..self.n).all(|i| !m[i][i])
    }
    /// Renumbers states by `perm` (old -> new), keeping arc order.
    pub fn permute(&self, perm: &[usize]) -> Aut {
        let mut fin = vec![None; self.n];
        for s in 0..self.n {
            fin[perm[s]] = self.fin[s];
        }
        Aut {
            n: self.n,
            start: self.start.map(|s| perm[s]),
            fin,
            arcs: self.arcs.iter().map(|a| Arc5 { s: perm[a.s], d: perm[a.d], ..a.clone() }).collect(),
        }
    }
    /// Smallest representative up to renaming of the states other than the start (arc order ignored).
    pub fn is_canonical(&self) -> bool {
        let norm = |a: &Aut| {
            let mut b = a.clone();
            b.arcs.sort();
            b
        };
        let me = norm(self);
        for p in perms(self.n) {
            if let Some(s) = self.start {
                if p[s] != s {
                    continue;
                }
            }
            if norm(&self.permute(&p)) < me {
                return false;
            }
        }
        true
    }
}
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

/// All machines with `n` states and `kmin..=kmax` arcs.
#[derive(Clone, Debug)]
pub struct Auts {
    pub n: usize,
    pub kmin: usize,
    pub kmax: usize,
    pub pairs: Vec<(Label, Label)>,
    pub starts: Vec<Option<usize>>,
    /// weight codes an arc may take
    pub aw: Vec<i32>,
    /// weight codes a final state may take (None = not final is always allowed)
    pub fw: Vec<i32>,
    /// arcs may repeat
    pub multi: bool,
    /// both insertion orders of the arcs
    pub both_orders: bool,
}
impl Auts {
    pub fn new(n: usize, kmax: usize, pairs: &[(Label, Label)]) -> Self {
        Auts {
            n,
            kmin: 0,
            kmax,
            pairs: pairs.to_vec(),
            starts: vec![if n > 0 { Some(0) } else { None }],
            aw: vec![0],
            fw: vec![0],
            multi: true,
            both_orders: false,
        }
    }
    pub fn kmin(mut self, k: usize) -> Self {
        self.kmin = k;
        self
    }
    pub fn starts(mut self, s: Vec<Option<usize>>) -> Self {
        self.starts = s;
        self
    }
    pub fn all_starts(mut self) -> Self {
        self.starts = (0..self.n).map(Some).chain([None]).collect();
        self
    }
    pub fn aw(mut self, w: &[i32]) -> Self {
        self.aw = w.to_vec();
        self
    }
    pub fn fw(mut self, w: &[i32]) -> Self {
        self.fw = w.to_vec();
        self
    }
    pub fn simple(mut self) -> Self {
        self.multi = false;
        self
    }
    pub fn both_orders(mut self) -> Self {
        self.both_orders = true;
        self
    }
    fn m(&self) -> u64 {
        (self.n * self.n * self.pairs.len() * self.aw.len()) as u64
    }
    fn count_k(&self, k: usize) -> u64 {
        if self.multi {
            binom(self.m() + k as u64 - 1, k as u64, k == 0)
        } else {
            binom(self.m(), k as u64, k == 0)
        }
    }
    fn outer(&self) -> u64 {
        ((self.fw.len() as u64 + 1).pow(self.n as u32)) * self.starts.len() as u64 * if self.both_orders { 2 } else { 1 }
    }
    /// Materialises the machines that satisfy `keep`.
    pub fn collect(&self, keep: impl Fn(&Aut) -> bool + Sync) -> Vec<Aut> {
        let n = self.len();
        let nt = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) as u64;
        let keep = &keep;
        let mut parts: Vec<Vec<Aut>> = std::thread::scope(|sc| {
            (0..nt)
                .map(|t| sc.spawn(move || (n * t / nt..n * (t + 1) / nt).map(|i| self.get(i)).filter(|a| keep(a)).collect::<Vec<_>>()))
                .collect::<Vec<_>>()
                .into_iter()
                .map(|h| h.join().unwrap())
                .collect()
        });
        parts.drain(..).flatten().collect()
    }
}
fn binom(n: u64, k: u64, zero: bool) -> u64 {
    if zero {
        return 1;
    }
    let mut r: u128 = 1;
    for i in 0..k {
        if n < i {
            return 0;
        }
        r = r * (n - i) as u128 / (i + 1) as u128;
    }
    r as u64
}
/// k-subset of 0..m with rank r (combinatorial number system).
fn unrank(mut r: u64, m: u64, k: usize) -> Vec<u64> {
    let mut out = vec![0; k];
    let mut hi = m;
    for j in (1..=k).rev() {
        // largest c < hi with C(c, j) <= r
        let (mut lo, mut h) = (j as u64 - 1, hi - 1);
        while lo < h {
            let mid = (lo + h + 1) / 2;
            if binom(mid, j as u64, false) <= r {
                lo = mid;
            } else {
                h = mid - 1;
            }
        }
        out[j - 1] = lo;
        r -= binom(lo, j as u64, false);
        hi = lo;
    }
    out
}
impl Space for Auts {
    type Item = Aut;
    fn len(&self) -> u64 {
        (self.kmin..=self.kmax).map(|k| self.count_k(k)).sum::<u64>() * self.outer()
    }
    fn get(&self, i: u64) -> Aut {
        let outer = self.outer();
        let mut r = i / outer;
        let mut x = i % outer;
        let mut k = self.kmin;
        while r >= self.count_k(k) {
            r -= self.count_k(k);
            k += 1;
        }
        let rev = self.both_orders && x % 2 == 1;
        if self.both_orders {
            x /= 2;
        }
        let start = self.starts[(x % self.starts.len() as u64) as usize];
        x /= self.starts.len() as u64;
        let mut fin = vec![];
        for _ in 0..self.n {
            let d = (x % (self.fw.len() as u64 + 1)) as usize;
            x /= self.fw.len() as u64 + 1;
            fin.push(if d == 0 { None } else { Some(self.fw[d - 1]) });
        }
        let mut c = if k == 0 {
            vec![]
        } else if self.multi {
            let mut c = unrank(r, self.m() + k as u64 - 1, k);
            for (j, v) in c.iter_mut().enumerate() {
                *v -= j as u64;
            }
            c
        } else {
            unrank(r, self.m(), k)
        };
        if rev {
            c.reverse();
        }
        let arcs = c
            .into_iter()
            .map(|mut v| {
                let w = self.aw[(v % self.aw.len() as u64) as usize];
                v /= self.aw.len() as u64;
                let p = self.pairs[(v % self.pairs.len() as u64) as usize];
                v /= self.pairs.len() as u64;
                let d = (v % self.n as u64) as usize;
                let s = (v / self.n as u64) as usize;
                Arc5 { s, i: p.0, o: p.1, w, d }
            })
            .collect();
        Aut { n: self.n, start, fin, arcs }
    }
}

/// Reference machine: weights attached, arcs per state in order.
#[derive(Clone, Debug, PartialEq)]
pub struct M<W> {
    pub start: Option<usize>,
    pub fin: Vec<Option<W>>,
    pub arcs: Vec<Vec<(Label, Label, W, usize)>>,
}
impl<W: Semiring> M<W> {
    pub fn n(&self) -> usize {
        self.fin.len()
    }
    /// Reads a machine back through the public API.
    pub fn of<F: ExpandedFst<W>>(f: &F) -> Result<M<W>, String> {
        let n = f.num_states();
        let mut m = M { start: f.start().map(|s| s as usize), fin: vec![], arcs: vec![] };
        if let Some(s) = m.start {
            if s >= n {
                return Err(format!("start state {s} out of range ({n} states)"));
            }
        }
        for s in 0..n {
            m.fin.push(f.final_weight(s as StateId).map_err(|e| format!("final_weight({s}): {e}"))?);
            let trs = f.get_trs(s as StateId).map_err(|e| format!("get_trs({s}): {e}"))?;
            let mut v = vec![];
            for t in trs.trs() {
                if t.nextstate as usize >= n {
                    return Err(format!("transition from {s} to non-existent state {}", t.nextstate));
                }
                v.push((t.ilabel, t.olabel, t.weight.clone(), t.nextstate as usize));
            }
            m.arcs.push(v);
        }
        Ok(m)
    }
    /// Rebuilds through the public API (used to feed a model back to the implementation).
    pub fn to_fst(&self) -> VectorFst<W> {
        let mut f = VectorFst::<W>::new();
        f.add_states(self.n());
        if let Some(s) = self.start {
            f.set_start(s as StateId).unwrap();
        }
        for s in 0..self.n() {
            if let Some(w) = &self.fin[s] {
                f.set_final(s as StateId, w.clone()).unwrap();
            }
            for (i, o, w, d) in &self.arcs[s] {
                f.add_tr(s as StateId, Tr::new(*i, *o, w.clone(), *d as StateId)).unwrap();
            }
        }
        f
    }
    pub fn num_arcs(&self) -> usize {
        self.arcs.iter().map(|a| a.len()).sum()
    }
    pub fn map_w<V>(&self, f: impl Fn(&W) -> V) -> M<V> {
        M {
            start: self.start,
            fin: self.fin.iter().map(|w| w.as_ref().map(&f)).collect(),
            arcs: self.arcs.iter().map(|v| v.iter().map(|(i, o, w, d)| (*i, *o, f(w), *d)).collect()).collect(),
        }
    }
}

/// Label strings packed 8 bits per label (at most 7 labels); labels above 199 go through a dictionary.
pub type Str = u64;
thread_local! {
    static BIG: std::cell::RefCell<Vec<Label>> = const { std::cell::RefCell::new(vec![]) };
}
fn dig(l: Label) -> u64 {
    if l < 200 {
        return l as u64;
    }
    BIG.with(|b| {
        let mut b = b.borrow_mut();
        if let Some(p) = b.iter().position(|x| *x == l) {
            return 200 + p as u64;
        }
        b.push(l);
        assert!(b.len() < 55, "too many large labels");
        200 + b.len() as u64 - 1
    })
}
pub fn slen(s: Str) -> usize {
    ((64 - s.leading_zeros() as usize) + 7) / 8
}
pub fn spush(s: Str, l: Label) -> Str {
    if l == 0 {
        s
    } else {
        (s << 8) | dig(l)
    }
}
pub fn cat(a: Str, b: Str) -> Str {
    (a << (8 * slen(b))) | b
}
pub fn unpack(s: Str) -> Vec<Label> {
    let mut v = vec![];
    let mut s = s;
    while s > 0 {
        let d = (s & 255) as usize;
        v.push(if d < 200 { d as Label } else { BIG.with(|b| b.borrow()[d - 200]) });
        s >>= 8;
    }
    v.reverse();
    v
}
pub fn pack_str(v: &[Label]) -> Str {
    v.iter().fold(0, |s, l| spush(s, *l))
}
pub fn rev_str(s: Str) -> Str {
    let mut v = unpack(s);
    v.reverse();
    pack_str(&v)
}

/// A weighted relation restricted to strings of bounded length.
pub type Rel<W> = BTreeMap<(Str, Str), W>;

fn add<W: Semiring>(m: &mut Rel<W>, k: (Str, Str), w: &W) {
    match m.get_mut(&k) {
        Some(x) => x.plus_assign(w).unwrap(),
        None => {
            m.insert(k, w.clone());
        }
    }
}

/// The weighted relation of `m` on pairs with |x| <= li and |y| <= lo, by exhaustive dynamic programming
/// over the configurations (state, input read, output written). Epsilon:epsilon moves are iterated to
/// their fixpoint; None if they do not converge.
pub fn relation<W: Semiring>(m: &M<W>, li: usize, lo: usize) -> Option<Rel<W>> {
    let mut out = Rel::new();
    let Some(start) = m.start else { return Some(out) };
    let n = m.n();
    // levels by total length
    let mut levels: Vec<BTreeMap<(Str, Str), Vec<Option<W>>>> = vec![BTreeMap::new(); li + lo + 1];
    let mut v0 = vec![None; n];
    v0[start] = Some(W::one());
    levels[0].insert((0, 0), v0);
    let has_ee = m.arcs.iter().any(|a| a.iter().any(|t| t.0 == 0 && t.1 == 0));
    let (mut ns, mut nt) = (0u64, 0u64);
    for lev in 0..=li + lo {
        let cur = std::mem::take(&mut levels[lev]);
        for ((x, y), mut d) in cur {
            if has_ee {
                // fixpoint of d = d0 + d.E
                let mut delta = d.clone();
                let mut it = 0;
                loop {
                    let mut nd: Vec<Option<W>> = vec![None; n];
                    let mut any = false;
                    for s in 0..n {
                        if let Some(w) = &delta[s] {
                            for t in &m.arcs[s] {
                                if t.0 == 0 && t.1 == 0 {
                                    nt += 1;
                                    let p = w.times(&t.2).unwrap();
                                    if p.is_zero() {
                                        continue;
                                    }
                                    match &mut nd[t.3] {
                                        Some(z) => z.plus_assign(&p).unwrap(),
                                        z => *z = Some(p),
                                    }
                                }
                            }
                        }
                    }
                    for s in 0..n {
                        if let Some(p) = &nd[s] {
                            let z = d[s].clone().unwrap_or_else(W::zero);
                            let q = z.plus(p).unwrap();
                            if q != z || d[s].is_none() {
                                any = true;
                                d[s] = Some(q);
                            }
                        }
                    }
                    if !any {
                        break;
                    }
                    delta = nd;
                    it += 1;
                    if it > 200 {
                        return None;
                    }
                }
            }
            for s in 0..n {
                let Some(w) = &d[s] else { continue };
                ns += 1;
                if let Some(f) = &m.fin[s] {
                    let p = w.times(f).unwrap();
                    if !p.is_zero() {
                        add(&mut out, (x, y), &p);
                    }
                }
                for t in &m.arcs[s] {
                    if t.0 == 0 && t.1 == 0 {
                        continue;
                    }
                    nt += 1;
                    let (a, b) = (slen(x) + (t.0 != 0) as usize, slen(y) + (t.1 != 0) as usize);
                    if a > li || b > lo {
                        continue;
                    }
                    let p = w.times(&t.2).unwrap();
                    if p.is_zero() {
                        continue;
                    }
                    let e = levels[a + b].entry((spush(x, t.0), spush(y, t.1))).or_insert_with(|| vec![None; n]);
                    match &mut e[t.3] {
                        Some(z) => z.plus_assign(&p).unwrap(),
                        z => *z = Some(p),
                    }
                }
            }
        }
    }
    states(ns);
    transitions(nt);
    out.retain(|_, w| !w.is_zero());
    Some(out)
}

/// Relation of a real machine.
pub fn rel_of<W: Semiring, F: ExpandedFst<W>>(f: &F, li: usize, lo: usize) -> Result<Rel<W>, String> {
    relation(&M::of(f)?, li, lo).ok_or_else(|| "epsilon cycle of the result does not converge".to_string())
}

pub fn show_rel<W: std::fmt::Debug>(r: &Rel<W>) -> String {
    let mut s = String::new();
    for (k, w) in r.iter().take(12) {
        s += &format!("{:?}:{:?}={:?}; ", unpack(k.0), unpack(k.1), w);
    }
    if r.len() > 12 {
        s += "...";
    }
    s
}

/// Compares two relations; `eq` compares weights.
pub fn cmp_rel<W: Semiring>(what: &str, got: &Rel<W>, want: &Rel<W>, eq: impl Fn(&W, &W) -> bool) -> Result<(), String> {
    let keys: BTreeSet<_> = got.keys().chain(want.keys()).collect();
    for k in keys {
        let z = W::zero();
        let (g, w) = (got.get(k).unwrap_or(&z), want.get(k).unwrap_or(&z));
        if !eq(g, w) {
            return Err(format!(
                "{what}: weight of {:?}:{:?} is {:?}, expected {:?}\n  got      {}\n  expected {}",
                unpack(k.0),
                unpack(k.1),
                g,
                w,
                show_rel(got),
                show_rel(want)
            ));
        }
    }
    Ok(())
}
pub fn eq_exact<W: Semiring>(a: &W, b: &W) -> bool {
    a == b
}

// ---- relation algebra (the reference model of the rational operations) ----
pub fn r_sum<W: Semiring>(a: &Rel<W>, b: &Rel<W>) -> Rel<W> {
    let mut o = a.clone();
    for (k, w) in b {
        add(&mut o, *k, w);
    }
    o.retain(|_, w| !w.is_zero());
    o
}
pub fn r_cat<W: Semiring>(a: &Rel<W>, b: &Rel<W>, li: usize, lo: usize) -> Rel<W> {
    let mut o = Rel::new();
    for ((x1, y1), w1) in a {
        for ((x2, y2), w2) in b {
            if slen(*x1) + slen(*x2) > li || slen(*y1) + slen(*y2) > lo {
                continue;
            }
            transitions(1);
            let p = w1.times(w2).unwrap();
            if !p.is_zero() {
                add(&mut o, (cat(*x1, *x2), cat(*y1, *y2)), &p);
            }
        }
    }
    o
}
pub fn r_one<W: Semiring>() -> Rel<W> {
    let mut o = Rel::new();
    o.insert((0, 0), W::one());
    o
}
/// a^1 + a^2 + ... (None if it does not converge)
pub fn r_plus<W: Semiring>(a: &Rel<W>, li: usize, lo: usize) -> Option<Rel<W>> {
    let mut sum = a.clone();
    let mut p = a.clone();
    for _ in 0..100 {
        p = r_cat(&p, a, li, lo);
        let ns = r_sum(&sum, &p);
        if p.is_empty() || ns == sum {
            return Some(sum);
        }
        sum = ns;
    }
    None
}
/// sum over y of a(x,y) b(y,z); exact for |y| <= lm when both operands are given up to lm.
pub fn r_compose<W: Semiring>(a: &Rel<W>, b: &Rel<W>) -> Rel<W> {
    let mut o = Rel::new();
    for ((x, y), w1) in a {
        for ((_, z), w2) in b.range((*y, 0)..=(*y, u64::MAX)) {
            transitions(1);
            let p = w1.times(w2).unwrap();
            if !p.is_zero() {
                add(&mut o, (*x, *z), &p);
            }
        }
    }
    o
}
pub fn r_map<W: Semiring, V: Semiring>(a: &Rel<W>, f: impl Fn((Str, Str), &W) -> ((Str, Str), V)) -> Rel<V> {
    let mut o = Rel::new();
    for (k, w) in a {
        let (k2, v) = f(*k, w);
        add(&mut o, k2, &v);
    }
    o.retain(|_, w| !w.is_zero());
    o
}
/// Larger graphs of fixed shapes: every size, every starting weight pattern.
pub fn shape(kind: usize, n: usize, seed: usize) -> Aut {
    let mut a = Aut { n, start: Some(0), fin: vec![None; n], arcs: vec![] };
    let w = |i: usize| ((i * 7 + seed * 5 + i * i * seed) % 11) as i32;
    let mut k = 0;
    let mut arc = |s: usize, d: usize| {
        k += 1;
        a.arcs.push(Arc5 { s, i: 1, o: 1, w: w(k), d })
    };
    for s in 0..n {
        match kind {
            0 => {
                if s + 1 < n {
                    arc(s, s + 1);
                }
                if s + 3 < n {
                    arc(s, s + 3);
                }
                arc(s, s / 2);
            }
            1 => {
                arc(s, (s + 1) % n);
                arc(s, (s * 3 + 1) % n);
                arc(s, s);
            }
            2 => {
                for d in s + 1..n {
                    arc(s, d);
                }
            }
            3 => {
                for d in 0..s {
                    arc(s, d);
                }
            }
            _ => {
                // strongly connected components of size 3 in a chain, entered backwards
                let c = s / 3;
                let nx = c * 3 + (s + 1) % 3;
                if nx < n {
                    arc(s, nx);
                }
                if s + 3 < n {
                    arc(s, s + 3);
                }
                if s + 4 < n {
                    arc(s, s + 4);
                }
            }
        }
    }
    if kind == 3 {
        a.start = Some(n - 1);
    }
    a.fin[n - 1] = Some(1);
    a.fin[n / 2] = Some(3);
    a
}

/// Larger machines: a shape with labels. `lab` 0: acceptor over 3 labels, 1: transducer over 3 labels,
/// 2: transducer with epsilons, 3: acceptor whose labels agree modulo 2^8 and 2^16, 4: acceptor with epsilons.
pub fn rich(kind: usize, n: usize, seed: usize, lab: usize) -> Aut {
    let mut a = shape(kind, n, seed);
    for (k, t) in a.arcs.iter_mut().enumerate() {
        let x = k * 5 + seed + k * k;
        let y = k * 7 + 2 * seed + t.d;
        match lab {
            0 => {
                t.i = (x % 3) as Label + 1;
                t.o = t.i
            }
            1 => {
                t.i = (x % 3) as Label + 1;
                t.o = (y % 3) as Label + 1
            }
            2 => {
                t.i = (x % 3) as Label;
                t.o = (y % 3) as Label
            }
            3 => {
                t.i = [1, 257, 65537, 3][x % 4];
                t.o = t.i
            }
            _ => {
                t.i = (x % 3) as Label;
                t.o = t.i
            }
        }
    }
    a
}
/// The machines `rich` for every shape in `kinds`, size in `ns`, seed below `seeds`, label profile in `labs`.
pub fn riches(kinds: &[usize], ns: &[usize], seeds: usize, labs: &[usize]) -> Vec<Aut> {
    let mut v = vec![];
    for &n in ns {
        for &k in kinds {
            for s in 0..seeds {
                for &l in labs {
                    v.push(rich(k, n, s, l));
                }
            }
        }
    }
    v
}

/// All deterministic machines: for every state and input label either no transition or one of
/// `n * outs * aw`; every final assignment; every start in `starts`; arc insertion orders per `orders`
/// (0 = by label, 1 = reversed, 2 = reversed in odd states).
#[derive(Clone, Debug)]
pub struct Dfas {
    pub n: usize,
    pub ins: Vec<Label>,
    /// output labels (empty: same as the input label)
    pub outs: Vec<Label>,
    pub aw: Vec<i32>,
    pub fw: Vec<i32>,
    pub starts: Vec<Option<usize>>,
    pub orders: Vec<usize>,
    /// every slot filled
    pub complete: bool,
    /// transitions go from lower to higher states only
    pub forward: bool,
}
impl Dfas {
    pub fn new(n: usize, ins: &[Label]) -> Self {
        Dfas { n, ins: ins.to_vec(), outs: vec![], aw: vec![0], fw: vec![0], starts: vec![Some(0)], orders: vec![0], complete: false, forward: false }
    }
    pub fn outs(mut self, o: &[Label]) -> Self {
        self.outs = o.to_vec();
        self
    }
    pub fn aw(mut self, w: &[i32]) -> Self {
        self.aw = w.to_vec();
        self
    }
    pub fn fw(mut self, w: &[i32]) -> Self {
        self.fw = w.to_vec();
        self
    }
    pub fn starts(mut self, s: Vec<Option<usize>>) -> Self {
        self.starts = s;
        self
    }
    pub fn orders(mut self, o: &[usize]) -> Self {
        self.orders = o.to_vec();
        self
    }
    pub fn complete(mut self) -> Self {
        self.complete = true;
        self
    }
    pub fn forward(mut self) -> Self {
        self.forward = true;
        self
    }
    fn dests(&self, s: usize) -> usize {
        if self.forward {
            self.n - 1 - s
        } else {
            self.n
        }
    }
    fn slot(&self, s: usize) -> u64 {
        (self.dests(s) * self.outs.len().max(1) * self.aw.len()) as u64 + if self.complete { 0 } else { 1 }
    }
}
impl Space for Dfas {
    type Item = Aut;
    fn len(&self) -> u64 {
        let mut r = (self.fw.len() as u64 + 1).pow(self.n as u32) * self.starts.len() as u64 * self.orders.len() as u64;
        for s in 0..self.n {
            r *= self.slot(s).pow(self.ins.len() as u32);
        }
        r
    }
    fn get(&self, mut k: u64) -> Aut {
        let mut take = |m: u64| {
            let r = k % m;
            k /= m;
            r as usize
        };
        let mut a = Aut { n: self.n, start: self.starts[take(self.starts.len() as u64)], fin: vec![], arcs: vec![] };
        let ord = self.orders[take(self.orders.len() as u64)];
        for _ in 0..self.n {
            let f = take(self.fw.len() as u64 + 1);
            a.fin.push(if f == 0 { None } else { Some(self.fw[f - 1]) });
        }
        for s in 0..self.n {
            let mut v = vec![];
            for i in &self.ins {
                let mut c = take(self.slot(s));
                if !self.complete {
                    if c == 0 {
                        continue;
                    }
                    c -= 1;
                }
                let w = self.aw[c % self.aw.len()];
                c /= self.aw.len();
                let o = if self.outs.is_empty() { *i } else { self.outs[c % self.outs.len()] };
                c /= self.outs.len().max(1);
                let d = if self.forward { s + 1 + c } else { c };
                v.push(Arc5 { s, i: *i, o, w, d });
            }
            if ord == 1 || (ord == 2 && s % 2 == 1) {
                v.reverse();
            }
            a.arcs.extend(v);
        }
        a
    }
}
