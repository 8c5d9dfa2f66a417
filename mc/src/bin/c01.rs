//! C01: the semiring laws, over all triples of a finite grid of every shipped weight type.
use anyhow::Result as AResult;
use mc::*;
use rustfst::prelude::*;
use rustfst::semirings::*;
use std::fmt::Debug;

/// What a weight type is held to.
struct Spec<W: Semiring> {
    eq: fn(&W, &W) -> bool,
    /// sums defined (both orders)
    sum_ok: fn(&W, &W) -> bool,
    /// addition commutes on this pair
    comm_ok: fn(&W, &W) -> bool,
}
fn l<T>(what: &str, r: AResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("{what} failed: {e}"))
}
fn same<W: Debug>(law: &str, eq: fn(&W, &W) -> bool, a: W, b: W) -> Result<(), String> {
    transitions(1);
    if !eq(&a, &b) || !eq(&b, &a) {
        return Err(format!("{law}: {a:?} versus {b:?}"));
    }
    Ok(())
}
fn laws<W: Semiring>(s: &Spec<W>, a: &W, b: &W, c: &W) -> Result<(), String>
where
    W::ReverseWeight: ReverseBack<W>,
{
    let p = W::properties();
    let e = s.eq;
    states(1);
    trace();
    let (z, o) = (W::zero(), W::one());
    if a == b && b == c {
        // unary laws, once per element
        if !z.is_zero() || !o.is_one() || z.is_one() || o.is_zero() {
            return Err("zero/one are not recognised or coincide".into());
        }
        same("0 + a", e, l("plus", z.plus(a))?, a.clone())?;
        same("a + 0", e, l("plus", a.plus(&z))?, a.clone())?;
        same("1 * a", e, l("times", o.times(a))?, a.clone())?;
        same("a * 1", e, l("times", a.times(&o))?, a.clone())?;
        same("0 * a", e, l("times", z.times(a))?, z.clone())?;
        same("a * 0", e, l("times", a.times(&z))?, z.clone())?;
        same("new(value)", e, W::new(a.value().clone()), a.clone())?;
        same("new(take_value)", e, W::new(a.clone().take_value()), a.clone())?;
        let mut x = o.clone();
        x.set_value(a.value().clone());
        same("set_value", e, x, a.clone())?;
        if !a.approx_equal(a, 1e-3) {
            return Err("a weight is not approximately equal to itself".into());
        }
        if a.is_zero() != e(a, &z) || a.is_one() != e(a, &o) {
            return Err(format!("is_zero {} / is_one {} wrong", a.is_zero(), a.is_one()));
        }
        let r = l("reverse", a.reverse())?;
        same("reverse_back(reverse)", e, l("reverse_back", r.reverse_back())?, a.clone())?;
        if l("reverse", z.reverse())? != W::ReverseWeight::zero() || l("reverse", o.reverse())? != W::ReverseWeight::one() {
            return Err("zero/one do not reverse to zero/one".into());
        }
        if p.contains(SemiringProperties::IDEMPOTENT) {
            same("a + a", e, l("plus", a.plus(a))?, a.clone())?;
        }
        nontrivial();
    }
    // binary
    if (s.sum_ok)(a, b) {
        let ab = l("plus", a.plus(b))?;
        if (s.comm_ok)(a, b) {
            same("a + b = b + a", e, ab.clone(), l("plus", b.plus(a))?)?;
        }
        let mut x = a.clone();
        l("plus_assign", x.plus_assign(b))?;
        same("in-place plus", e, x, ab.clone())?;
        if p.contains(SemiringProperties::PATH) && !(e(&ab, a) || e(&ab, b)) {
            return Err(format!("path property: a + b = {ab:?}"));
        }
        if (s.comm_ok)(a, b) {
            let r = l("reverse", ab.reverse())?;
            let rr = l("plus", l("reverse", a.reverse())?.plus(l("reverse", b.reverse())?))?;
            same("rev(a + b) = rev a + rev b", e, l("rb", r.reverse_back())?, l("rb", rr.reverse_back())?)?;
        }
    } else if a.plus(b).is_ok() {
        return Err(format!("a + b should be refused, got {:?}", a.plus(b)));
    }
    let ab = l("times", a.times(b))?;
    let mut x = a.clone();
    l("times_assign", x.times_assign(b))?;
    same("in-place times", e, x, ab.clone())?;
    if p.contains(SemiringProperties::COMMUTATIVE) {
        same("a * b = b * a", e, ab.clone(), l("times", b.times(a))?)?;
    }
    let r = l("reverse", ab.reverse())?;
    let rr = l("times", l("reverse", b.reverse())?.times(l("reverse", a.reverse())?))?;
    same("rev(a * b) = rev b * rev a", e, l("rb", r.reverse_back())?, l("rb", rr.reverse_back())?)?;
    if r != rr && !e(&l("rb", r.reverse_back())?, &l("rb", rr.reverse_back())?) {
        return Err("reversed product differs".into());
    }
    // ternary
    same("(a * b) * c", e, l("times", ab.times(c))?, l("times", a.times(l("times", b.times(c))?))?)?;
    if (s.sum_ok)(a, b) && (s.sum_ok)(b, c) && (s.sum_ok)(a, c) {
        same("(a + b) + c", e, l("plus", l("plus", a.plus(b))?.plus(c))?, l("plus", a.plus(l("plus", b.plus(c))?))?)?;
    }
    if (s.sum_ok)(b, c) {
        let bc = l("plus", b.plus(c))?;
        if p.contains(SemiringProperties::LEFT_SEMIRING) {
            let d = l("plus", l("times", a.times(b))?.plus(l("times", a.times(c))?))?;
            same("a * (b + c) = a*b + a*c", e, l("times", a.times(&bc))?, d)?;
        }
        if p.contains(SemiringProperties::RIGHT_SEMIRING) {
            let d = l("plus", l("times", b.times(a))?.plus(l("times", c.times(a))?))?;
            same("(b + c) * a = b*a + c*a", e, l("times", bc.times(a))?, d)?;
        }
    }
    Ok(())
}
/// Division undoes multiplication; `sides`: 'L','R','A' supported sides.
fn division<W: WeaklyDivisibleSemiring>(s: &Spec<W>, sides: &str, sums: bool, divisor_ok: fn(&W) -> bool, a: &W, b: &W) -> Result<(), String> {
    if a.is_zero() || !divisor_ok(a) {
        return Ok(());
    }
    let e = s.eq;
    trace();
    for (c, t) in [('L', DivideType::DivideLeft), ('R', DivideType::DivideRight), ('A', DivideType::DivideAny)] {
        let prod = if c == 'R' { l("times", b.times(a))? } else { l("times", a.times(b))? };
        if !sides.contains(c) {
            if !prod.is_zero() && prod.divide(a, t).is_ok() {
                return Err(format!("division on side {c} is not defined for this type but was not refused"));
            }
            continue;
        }
        nontrivial();
        let q = l("divide", prod.divide(a, t))?;
        let mut x = prod.clone();
        l("divide_assign", x.divide_assign(a, t))?;
        same("in-place divide", e, x, q.clone())?;
        same(&format!("(a*b)/a = b on side {c}"), e, q, b.clone())?;
        if sums && (s.sum_ok)(a, b) {
            // weak divisibility: a is a multiple of a + b
            let d = l("plus", a.plus(b))?;
            if !d.is_zero() {
                let q = l("divide", a.divide(&d, t))?;
                let back = if c == 'R' { l("times", q.times(&d))? } else { l("times", d.times(&q))? };
                same(&format!("(a+b)*(a/(a+b)) = a on side {c}"), e, back, a.clone())?;
            }
        }
    }
    Ok(())
}
fn quant<W: WeightQuantize>(s: &Spec<W>, near: fn(&W, &W, f32) -> bool, a: &W) -> Result<(), String> {
    for d in [1.0 / 1024.0, 0.25, 1.0] {
        let q = l("quantize", a.quantize(d))?;
        let mut x = a.clone();
        l("quantize_assign", x.quantize_assign(d))?;
        same("in-place quantize", s.eq, x, q.clone())?;
        same("quantize twice", s.eq, l("quantize", q.quantize(d))?, q.clone())?;
        if !near(a, &q, d) {
            return Err(format!("quantize by {d} moves the weight to {q:?}"));
        }
        trace();
    }
    Ok(())
}
fn star<W: StarSemiring>(e: fn(&W, &W) -> bool, a: &W) -> Result<(), String> {
    let s = a.closure();
    nontrivial();
    trace();
    same("w* = 1 + w w*", e, s.clone(), l("plus", W::one().plus(l("times", a.times(&s))?))?)?;
    same("w* = 1 + w* w", e, s.clone(), l("plus", W::one().plus(l("times", s.times(a))?))?)
}

const INF: f32 = f32::INFINITY;
fn feq(a: f32, b: f32) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 2e-6 * (1.0 + a.abs().max(b.abs()))
}
/// Tolerance for log sums.
fn leq(a: f32, b: f32) -> bool {
    a == b || a.is_finite() && b.is_finite() && (a - b).abs() <= 2e-5 * (1.0 + a.abs().max(b.abs()))
}
fn all2<W>(_: &W, _: &W) -> bool {
    true
}
fn t_eq(a: &TropicalWeight, b: &TropicalWeight) -> bool {
    feq(*a.value(), *b.value())
}
fn lg_eq(a: &LogWeight, b: &LogWeight) -> bool {
    leq(*a.value(), *b.value())
}
fn pr_eq(a: &ProbabilityWeight, b: &ProbabilityWeight) -> bool {
    leq(*a.value(), *b.value())
}
fn strs(k: usize) -> Vec<Vec<Label>> {
    let mut v: Vec<Vec<Label>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..k {
        last = last.iter().flat_map(|s| [1, 2].map(|x| [s.clone(), vec![x]].concat())).collect();
        v.extend(last.iter().cloned());
    }
    v
}
struct Triples<W>(Vec<W>);
impl<W: Semiring + Send> Space for Triples<W> {
    type Item = (W, W, W);
    fn len(&self) -> u64 {
        (self.0.len() as u64).pow(3)
    }
    fn get(&self, i: u64) -> (W, W, W) {
        let n = self.0.len() as u64;
        let g = |j: u64| self.0[j as usize].clone();
        (g(i / n / n), g(i / n % n), g(i % n))
    }
}
fn lit(a: &[Label], b: &[Label], right: bool) -> Vec<Label> {
    let n = if right {
        a.iter().rev().zip(b.iter().rev()).take_while(|(x, y)| x == y).count()
    } else {
        a.iter().zip(b).take_while(|(x, y)| x == y).count()
    };
    if right {
        a[a.len() - n..].to_vec()
    } else {
        a[..n].to_vec()
    }
}
type Sv = <StringWeightLeft as Semiring>::Type;
fn sv(v: &Sv) -> Option<Vec<Label>> {
    if v.is_infinity() {
        None
    } else {
        Some(v.unwrap_labels().clone())
    }
}
/// A weight is read as the reals/strings it stands for and the operation is recomputed independently.
fn means<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    states(1);
    if got != want {
        return Err(format!("{what} is {got:?}, expected {want:?}"));
    }
    Ok(())
}
type GU = GallicWeight<TropicalWeight>;
type Set = Vec<(Vec<Label>, f32)>;
fn gset(w: &GU) -> Set {
    let mut v: Set = w.iter().map(|x| (sv(x.value1().value()).expect("infinity inside a gallic set"), *x.value2().value())).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
fn canon(v: impl Iterator<Item = (Vec<Label>, f32)>) -> Set {
    let mut m: std::collections::BTreeMap<Vec<Label>, f32> = Default::default();
    for (s, w) in v {
        let e = m.entry(s).or_insert(INF);
        *e = e.min(w)
    }
    m.into_iter().collect()
}
macro_rules! strtype {
    ($m:expr, $name:expr, $t:ident, $k:expr, $sides:expr, $right:expr, $restrict:expr) => {{
        let mut els = vec![$t::zero()];
        els.extend(strs($k).into_iter().map(|s| <$t as From<Vec<Label>>>::from(s)));
        let spec = Spec::<$t> { eq: |a, b| a == b, sum_ok: if $restrict { |a, b| a.is_zero() || b.is_zero() || a == b } else { all2 }, comm_ok: all2 };
        $m.family($name, "all triples of strings over {1,2} up to the bound, and infinity; non-trivial: unary laws and every defined division", Triples(els), move |(a, b, c)| {
            laws(&spec, a, b, c)?;
            if c.is_one() {
                division(&spec, $sides, true, |_| true, a, b)?;
                let (x, y) = (sv(a.value()), sv(b.value()));
                let prod = match (&x, &y) {
                    (Some(x), Some(y)) => Some([x.clone(), y.clone()].concat()),
                    _ => None,
                };
                means("product", sv(l("times", a.times(b))?.value()), prod)?;
                if (spec.sum_ok)(a, b) {
                    let sum = match (x, y) {
                        (Some(x), Some(y)) => Some(if $restrict { x } else { lit(&x, &y, $right) }),
                        (Some(x), None) | (None, Some(x)) => Some(x),
                        _ => None,
                    };
                    means("sum", sv(l("plus", a.plus(b))?.value()), sum)?;
                }
            }
            Ok(())
        });
    }};
}
macro_rules! gallictype {
    ($m:expr, $name:expr, $t:ident, $k:expr, $ws:expr, $sides:expr, $sum_ok:expr, $comm_ok:expr, $sums:expr) => {{
        type G = $t<TropicalWeight>;
        let mut els = vec![G::zero()];
        for s in strs($k) {
            for w in $ws {
                els.push(G::from((s.clone(), TropicalWeight::new(w))));
            }
        }
        let spec = Spec::<G> { eq: |a, b| a.value1() == b.value1() && t_eq(a.value2(), b.value2()), sum_ok: $sum_ok, comm_ok: $comm_ok };
        $m.family($name, "all triples of (string, weight) pairs over {1,2} and the listed weights, and zero", Triples(els), move |(a, b, c)| {
            laws(&spec, a, b, c)?;
            if c.is_one() {
                division(&spec, $sides, $sums, |_| true, a, b)?;
                quant(&spec, |a, b, d| a.value1() == b.value1() && (a.is_zero() && b.is_zero() || (a.value2().value() - b.value2().value()).abs() <= d), a)?;
            }
            Ok(())
        });
    }};
}

fn main() {
    run("C01", "model_checking", |m| {
        let bools = vec![BooleanWeight::new(false), BooleanWeight::new(true)];
        m.family("boolean", "all triples", Triples(bools), |(a, b, c)| {
            let s = Spec { eq: |a, b| a == b, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            means("plus", *l("plus", a.plus(b))?.value(), *a.value() || *b.value())?;
            means("times", *l("times", a.times(b))?.value(), *a.value() && *b.value())?;
            star(s.eq, a)
        });
        let ints: Vec<IntegerWeight> = (-4..=6).chain([100, -37]).map(IntegerWeight::new).collect();
        m.family("integer", "all triples over -4..6, 100, -37", Triples(ints), |(a, b, c)| {
            let s = Spec { eq: |a, b| a == b, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            means("plus", *l("plus", a.plus(b))?.value(), a.value() + b.value())?;
            means("times", *l("times", a.times(b))?.value(), a.value() * b.value())?;
            if a.is_zero() {
                star(s.eq, a)?;
            }
            Ok(())
        });
        let grid: Vec<f32> = (-8..=m.pick(16, 40)).map(|i| i as f32 * 0.25).chain([INF, 1000.5, -300.25, 33.0]).collect();
        let trop: Vec<_> = grid.iter().map(|&x| TropicalWeight::new(x)).collect();
        m.family("tropical", "all triples over a dyadic grid, large values and infinity", Triples(trop), |(a, b, c)| {
            let s = Spec { eq: t_eq, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            if c.is_one() {
                division(&s, "LRA", true, |_| true, a, b)?;
                quant(&s, |a, b, d| a.is_zero() && b.is_zero() || (a.value() - b.value()).abs() <= d, a)?;
                means("plus", *l("plus", a.plus(b))?.value(), a.value().min(*b.value()))?;
                means("times", *l("times", a.times(b))?.value(), a.value() + b.value())?;
                if *a.value() >= 0.0 {
                    star(s.eq, a)?;
                }
            }
            Ok(())
        });
        let log: Vec<_> = grid.iter().map(|&x| LogWeight::new(x)).collect();
        m.family("log", "all triples over the same grid, sums compared within 2e-5 relative", Triples(log), |(a, b, c)| {
            let s = Spec { eq: lg_eq, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            if c.is_one() {
                division(&s, "LRA", true, |_| true, a, b)?;
                quant(&s, |a, b, d| a.is_zero() && b.is_zero() || (a.value() - b.value()).abs() <= d, a)?;
                let (x, y) = (*a.value() as f64, *b.value() as f64);
                let lo = x.min(y);
                let want = if lo.is_infinite() { lo } else { lo - (1.0 + (-(x.max(y) - lo)).exp()).ln() };
                let got = l("plus", a.plus(b))?;
                if !leq(*got.value(), want as f32) {
                    return Err(format!("log sum is {got:?}, expected {want}"));
                }
                means("times", *l("times", a.times(b))?.value(), a.value() + b.value())?;
                if *a.value() > 0.0 {
                    star(|a, b| (a.value() - b.value()).abs() <= 1e-3 || a == b, a)?;
                }
            }
            Ok(())
        });
        let pr: Vec<_> = (0..=m.pick(12, 32)).map(|i| ProbabilityWeight::new(i as f32 * 0.125)).chain([ProbabilityWeight::new(1.0 / 64.0), ProbabilityWeight::new(250.0)]).collect();
        m.family("probability", "all triples over a dyadic grid", Triples(pr), |(a, b, c)| {
            let s = Spec { eq: pr_eq, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            if c.is_one() {
                division(&s, "LRA", true, |_| true, a, b)?;
                quant(&s, |a, b, d| (a.value() - b.value()).abs() <= d, a)?;
                means("plus", *l("plus", a.plus(b))?.value(), a.value() + b.value())?;
                means("times", *l("times", a.times(b))?.value(), a.value() * b.value())?;
                if *a.value() < 1.0 {
                    star(s.eq, a)?;
                }
            }
            Ok(())
        });
        let k = m.pick(3, 4);
        strtype!(m, "string-left", StringWeightLeft, k, "L", false, false);
        strtype!(m, "string-right", StringWeightRight, k, "R", true, false);
        strtype!(m, "string-restrict", StringWeightRestrict, k, "LR", false, true);
        let ws = [0.0, 1.5, -0.5];
        gallictype!(m, "gallic-left", GallicWeightLeft, 2, ws, "L", all2, all2, true);
        gallictype!(m, "gallic-right", GallicWeightRight, 2, ws, "R", all2, all2, true);
        gallictype!(m, "gallic-restrict", GallicWeightRestrict, 2, ws, "LR", |a, b| a.is_zero() || b.is_zero() || a.value1() == b.value1(), all2, true);
        // ties between different strings are resolved in favour of the right operand (as in OpenFst)
        gallictype!(m, "gallic-min", GallicWeightMin, 2, ws, "LR", all2, |a, b| a.value1() == b.value1() || a.value2() != b.value2(), false);

        // sets of (string, weight)
        let st = strs(2);
        let one: Vec<(Vec<Label>, f32)> = st.iter().flat_map(|s| [0.0, 1.5].map(|w| (s.clone(), w))).collect();
        let mut sets: Vec<Set> = vec![vec![]];
        for i in 0..one.len() {
            sets.push(vec![one[i].clone()]);
            for j in i + 1..one.len() {
                if one[i].0 != one[j].0 {
                    sets.push(vec![one[i].clone(), one[j].clone()]);
                    if m.thorough() {
                        for h in j + 1..one.len() {
                            if one[h].0 != one[j].0 && one[h].1 == 0.0 {
                                sets.push(vec![one[i].clone(), one[j].clone(), one[h].clone()]);
                            }
                        }
                    }
                }
            }
        }
        let mk = |s: &Set| -> GU { GU::new(s.iter().map(|(s, w)| GallicWeightRestrict::from((s.clone(), TropicalWeight::new(*w)))).collect()) };
        let gus: Vec<GU> = sets.iter().map(mk).collect();
        m.family("gallic", "all triples of sets of at most 2 (thorough 3) strings of length <=2 with weights; sums and products against a map model", Triples(gus), |(a, b, c)| {
            let s = Spec::<GU> { eq: |a, b| a == b, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            if c.is_one() {
                division(&s, "LR", false, |a| a.len() == 1, a, b)?;
                means("sum", gset(&l("plus", a.plus(b))?), canon(gset(a).into_iter().chain(gset(b))))?;
                let prod = gset(a).into_iter().flat_map(|(s, w)| gset(b).into_iter().map(move |(t, v)| ([s.clone(), t].concat(), w + v)));
                means("product", gset(&l("times", a.times(b))?), canon(prod))?;
                means("reverse", gset(&l("reverse", a.reverse())?), canon(gset(a).into_iter().map(|(s, w)| (s.into_iter().rev().collect(), w))))?;
                quant(&s, |a, b, d| a.len() == b.len() && a.approx_equal(b, d), a)?;
            }
            Ok(())
        });
        // products, including the mixed cases where only one component is zero
        type P1 = ProductWeight<TropicalWeight, LogWeight>;
        let fs = [INF, 0.0, 0.75, -2.0];
        let p1: Vec<P1> = fs.iter().flat_map(|&a| fs.map(|b| P1::from((TropicalWeight::new(a), LogWeight::new(b))))).collect();
        m.family("product-tl", "all triples of (tropical, log) pairs, zeros mixed in", Triples(p1), |(a, b, c)| {
            let s = Spec::<P1> { eq: |a, b| t_eq(a.value1(), b.value1()) && lg_eq(a.value2(), b.value2()), sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)?;
            if c.is_one() {
                division(&s, "LRA", true, |a| !a.value1().is_zero() && !a.value2().is_zero(), a, b)?;
            }
            Ok(())
        });
        type P2 = ProductWeight<StringWeightLeft, BooleanWeight>;
        let p2: Vec<P2> = strs(2).into_iter().map(Some).chain([None]).flat_map(|x| [false, true].map(|b| P2::from((x.clone().map_or(StringWeightLeft::zero(), |x| StringWeightLeft::from(x)), BooleanWeight::new(b))))).collect();
        m.family("product-sb", "all triples of (left string, boolean) pairs", Triples(p2), |(a, b, c)| {
            let s = Spec::<P2> { eq: |a, b| a == b, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)
        });
        type P3 = ProductWeight<IntegerWeight, ProductWeight<BooleanWeight, TropicalWeight>>;
        let p3: Vec<P3> = [0, 1, 3].iter().flat_map(|&i| [false, true].into_iter().flat_map(move |b| [INF, 0.0, 2.5].map(|t| P3::from((IntegerWeight::new(i), ProductWeight::from((BooleanWeight::new(b), TropicalWeight::new(t)))))))).collect();
        m.family("product-nested", "all triples of nested products", Triples(p3), |(a, b, c)| {
            let s = Spec::<P3> { eq: |a, b| a == b, sum_ok: all2, comm_ok: all2 };
            laws(&s, a, b, c)
        });
        m.assumptions = vec![
            "finite value grids (dyadic reals, strings up to length 3/4, sets up to 2/3 strings); float laws up to rounding; division by zero outside the domain".into(),
            "min-gallic sums commute except on ties between different strings".into(),
        ];
    })
}
