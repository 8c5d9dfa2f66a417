//! Formal weights. `Free<K, COMM>` is the semiring of formal power series with natural coefficients over
//! generator letters 1..=255, modulo words longer than K (K <= 15): the free semiring truncated at
//! length K, so every series converges after finitely many terms. With COMM = false multiplication is
//! concatenation (free non-commutative semiring), with COMM = true letters commute (polynomials).
//! Giving each transition its own generator makes an equality of results valid for every (commutative)
//! semiring whose values are substituted for the generators.
use anyhow::Result;
use rustfst::semirings::{ReverseBack, Semiring, SemiringProperties, WeightQuantize};
use std::borrow::Borrow;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Debug, Default)]
pub struct Free<const K: usize, const COMM: bool>(pub Vec<(u128, u32)>);

fn wlen(mut w: u128) -> usize {
    let mut n = 0;
    while w > 0 {
        n += 1;
        w >>= 8;
    }
    n
}
fn letters(mut w: u128) -> Vec<u128> {
    let mut v = vec![];
    while w > 0 {
        v.push(w & 255);
        w >>= 8;
    }
    v.reverse();
    v
}
fn pack(v: &[u128]) -> u128 {
    v.iter().fold(0, |a, l| (a << 8) | l)
}

impl<const K: usize, const COMM: bool> Free<K, COMM> {
    /// The generator number `g` (0-based).
    pub fn gen(g: usize) -> Self {
        let g = g % 255; // more generators than letters: some are shared
        Free(vec![(g as u128 + 1, 1)])
    }
    pub fn from_word(w: &[usize]) -> Self {
        let mut v: Vec<u128> = w.iter().map(|g| *g as u128 + 1).collect();
        if COMM {
            v.sort();
        }
        Free(vec![(pack(&v), 1)])
    }
    fn norm(mut v: Vec<(u128, u32)>) -> Self {
        v.sort_unstable();
        let mut out: Vec<(u128, u32)> = Vec::with_capacity(v.len());
        for (w, c) in v {
            match out.last_mut() {
                Some(l) if l.0 == w => l.1 = l.1.saturating_add(c),
                _ => out.push((w, c)),
            }
        }
        Free(out)
    }
}

impl<const K: usize, const COMM: bool> Semiring for Free<K, COMM> {
    type Type = Vec<(u128, u32)>;
    type ReverseWeight = Free<K, COMM>;
    fn zero() -> Self {
        Free(vec![])
    }
    fn one() -> Self {
        Free(vec![(0, 1)])
    }
    fn new(v: Self::Type) -> Self {
        Self::norm(v)
    }
    fn plus_assign<P: Borrow<Self>>(&mut self, rhs: P) -> Result<()> {
        let mut v = std::mem::take(&mut self.0);
        v.extend_from_slice(&rhs.borrow().0);
        *self = Self::norm(v);
        Ok(())
    }
    fn times_assign<P: Borrow<Self>>(&mut self, rhs: P) -> Result<()> {
        let r = rhs.borrow();
        let mut out = Vec::with_capacity(self.0.len() * r.0.len());
        for (a, ca) in &self.0 {
            let la = wlen(*a);
            for (b, cb) in &r.0 {
                let lb = wlen(*b);
                if la + lb > K {
                    continue;
                }
                let mut w = (a << (8 * lb)) | b;
                if COMM {
                    let mut l = letters(w);
                    l.sort_unstable();
                    w = pack(&l);
                }
                out.push((w, ca.saturating_mul(*cb)));
            }
        }
        *self = Self::norm(out);
        Ok(())
    }
    fn approx_equal<P: Borrow<Self>>(&self, rhs: P, _delta: f32) -> bool {
        self == rhs.borrow()
    }
    fn value(&self) -> &Self::Type {
        &self.0
    }
    fn take_value(self) -> Self::Type {
        self.0
    }
    fn set_value(&mut self, value: Self::Type) {
        *self = Self::norm(value)
    }
    fn reverse(&self) -> Result<Self::ReverseWeight> {
        if COMM {
            return Ok(self.clone());
        }
        Ok(Self::norm(
            self.0
                .iter()
                .map(|(w, c)| {
                    let mut l = letters(*w);
                    l.reverse();
                    (pack(&l), *c)
                })
                .collect(),
        ))
    }
    fn properties() -> SemiringProperties {
        if COMM {
            SemiringProperties::LEFT_SEMIRING | SemiringProperties::RIGHT_SEMIRING | SemiringProperties::COMMUTATIVE
        } else {
            SemiringProperties::LEFT_SEMIRING | SemiringProperties::RIGHT_SEMIRING
        }
    }
}
impl<const K: usize, const COMM: bool> ReverseBack<Free<K, COMM>> for Free<K, COMM> {
    fn reverse_back(&self) -> Result<Free<K, COMM>> {
        self.reverse()
    }
}
impl<const K: usize, const COMM: bool> WeightQuantize for Free<K, COMM> {
    fn quantize_assign(&mut self, _delta: f32) -> Result<()> {
        Ok(())
    }
}
/// Non-commutative formal weights.
pub type Nc<const K: usize> = Free<K, false>;
/// Commutative formal weights.
pub type Co<const K: usize> = Free<K, true>;
impl<const K: usize, const COMM: bool> rustfst::semirings::StarSemiring for Free<K, COMM> {
    /// Sum of all powers; a constant term other than zero makes the series diverge (callers avoid it).
    fn closure(&self) -> Self {
        let mut sum = Self::one();
        let mut p = Self::one();
        for _ in 0..K {
            p = p.times(self).unwrap();
            sum.plus_assign(&p).unwrap();
        }
        sum
    }
}
