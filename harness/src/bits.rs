//! Four-valued bit vectors with Verilog semantics.
//! (v,x) per bit: 00 = 0, 10 = 1, 01 = X, 11 = Z
use num::bigint::{BigInt, BigUint, Sign};
use num::{One, Zero};
use smallvec::{smallvec, SmallVec};

type W = SmallVec<[u64; 2]>;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct LV {
    pub w: usize,
    v: W,
    x: W,
}

fn nwords(w: usize) -> usize {
    (w + 63) / 64
}

impl std::fmt::Debug for LV {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}'b{}", self.w, self.to_bin())
    }
}

impl LV {
    pub fn zeros(w: usize) -> LV {
        LV { w, v: smallvec![0; nwords(w)], x: smallvec![0; nwords(w)] }
    }
    pub fn xs(w: usize) -> LV {
        let mut r = LV { w, v: smallvec![0; nwords(w)], x: smallvec![!0; nwords(w)] };
        r.mask();
        r
    }
    pub fn zs(w: usize) -> LV {
        let mut r = LV { w, v: smallvec![!0; nwords(w)], x: smallvec![!0; nwords(w)] };
        r.mask();
        r
    }
    pub fn from_bool(b: bool) -> LV {
        LV { w: 1, v: smallvec![b as u64], x: smallvec![0] }
    }
    pub fn x1() -> LV {
        LV { w: 1, v: smallvec![0], x: smallvec![1] }
    }
    pub fn from_u64(val: u64, w: usize) -> LV {
        let mut r = LV::zeros(w);
        if w > 0 {
            r.v[0] = val;
        }
        r.mask();
        r
    }
    pub fn from_biguint(val: &BigUint, w: usize) -> LV {
        let mut r = LV::zeros(w);
        for (i, d) in val.to_u64_digits().into_iter().enumerate() {
            if i < r.v.len() {
                r.v[i] = d;
            }
        }
        r.mask();
        r
    }
    /// two's complement, truncated to w
    pub fn from_bigint(val: &BigInt, w: usize) -> LV {
        let m = BigInt::one() << w;
        let mut r = val % &m;
        if r.sign() == Sign::Minus {
            r += &m;
        }
        LV::from_biguint(&r.to_biguint().unwrap(), w)
    }
    fn mask(&mut self) {
        let r = self.w % 64;
        if r != 0 {
            let n = self.v.len() - 1;
            let m = (1u64 << r) - 1;
            self.v[n] &= m;
            self.x[n] &= m;
        }
    }
    pub fn has_x(&self) -> bool {
        self.x.iter().any(|w| *w != 0)
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        if self.has_x() {
            return None;
        }
        let mut digits = vec![];
        for w in &self.v {
            digits.push(*w as u32);
            digits.push((*w >> 32) as u32);
        }
        Some(BigUint::new(digits))
    }
    pub fn to_u64(&self) -> Option<u64> {
        if self.has_x() {
            return None;
        }
        if self.v.iter().skip(1).any(|w| *w != 0) {
            return None;
        }
        Some(self.v.first().copied().unwrap_or(0))
    }
    pub fn to_bigint_signed(&self) -> Option<BigInt> {
        let u = BigInt::from(self.to_biguint()?);
        if self.w > 0 && self.bit(self.w - 1) == B::B1 {
            Some(u - (BigInt::one() << self.w))
        } else {
            Some(u)
        }
    }
    pub fn bit(&self, i: usize) -> B {
        if i >= self.w {
            return B::X;
        }
        let v = self.v[i / 64] >> (i % 64) & 1;
        let x = self.x[i / 64] >> (i % 64) & 1;
        match (v, x) {
            (0, 0) => B::B0,
            (1, 0) => B::B1,
            (0, _) => B::X,
            _ => B::Z,
        }
    }
    pub fn set_bit(&mut self, i: usize, b: B) {
        let (v, x) = match b {
            B::B0 => (0, 0),
            B::B1 => (1, 0),
            B::X => (0, 1),
            B::Z => (1, 1u64),
        };
        let (q, r) = (i / 64, i % 64);
        self.v[q] = self.v[q] & !(1 << r) | (v << r);
        self.x[q] = self.x[q] & !(1 << r) | (x << r);
    }
    /// MSB first
    pub fn to_bin(&self) -> String {
        (0..self.w)
            .rev()
            .map(|i| match self.bit(i) {
                B::B0 => '0',
                B::B1 => '1',
                B::X => 'x',
                B::Z => 'z',
            })
            .collect()
    }
    /// MSB-first string of 0 1 x z ?
    pub fn from_bin(s: &str) -> Option<LV> {
        let mut r = LV::zeros(s.len());
        for (i, c) in s.chars().rev().enumerate() {
            r.set_bit(
                i,
                match c {
                    '0' => B::B0,
                    '1' => B::B1,
                    'x' | 'X' => B::X,
                    'z' | 'Z' | '?' => B::Z,
                    _ => return None,
                },
            );
        }
        Some(r)
    }
    /// Resize: truncate or extend (sign: replicate the MSB including x/z; else zero)
    pub fn resize(&self, w: usize, signed: bool) -> LV {
        if w == self.w {
            return self.clone();
        }
        if w < self.w {
            return self.slice(0, w);
        }
        let mut r = LV::zeros(w);
        for i in 0..self.v.len() {
            r.v[i] = self.v[i];
            r.x[i] = self.x[i];
        }
        if signed && self.w > 0 {
            let b = self.bit(self.w - 1);
            if b != B::B0 {
                for i in self.w..w {
                    r.set_bit(i, b);
                }
            }
        }
        r
    }
    /// bits [lo, lo+w); out of range bits are X
    pub fn slice(&self, lo: usize, w: usize) -> LV {
        let mut r = LV::zeros(w);
        if lo + w <= self.w && w > 0 {
            let (q, s) = (lo / 64, lo % 64);
            for i in 0..r.v.len() {
                let get = |a: &W| {
                    let l = a.get(q + i).copied().unwrap_or(0);
                    let h = a.get(q + i + 1).copied().unwrap_or(0);
                    if s == 0 {
                        l
                    } else {
                        l >> s | h << (64 - s)
                    }
                };
                r.v[i] = get(&self.v);
                r.x[i] = get(&self.x);
            }
            r.mask();
        } else {
            for i in 0..w {
                r.set_bit(i, self.bit(lo + i));
            }
        }
        r
    }
    /// Write val into bits [lo, lo+val.w), ignoring out of range
    pub fn splice(&mut self, lo: usize, val: &LV) {
        for i in 0..val.w {
            if lo + i < self.w {
                self.set_bit(lo + i, val.bit(i));
            }
        }
    }
    /// {a, b, c}: first is most significant
    pub fn concat(parts: &[LV]) -> LV {
        let w = parts.iter().map(|p| p.w).sum();
        let mut r = LV::zeros(w);
        let mut pos = 0;
        for p in parts.iter().rev() {
            let (q, s) = (pos / 64, pos % 64);
            for i in 0..p.v.len() {
                r.v[q + i] |= p.v[i] << s;
                r.x[q + i] |= p.x[i] << s;
                if s != 0 && q + i + 1 < r.v.len() {
                    r.v[q + i + 1] |= p.v[i] >> (64 - s);
                    r.x[q + i + 1] |= p.x[i] >> (64 - s);
                }
            }
            pos += p.w;
        }
        r.mask();
        r
    }
    /// bitwise binary; Z treated as X
    pub fn bitand(&self, o: &LV) -> LV {
        let mut r = LV::zeros(self.w);
        for i in 0..r.v.len() {
            let (a, ax) = (self.v[i] & !self.x[i], self.x[i]);
            let (b, bx) = (o.v[i] & !o.x[i], o.x[i]);
            // known 0 if either known 0
            let zero = (!a & !ax) | (!b & !bx);
            let one = a & b;
            r.v[i] = one;
            r.x[i] = !(zero | one);
        }
        r.mask();
        r
    }
    pub fn bitor(&self, o: &LV) -> LV {
        let mut r = LV::zeros(self.w);
        for i in 0..r.v.len() {
            let (a, ax) = (self.v[i] & !self.x[i], self.x[i]);
            let (b, bx) = (o.v[i] & !o.x[i], o.x[i]);
            let one = a | b;
            let zero = !a & !ax & !b & !bx;
            r.v[i] = one;
            r.x[i] = !(zero | one);
        }
        r.mask();
        r
    }
    pub fn bitxor(&self, o: &LV) -> LV {
        let mut r = LV::zeros(self.w);
        for i in 0..r.v.len() {
            let x = self.x[i] | o.x[i];
            r.v[i] = (self.v[i] ^ o.v[i]) & !x;
            r.x[i] = x;
        }
        r.mask();
        r
    }
    pub fn bitnot(&self) -> LV {
        let mut r = LV::zeros(self.w);
        for i in 0..r.v.len() {
            r.v[i] = !self.v[i] & !self.x[i];
            r.x[i] = self.x[i];
        }
        r.mask();
        r
    }
    /// truth: Some(true) if any bit 1; Some(false) if all 0; None if unknown
    pub fn truth(&self) -> Option<bool> {
        let mut unk = false;
        for i in 0..self.v.len() {
            if self.v[i] & !self.x[i] != 0 {
                return Some(true);
            }
            if self.x[i] != 0 {
                unk = true;
            }
        }
        if unk {
            None
        } else {
            Some(false)
        }
    }
    pub fn reduce_and(&self) -> B {
        let mut unk = false;
        for i in 0..self.w {
            match self.bit(i) {
                B::B0 => return B::B0,
                B::B1 => {}
                _ => unk = true,
            }
        }
        if unk {
            B::X
        } else {
            B::B1
        }
    }
    pub fn reduce_xor(&self) -> B {
        if self.has_x() {
            return B::X;
        }
        if self.v.iter().map(|w| w.count_ones()).sum::<u32>() % 2 == 1 {
            B::B1
        } else {
            B::B0
        }
    }
    /// merge for ?: with unknown condition
    pub fn merge(&self, o: &LV) -> LV {
        let mut r = LV::zeros(self.w);
        for i in 0..r.v.len() {
            let same = !(self.v[i] ^ o.v[i]) & !self.x[i] & !o.x[i];
            r.v[i] = self.v[i] & same;
            r.x[i] = !same;
        }
        r.mask();
        r
    }
    pub fn is_zero_val(&self) -> bool {
        !self.has_x() && self.v.iter().all(|x| *x == 0)
    }
    pub fn as_z_to_x(&self) -> LV {
        let mut r = self.clone();
        for i in 0..r.v.len() {
            r.v[i] &= !r.x[i];
        }
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum B {
    B0,
    B1,
    X,
    Z,
}

impl B {
    pub fn lv(self) -> LV {
        let mut r = LV::zeros(1);
        r.set_bit(0, self);
        r
    }
}

pub fn mask_big(w: usize) -> BigUint {
    if w == 0 {
        BigUint::zero()
    } else {
        (BigUint::one() << w) - BigUint::one()
    }
}
