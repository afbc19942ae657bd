//! API stand-in for bigdecimal 0.1 (not available offline): value = digits * 10^-scale.
use num::{bigint::Sign, BigInt, Num, One, Signed, ToPrimitive, Zero};
use std::{cmp::Ordering, fmt, ops::*, str::FromStr};

#[derive(Clone, Debug)]
pub struct BigDecimal {
    int_val: BigInt,
    scale: i64,
}

#[derive(Debug, PartialEq)]
pub enum ParseBigDecimalError {
    ParseDecimal(String),
    Empty,
    Other(String),
}

impl fmt::Display for ParseBigDecimalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for ParseBigDecimalError {}

fn ten(n: u64) -> BigInt {
    num::pow(BigInt::from(10), n as usize)
}

impl BigDecimal {
    pub fn new(digits: BigInt, scale: i64) -> BigDecimal {
        BigDecimal { int_val: digits, scale }
    }
    fn align(&self, o: &BigDecimal) -> (BigInt, BigInt, i64) {
        let s = self.scale.max(o.scale);
        (self.int_val.clone() * ten((s - self.scale) as u64), o.int_val.clone() * ten((s - o.scale) as u64), s)
    }
    pub fn with_scale(&self, new_scale: i64) -> BigDecimal {
        if new_scale >= self.scale {
            BigDecimal::new(&self.int_val * ten((new_scale - self.scale) as u64), new_scale)
        } else {
            BigDecimal::new(&self.int_val / ten((self.scale - new_scale) as u64), new_scale)
        }
    }
    pub fn with_prec(&self, _prec: u64) -> BigDecimal {
        self.clone()
    }
    pub fn sign(&self) -> Sign {
        self.int_val.sign()
    }
    pub fn is_integer(&self) -> bool {
        self.scale <= 0 || (&self.int_val % ten(self.scale as u64)).is_zero()
    }
    pub fn as_bigint_and_exponent(&self) -> (BigInt, i64) {
        (self.int_val.clone(), self.scale)
    }
    pub fn into_bigint_and_exponent(self) -> (BigInt, i64) {
        (self.int_val, self.scale)
    }
    pub fn digits(&self) -> u64 {
        self.int_val.to_string().len() as u64
    }
    pub fn abs(&self) -> BigDecimal {
        BigDecimal::new(self.int_val.abs(), self.scale)
    }
    pub fn double(&self) -> BigDecimal {
        BigDecimal::new(&self.int_val * 2, self.scale)
    }
    pub fn half(&self) -> BigDecimal {
        BigDecimal::new(&self.int_val * 5, self.scale + 1)
    }
    pub fn square(&self) -> BigDecimal {
        self * self
    }
    pub fn sqrt(&self) -> Option<BigDecimal> {
        None
    }
    pub fn exp(&self) -> BigDecimal {
        self.clone()
    }
}

impl PartialEq for BigDecimal {
    fn eq(&self, o: &BigDecimal) -> bool {
        let (a, b, _) = self.align(o);
        a == b
    }
}
impl Eq for BigDecimal {}
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &BigDecimal) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for BigDecimal {
    fn cmp(&self, o: &BigDecimal) -> Ordering {
        let (a, b, _) = self.align(o);
        a.cmp(&b)
    }
}
impl std::hash::Hash for BigDecimal {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.int_val.to_string().hash(h)
    }
}
impl Default for BigDecimal {
    fn default() -> Self {
        Zero::zero()
    }
}
impl fmt::Display for BigDecimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.scale <= 0 {
            return write!(f, "{}", &self.int_val * ten((-self.scale) as u64));
        }
        let s = self.int_val.abs().to_string();
        let k = self.scale as usize;
        let s = if s.len() <= k { format!("{}{}", "0".repeat(k + 1 - s.len()), s) } else { s };
        let sign = if self.int_val.is_negative() { "-" } else { "" };
        write!(f, "{}{}.{}", sign, &s[..s.len() - k], &s[s.len() - k..])
    }
}
impl FromStr for BigDecimal {
    type Err = ParseBigDecimalError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        Self::from_str_radix(s, 10)
    }
}
impl Num for BigDecimal {
    type FromStrRadixErr = ParseBigDecimalError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigDecimalError> {
        if radix != 10 {
            return Err(ParseBigDecimalError::Other(String::from("radix must be 10")));
        }
        let (base, exp) = match s.find(|c| c == 'e' || c == 'E') {
            Some(i) => (&s[..i], s[i + 1..].parse::<i64>().map_err(|e| ParseBigDecimalError::ParseDecimal(e.to_string()))?),
            None => (s, 0),
        };
        let (int, frac) = match base.find('.') {
            Some(i) => (&base[..i], &base[i + 1..]),
            None => (base, ""),
        };
        let all = format!("{}{}", int, frac);
        let v = BigInt::from_str(&all).map_err(|e| ParseBigDecimalError::ParseDecimal(e.to_string()))?;
        Ok(BigDecimal::new(v, frac.len() as i64 - exp))
    }
}
impl Zero for BigDecimal {
    fn zero() -> Self {
        BigDecimal::new(BigInt::zero(), 0)
    }
    fn is_zero(&self) -> bool {
        self.int_val.is_zero()
    }
}
impl One for BigDecimal {
    fn one() -> Self {
        BigDecimal::new(BigInt::one(), 0)
    }
}
impl ToPrimitive for BigDecimal {
    fn to_i64(&self) -> Option<i64> {
        self.with_scale(0).int_val.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.with_scale(0).int_val.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.to_string().parse().ok()
    }
}
impl num::FromPrimitive for BigDecimal {
    fn from_i64(n: i64) -> Option<Self> {
        Some(n.into())
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(n.into())
    }
}
impl Signed for BigDecimal {
    fn abs(&self) -> Self {
        BigDecimal::abs(self)
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o { Zero::zero() } else { self - o }
    }
    fn signum(&self) -> Self {
        BigDecimal::new(self.int_val.signum(), 0)
    }
    fn is_positive(&self) -> bool {
        self.int_val.is_positive()
    }
    fn is_negative(&self) -> bool {
        self.int_val.is_negative()
    }
}
impl Neg for BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        BigDecimal::new(-self.int_val, self.scale)
    }
}
impl<'a> Neg for &'a BigDecimal {
    type Output = BigDecimal;
    fn neg(self) -> BigDecimal {
        -self.clone()
    }
}
fn add(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.align(b);
    BigDecimal::new(x + y, s)
}
fn sub(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.align(b);
    BigDecimal::new(x - y, s)
}
fn mul(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    BigDecimal::new(&a.int_val * &b.int_val, a.scale + b.scale)
}
fn div(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, _) = a.align(b);
    BigDecimal::new(x * ten(100) / y, 100)
}
fn rem(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    let (x, y, s) = a.align(b);
    BigDecimal::new(x % y, s)
}
macro_rules! ops {
    ($($t:ident, $m:ident, $a:ident, $am:ident;)*) => {$(
        impl $t for BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $m(&self, &o) } }
        impl<'a> $t<&'a BigDecimal> for BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $m(&self, o) } }
        impl<'a> $t<BigDecimal> for &'a BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $m(self, &o) } }
        impl<'a, 'b> $t<&'b BigDecimal> for &'a BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $m(self, o) } }
        impl $a for BigDecimal { fn $am(&mut self, o: BigDecimal) { *self = $m(self, &o) } }
        impl<'a> $a<&'a BigDecimal> for BigDecimal { fn $am(&mut self, o: &BigDecimal) { *self = $m(self, o) } }
    )*};
}
ops! {
    Add, add, AddAssign, add_assign;
    Sub, sub, SubAssign, sub_assign;
    Mul, mul, MulAssign, mul_assign;
    Div, div, DivAssign, div_assign;
    Rem, rem, RemAssign, rem_assign;
}
macro_rules! from {
    ($($t:ty)*) => {$( impl From<$t> for BigDecimal { fn from(n: $t) -> Self { BigDecimal::new(BigInt::from(n), 0) } } )*};
}
from! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl From<BigInt> for BigDecimal {
    fn from(n: BigInt) -> Self {
        BigDecimal::new(n, 0)
    }
}
impl From<(BigInt, i64)> for BigDecimal {
    fn from(n: (BigInt, i64)) -> Self {
        BigDecimal::new(n.0, n.1)
    }
}
impl From<f64> for BigDecimal {
    fn from(n: f64) -> Self {
        BigDecimal::from_str(&format!("{}", n)).unwrap()
    }
}
impl From<f32> for BigDecimal {
    fn from(n: f32) -> Self {
        BigDecimal::from_str(&format!("{}", n)).unwrap()
    }
}
