//! Coefficient types: how to generate them and how they relate to exact numbers.

use crate::engine::Src;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::rational::Ratio;
use num::traits::{One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::fmt::Debug;
use std::num::Wrapping;
use std::ops::{
    Add, AddAssign, Div, DivAssign, Mul, MulAssign, Neg, Rem, RemAssign, Sub, SubAssign,
};

pub type Q = BigRational;

pub fn qi(v: i64) -> Q {
    Q::from_integer(BigInt::from(v))
}

pub fn qu(v: usize) -> Q {
    Q::from_integer(BigInt::from(v))
}

/// How large generated coefficients are.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mag {
    Tiny,
    Small,
    Mid,
    Full,
    Special,
}

pub fn gen_mag(s: &mut Src) -> Mag {
    [Mag::Tiny, Mag::Small, Mag::Mid, Mag::Full, Mag::Special][s.weighted(&[5, 5, 4, 4, 3])]
}

/// The bounds are more than rustnomial asks for, so that code which asks for more can be checked.
pub trait Coef:
    Copy + Debug + std::fmt::Display + Default + PartialEq + PartialOrd + Send + Sync + 'static
{
    const NAME: &'static str;
    /// Negative numbers can be represented (or all arithmetic is modular).
    const SIGNED: bool;
    /// Arithmetic wraps around or is modular, so nothing can overflow.
    const MODULAR: bool = false;
    const FLOAT: bool = false;

    /// The exact value (of a modular type: a representative).
    fn lift(self) -> Q;
    /// The coefficient with exactly this value, if there is one.
    fn proj(q: &Q) -> Option<Self>;
    /// A value, mostly of the given magnitude. The simplest is zero.
    fn gen(s: &mut Src, mag: Mag) -> Self;
    /// A value about half as large, of the same family.
    fn halve(self) -> Self;
    /// True if these numbers can be added up in any order without leaving what the type
    /// represents exactly.
    fn sum_ok(terms: &Sums) -> bool;
}

/// The sums of a set of exact numbers.
#[derive(Clone)]
pub struct Sums {
    pub pos: Q,
    pub neg: Q,
    /// A common denominator of all of the numbers.
    pub den: BigInt,
}

impl Default for Sums {
    fn default() -> Self {
        Sums {
            pos: Q::zero(),
            neg: Q::zero(),
            den: BigInt::one(),
        }
    }
}

impl Sums {
    pub fn add(&mut self, q: &Q) {
        if q.is_negative() {
            self.neg += q;
        } else {
            self.pos += q;
        }
        if !q.is_integer() {
            self.den = num::integer::lcm(self.den.clone(), q.denom().clone());
        }
    }

    pub fn total(&self) -> Q {
        &self.pos + &self.neg
    }

    pub fn abs(&self) -> Q {
        &self.pos - &self.neg
    }
}

macro_rules! int_coef {
    ($($T:ident, $signed:expr;)*) => {$(
        impl Coef for $T {
            const NAME: &'static str = stringify!($T);
            const SIGNED: bool = $signed;

            fn lift(self) -> Q {
                Q::from_integer(BigInt::from(self))
            }

            fn proj(q: &Q) -> Option<Self> {
                if q.is_integer() {
                    <$T>::try_from(q.numer().clone()).ok()
                } else {
                    None
                }
            }

            fn gen(s: &mut Src, mag: Mag) -> Self {
                let bits = <$T>::BITS as u64;
                let v: u128 = match mag {
                    Mag::Tiny => s.below(4) as u128,
                    Mag::Small => s.below(21) as u128,
                    Mag::Mid => s.below(1u64 << (bits / 2).min(40)) as u128,
                    Mag::Full => {
                        let hi = if bits > 64 { s.below(0) as u128 } else { 0 };
                        let lo = s.below(0) as u128;
                        ((hi << 64) | lo) >> s.below(bits)
                    }
                    Mag::Special => {
                        return match s.below(9) {
                            0 => 0,
                            1 => 1,
                            2 => <$T>::MAX,
                            3 => <$T>::MIN,
                            4 => <$T>::MAX - 1,
                            5 => <$T>::MIN + 1,
                            6 => (1 as $T) << (s.below(bits - 1)),
                            7 => ((1 as $T) << (s.below(bits - 1))) - 1,
                            _ => if $signed { (0 as $T).wrapping_sub(1) } else { 2 },
                        };
                    }
                };
                let v = v as $T;
                if $signed && v != 0 && s.chance(1, 2) {
                    (0 as $T).wrapping_sub(v)
                } else {
                    v
                }
            }

            fn halve(self) -> Self {
                self / 2
            }

            fn sum_ok(t: &Sums) -> bool {
                Self::proj(&t.pos).is_some()
                    && if $signed {
                        Self::proj(&t.neg).is_some()
                    } else {
                        !t.total().is_negative()
                    }
            }
        }
    )*};
}

int_coef! {
    i8, true; i16, true; i32, true; i64, true; i128, true; isize, true;
    u8, false; u16, false; u32, false; u64, false; u128, false; usize, false;
}

/// Generated floats are multiples of 1/8, so that sums and products of few of them are exact.
macro_rules! float_coef {
    ($($T:ident, $mant:expr;)*) => {$(
        impl Coef for $T {
            const NAME: &'static str = stringify!($T);
            const SIGNED: bool = true;
            const FLOAT: bool = true;

            fn lift(self) -> Q {
                Q::from_float(self).expect("finite")
            }

            fn proj(q: &Q) -> Option<Self> {
                // Only numbers with few enough digits, well inside of the range of exponents.
                let d = q.denom();
                let n = q.numer();
                if n.is_zero() {
                    return Some(0.0);
                }
                let dz = d.trailing_zeros().unwrap_or(0);
                if d != &(BigInt::one() << dz) {
                    return None;
                }
                let nz = n.trailing_zeros().unwrap_or(0);
                let n = n >> nz;
                if n.bits() > $mant {
                    return None;
                }
                let e = nz as i64 - dz as i64;
                if e.abs() > 100 {
                    return None;
                }
                let n = n.to_i64()? as $T;
                Some(n * (2.0 as $T).powi(e as i32))
            }

            fn gen(s: &mut Src, mag: Mag) -> Self {
                let v = match mag {
                    Mag::Tiny => s.below(4) as $T,
                    Mag::Small => s.below(21) as $T,
                    Mag::Mid => s.below(200) as $T / 8.0,
                    Mag::Full => s.below(1 << ($mant - 2)) as $T / 8.0,
                    Mag::Special => match s.below(6) {
                        0 => 0.0,
                        1 => 1.0,
                        2 => 0.5,
                        3 => 0.125,
                        4 => (1u64 << s.below($mant - 4)) as $T,
                        _ => ((1u64 << s.below($mant - 4)) - 1) as $T,
                    },
                };
                if v != 0.0 && s.chance(1, 2) { -v } else { v }
            }

            fn halve(self) -> Self {
                (self * 4.0).trunc() / 8.0
            }

            fn sum_ok(t: &Sums) -> bool {
                (t.abs() * Q::from_integer(t.den.clone())).numer().bits() <= $mant
            }
        }
    )*};
}

float_coef! { f32, 24; f64, 53; }

macro_rules! wrapping_coef {
    ($($T:ident;)*) => {$(
        impl Coef for Wrapping<$T> {
            const NAME: &'static str = concat!("Wrapping<", stringify!($T), ">");
            const SIGNED: bool = true;
            const MODULAR: bool = true;

            fn lift(self) -> Q {
                self.0.lift()
            }

            fn proj(q: &Q) -> Option<Self> {
                if !q.is_integer() {
                    return None;
                }
                let m = BigInt::one() << <$T>::BITS;
                let v = num::integer::mod_floor(q.numer().clone(), m.clone());
                <$T>::try_from(v.clone())
                    .or_else(|_| <$T>::try_from(v - m))
                    .ok()
                    .map(Wrapping)
            }

            fn gen(s: &mut Src, mag: Mag) -> Self {
                Wrapping(<$T>::gen(s, mag))
            }

            fn halve(self) -> Self {
                self
            }

            fn sum_ok(_: &Sums) -> bool {
                true
            }
        }
    )*};
}

wrapping_coef! { i8; u8; i32; u64; }

impl Coef for Ratio<i128> {
    const NAME: &'static str = "Ratio<i128>";
    const SIGNED: bool = true;

    fn lift(self) -> Q {
        Q::new(BigInt::from(*self.numer()), BigInt::from(*self.denom()))
    }

    /// Values that leave room for the products of denominators inside of the arithmetic of Ratio.
    fn proj(q: &Q) -> Option<Self> {
        if q.numer().bits() > 40 || q.denom().bits() > 40 {
            return None;
        }
        Some(Ratio::new(q.numer().to_i128()?, q.denom().to_i128()?))
    }

    fn gen(s: &mut Src, mag: Mag) -> Self {
        let (n, d) = match mag {
            Mag::Tiny => (3, 1),
            Mag::Small => (9, 3),
            _ => (20, 6),
        };
        let v = s.below(n + 1) as i128;
        let den = 1 + s.below(d) as i128;
        if v != 0 && s.chance(1, 2) {
            Ratio::new(-v, den)
        } else {
            Ratio::new(v, den)
        }
    }

    fn halve(self) -> Self {
        Ratio::new(self.numer() / 2, *self.denom())
    }

    fn sum_ok(t: &Sums) -> bool {
        t.den.bits() <= 30 && Self::proj(&t.pos).is_some() && Self::proj(&t.neg).is_some()
    }
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Gives the arithmetic of `Gf` on this thread so many operations, after which it panics.
pub fn set_fuel(n: u64) {
    FUEL.with(|f| f.set(n));
}

fn burn() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            f.set(u64::MAX);
            panic!("does not terminate: used up all of the arithmetic a correct run could need");
        }
        f.set(v - 1);
    });
}

/// The integers modulo the prime P: a user-defined coefficient type, and an exact field.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Gf<const P: u64>(pub u64);

impl<const P: u64> Debug for Gf<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl<const P: u64> std::fmt::Display for Gf<P> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl<const P: u64> Gf<P> {
    pub fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero in Gf");
        let (mut base, mut e, mut acc) = (self.0 as u128, P - 2, 1u128);
        let p = P as u128;
        while e > 0 {
            if e & 1 == 1 {
                acc = acc * base % p;
            }
            base = base * base % p;
            e >>= 1;
        }
        Gf(acc as u64 % P)
    }
}

impl<const P: u64> Add for Gf<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        burn();
        Gf(((self.0 as u128 + o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Sub for Gf<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        burn();
        Gf(((self.0 as u128 + P as u128 - o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Mul for Gf<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        burn();
        Gf(((self.0 as u128 * o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        burn();
        self * o.inv()
    }
}
impl<const P: u64> Rem for Gf<P> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        self - self / o * o
    }
}
impl<const P: u64> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        burn();
        Gf((P - self.0) % P)
    }
}
impl<const P: u64> AddAssign for Gf<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const P: u64> SubAssign for Gf<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const P: u64> MulAssign for Gf<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<const P: u64> DivAssign for Gf<P> {
    fn div_assign(&mut self, o: Self) {
        *self = *self / o
    }
}
impl<const P: u64> RemAssign for Gf<P> {
    fn rem_assign(&mut self, o: Self) {
        *self = *self % o
    }
}
impl<const P: u64> Zero for Gf<P> {
    fn zero() -> Self {
        Gf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Gf<P> {
    fn one() -> Self {
        Gf(1 % P)
    }
}

impl<const P: u64> Coef for Gf<P> {
    const NAME: &'static str = "Gf(p)";
    const SIGNED: bool = true;
    const MODULAR: bool = true;

    fn lift(self) -> Q {
        Q::from_integer(BigInt::from(self.0))
    }

    fn proj(q: &Q) -> Option<Self> {
        let p = BigInt::from(P);
        let n = num::integer::mod_floor(q.numer().clone(), p.clone());
        let d = num::integer::mod_floor(q.denom().clone(), p);
        let (n, d) = (Gf::<P>(n.to_u64()?), Gf::<P>(d.to_u64()?));
        if d.0 == 0 {
            None
        } else {
            Some(Gf(((n.0 as u128 * d.inv().0 as u128) % P as u128) as u64))
        }
    }

    fn gen(s: &mut Src, mag: Mag) -> Self {
        match mag {
            Mag::Tiny => Gf(s.below(4) % P),
            Mag::Small => Gf(s.below(21) % P),
            _ => Gf(s.below(P)),
        }
    }

    fn halve(self) -> Self {
        self
    }

    fn sum_ok(_: &Sums) -> bool {
        true
    }
}

/// What all of the coefficient types can do.
pub trait Ring:
    Coef
    + Zero
    + One
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Div<Output = Self>
    + Rem<Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + RemAssign
{
}
impl<T> Ring for T where
    T: Coef
        + Zero
        + One
        + Add<Output = Self>
        + Sub<Output = Self>
        + Mul<Output = Self>
        + Div<Output = Self>
        + Rem<Output = Self>
        + AddAssign
        + SubAssign
        + MulAssign
        + DivAssign
        + RemAssign
{
}

/// What the signed ones can do.
pub trait SRing: Ring + Neg<Output = Self> {}
impl<T: Ring + Neg<Output = T>> SRing for T {}

/// Calls `$f::<T>($args)` for one of the listed types, as the source chooses.
#[macro_export]
macro_rules! pick_type {
    ($s:expr; [$($T:ty),+ $(,)?]; $f:ident $args:tt) => {{
        let n = [$(stringify!($T)),+].len();
        let mut i = $s.usize(n);
        loop {
            $(
                if i == 0 {
                    break $f::<$T> $args;
                }
                i -= 1;
            )+
            let _ = i;
        }
    }};
}

/// The primitive number types, which can be written and read.
pub trait Prim: Ring + std::str::FromStr {
    /// Any value, of integers as well as of finite floats.
    fn any(s: &mut Src, mag: Mag) -> Self;
    /// The decimal digits of the absolute value, as the standard library writes them.
    fn abs_string(self) -> String;
    fn is_neg(self) -> bool;
    fn is_pos_one(self) -> bool;
    /// The same number (unlike ==, this also tells positive from negative zero).
    fn same_bits(self, o: Self) -> bool;
}

macro_rules! prim_int {
    ($($T:ident)*) => {$(
        impl Prim for $T {
            fn any(s: &mut Src, mag: Mag) -> Self {
                <$T>::gen(s, mag)
            }
            fn abs_string(self) -> String {
                let t = self.to_string();
                t.strip_prefix('-').map(|t| t.to_string()).unwrap_or(t)
            }
            #[allow(unused_comparisons)]
            fn is_neg(self) -> bool {
                self < 0
            }
            fn is_pos_one(self) -> bool {
                self == 1
            }
            fn same_bits(self, o: Self) -> bool {
                self == o
            }
        }
    )*};
}

prim_int! { i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize }

macro_rules! prim_float {
    ($($T:ident, $any:path;)*) => {$(
        impl Prim for $T {
            fn any(s: &mut Src, mag: Mag) -> Self {
                match mag {
                    Mag::Full | Mag::Mid => $any(s),
                    _ => <$T>::gen(s, mag),
                }
            }
            fn abs_string(self) -> String {
                self.abs().to_string()
            }
            fn is_neg(self) -> bool {
                self < 0.0
            }
            fn is_pos_one(self) -> bool {
                self == 1.0
            }
            fn same_bits(self, o: Self) -> bool {
                self.to_bits() == o.to_bits()
            }
        }
    )*};
}

prim_float! { f32, crate::model::gen_f32; f64, crate::model::gen_f64; }
