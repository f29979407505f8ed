//! Exact polynomials (the reference model), and the generator of polynomials in all of the
//! representations the crate allows.

use crate::coef::{gen_mag, qu, Coef, Mag, Prim, Sums, Q};
use crate::engine::{Bad, Ctx, Res, Src};
use num::bigint::BigInt;
use num::traits::{One, Signed, Zero};
use rustnomial::{LinearBinomial, Monomial, Polynomial, QuadraticTrinomial, SparsePolynomial};
use std::collections::BTreeMap;

/// Degree to non-zero exact coefficient.
pub type Model = BTreeMap<usize, Q>;

pub fn clean(mut m: Model) -> Model {
    m.retain(|_, v| !v.is_zero());
    m
}

pub fn m_add(a: &Model, b: &Model) -> Model {
    let mut r = a.clone();
    for (d, c) in b {
        *r.entry(*d).or_insert_with(Q::zero) += c;
    }
    clean(r)
}

pub fn m_neg(a: &Model) -> Model {
    a.iter().map(|(d, c)| (*d, -c)).collect()
}

pub fn m_sub(a: &Model, b: &Model) -> Model {
    m_add(a, &m_neg(b))
}

pub fn m_scale(a: &Model, k: &Q) -> Model {
    clean(a.iter().map(|(d, c)| (*d, c * k)).collect())
}

/// All of the products that make up each coefficient.
pub fn m_mul_sums(a: &Model, b: &Model) -> BTreeMap<usize, Sums> {
    let mut r: BTreeMap<usize, Sums> = BTreeMap::new();
    for (da, ca) in a {
        for (db, cb) in b {
            r.entry(da + db).or_default().add(&(ca * cb));
        }
    }
    r
}

pub fn m_mul(a: &Model, b: &Model) -> Model {
    let mut r = Model::new();
    for (da, ca) in a {
        for (db, cb) in b {
            *r.entry(da + db).or_insert_with(Q::zero) += ca * cb;
        }
    }
    clean(r)
}

pub fn m_pow(a: &Model, e: usize) -> Model {
    let mut r: Model = [(0, Q::one())].into_iter().collect();
    for _ in 0..e {
        r = m_mul(&r, a);
    }
    r
}

pub fn m_shl(a: &Model, n: usize) -> Model {
    a.iter().map(|(d, c)| (d + n, c.clone())).collect()
}

pub fn m_shr(a: &Model, n: usize) -> Model {
    a.iter()
        .filter(|(d, _)| **d >= n)
        .map(|(d, c)| (d - n, c.clone()))
        .collect()
}

pub fn m_deriv(a: &Model) -> Model {
    a.iter()
        .filter(|(d, _)| **d > 0)
        .map(|(d, c)| (d - 1, c * qu(*d)))
        .collect()
}

pub fn q_pow(x: &Q, e: usize) -> Q {
    if x.is_zero() {
        return if e == 0 { Q::one() } else { Q::zero() };
    }
    if x.is_one() {
        return Q::one();
    }
    if (-x).is_one() {
        return if e % 2 == 0 { Q::one() } else { -Q::one() };
    }
    num::pow(x.clone(), e)
}

pub fn m_eval(a: &Model, x: &Q) -> Q {
    a.iter().map(|(d, c)| c * q_pow(x, *d)).sum()
}

pub fn m_degree(a: &Model) -> Option<usize> {
    a.keys().next_back().copied()
}

pub fn m_abs(a: &Model) -> Model {
    a.iter().map(|(d, c)| (*d, c.abs())).collect()
}

/// The largest sum of magnitudes of coefficients.
pub fn m_norm1(a: &Model) -> Q {
    a.values().map(|c| c.abs()).sum()
}

pub fn m_show(a: &Model) -> String {
    if a.is_empty() {
        return "0".into();
    }
    let mut v: Vec<String> = a.iter().rev().map(|(d, c)| format!("({c})x^{d}")).collect();
    if v.len() > 40 {
        let n = v.len();
        v.truncate(40);
        v.push(format!("[{} more terms]", n - 40));
    }
    v.join(" + ")
}

/// The coefficients as `T` has them, without zeros; out of the domain if one can not be represented.
pub fn project<T: Coef + Zero>(m: &Model) -> Result<BTreeMap<usize, T>, Bad> {
    let mut r = BTreeMap::new();
    for (d, c) in m {
        match T::proj(c) {
            None => return Err(Bad::Discard),
            Some(v) => {
                if !v.is_zero() {
                    r.insert(*d, v);
                }
            }
        }
    }
    Ok(r)
}

pub fn fits<T: Coef>(m: &Model) -> bool {
    m.values().all(|c| T::proj(c).is_some())
}

/// A polynomial as it might be stored: zeros may be stored explicitly, and a dense one may have
/// leading zeros.
#[derive(Clone, Debug)]
pub struct Gp<T> {
    pub terms: BTreeMap<usize, T>,
    pub lead: usize,
}

impl<T: Coef + Zero> Gp<T> {
    pub fn model(&self) -> Model {
        clean(self.terms.iter().map(|(d, c)| (*d, c.lift())).collect())
    }

    pub fn dense_vec(&self) -> Vec<T> {
        let n = self.terms.keys().next_back().map_or(0, |d| d + 1) + self.lead;
        let mut v = vec![T::zero(); n];
        for (d, c) in &self.terms {
            v[n - 1 - d] = *c;
        }
        v
    }

    pub fn dense(&self) -> Polynomial<T> {
        Polynomial {
            terms: self.dense_vec(),
        }
    }

    pub fn sparse(&self) -> SparsePolynomial<T> {
        SparsePolynomial {
            terms: self.terms.clone(),
        }
    }

    pub fn halved(&self, k: u32) -> Gp<T> {
        Gp {
            terms: self
                .terms
                .iter()
                .map(|(d, c)| {
                    let mut c = *c;
                    for _ in 0..k {
                        c = c.halve();
                    }
                    (*d, c)
                })
                .collect(),
            lead: self.lead,
        }
    }

    pub fn show(&self) -> String {
        let z = self.terms.values().filter(|c| c.is_zero()).count();
        let mut t = String::new();
        if z > 0 {
            t = format!(" with {z} stored zeros");
        }
        if self.lead > 0 {
            t = format!("{t} and {} leading zeros", self.lead);
        }
        format!("{}{t}", m_show(&self.model()))
    }

    pub fn is_zero(&self) -> bool {
        self.terms.values().all(|c| c.is_zero())
    }

    pub fn has_stored_zero(&self) -> bool {
        self.lead > 0 || self.terms.values().any(|c| c.is_zero())
    }

    pub fn degree(&self) -> Option<usize> {
        self.terms
            .iter()
            .rev()
            .find(|(_, c)| !c.is_zero())
            .map(|(d, _)| *d)
    }
}

pub fn gen_len(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[5, 8, 40, 25, 15, 5, 2]) {
        0 => 0,
        1 => 1,
        2 => s.urange(2, 5),
        3 => s.urange(6, 12),
        4 => s.urange(13, 40),
        5 => s.urange(41, 80),
        _ => s.urange(81, 140),
    };
    n.min(max)
}

pub fn gen_lead(s: &mut Src) -> usize {
    if s.long > 0 && s.chance(1, 4) {
        let most = if s.chance(1, 2) { s.long } else { 700 };
        return s.urange(13, most);
    }
    match s.weighted(&[6, 3, 1]) {
        0 => 0,
        1 => s.urange(1, 5),
        _ => s.urange(6, 12),
    }
}

/// How long a long polynomial is, at most.
pub fn pick_long(s: &mut Src) -> usize {
    [300, 1100, 4100, 17_000, 70_000][s.weighted(&[100, 50, 30, 6, 3])]
}

/// A number of coefficients of up to about `max`, often close to a power of two.
pub fn gen_long_len(s: &mut Src, max: usize) -> usize {
    let n = match s.weighted(&[3, 2, 8, 6, 2]) {
        4 => s.named(24, max.max(24)),
        0 => s.usize(8),
        1 => s.urange(8, 140),
        2 => {
            let top = usize::BITS - 1 - max.leading_zeros();
            (1 << s.urange(6, top.max(6) as usize)) + s.usize(7) - 3
        }
        _ => s.urange(100, max.max(100)),
    };
    n.min(max + 4)
}

/// Long lists of coefficients, made from a seed: few choices describe many coefficients.
/// Index i is the coefficient of degree i.
pub fn gen_long_with<T: Coef + Zero>(
    s: &mut Src,
    max: usize,
    mut gen: impl FnMut(&mut Src) -> T,
) -> Vec<T> {
    let n = gen_long_len(s, max);
    let pattern = s.weighted(&[4, 3, 3, 3, 2]);
    let mut r = Src::random(s.below(1 << 20));
    let (lo, hi) = (r.usize(n + 1), r.usize(n + 1));
    let rare = 1 + r.below(60);
    let few: Vec<usize> = (0..r.urange(1, 6)).map(|_| r.usize(n.max(1))).collect();
    (0..n)
        .map(|i| {
            let zero = match pattern {
                0 => false,
                1 => r.chance(1, 2),
                2 => (lo.min(hi)..lo.max(hi)).contains(&i),
                3 => !r.chance(1, rare),
                _ => !few.contains(&i) && i + 1 != n,
            };
            if zero {
                T::zero()
            } else {
                gen(&mut r)
            }
        })
        .collect()
}

fn gen_long<T: Coef + Zero>(s: &mut Src, gen: impl FnMut(&mut Src) -> T) -> Gp<T> {
    let v = gen_long_with(s, s.long, gen);
    let keep_zeros = s.chance(1, 2);
    Gp {
        terms: v
            .into_iter()
            .enumerate()
            .filter(|(_, c)| keep_zeros || !c.is_zero())
            .collect(),
        lead: gen_lead(s),
    }
}

/// A polynomial with up to `max_len` consecutive coefficients.
pub fn gen_gp<T: Coef + Zero>(s: &mut Src, max_len: usize, mag: Mag) -> Gp<T> {
    if s.long > 0 && max_len >= 30 {
        return gen_long(s, |r| T::gen(r, mag));
    }
    let n = gen_len(s, max_len);
    let zero_of_8 = [0, 2, 5, 7][s.weighted(&[4, 3, 2, 2])];
    let keep_zeros = s.chance(1, 2);
    let mut terms = BTreeMap::new();
    for d in 0..n {
        let c = if zero_of_8 > 0 && s.chance(zero_of_8, 8) {
            T::zero()
        } else {
            T::gen(s, mag)
        };
        if !c.is_zero() || keep_zeros {
            terms.insert(d, c);
        }
    }
    let lead = gen_lead(s);
    Gp { terms, lead }
}

/// Degrees around limits of the integer types used for degrees, but with room to add to them.
pub fn gen_big_degree(s: &mut Src) -> usize {
    let small = |s: &mut Src| if s.chance(1, 4) { s.usize(300) } else { s.usize(6) };
    match s.weighted(&[5, 4, 6, 3, 3, 2, 2, 1, 2]) {
        8 => s.named(24, 1 << 61),
        0 => s.usize(12),
        1 => s.usize(300),
        // Close to the limits of types.
        2 => {
            let base = [1 << 16, (1 << 31) - 3, 1 << 31, (1 << 32) - 3, 1 << 32, (1 << 53) - 2][s.usize(6)];
            base + s.usize(6)
        }
        // Close to a power of two.
        3 => (1 << s.urange(4, 61)) + small(s),
        4 => (1usize << s.urange(4, 61)).saturating_sub(small(s)),
        // Multiples of powers of two.
        5 => (s.urange(1, 20) << s.urange(7, 56)) + small(s),
        // Any bits.
        6 => {
            let bits = s.urange(4, 61);
            s.below(1 << bits) as usize
        }
        _ => usize::MAX / 4 - 9 + s.usize(6),
    }
}

/// A polynomial with few terms of any degree. Only for the sparse representation.
pub fn gen_gp_sparse<T: Coef + Zero>(s: &mut Src, mag: Mag) -> Gp<T> {
    let n = s.usize(8);
    let mut terms = BTreeMap::new();
    for _ in 0..n {
        let d = gen_big_degree(s);
        terms.insert(d, T::gen(s, mag));
    }
    Gp { terms, lead: 0 }
}

/// A second operand: independent of the first, or closely related to it.
pub fn gen_related<T: Coef + Zero>(s: &mut Src, a: &Gp<T>, max_len: usize, mag: Mag) -> Gp<T> {
    let neg = |c: T| T::proj(&-c.lift()).unwrap_or(c);
    match s.weighted(&[12, 1, 1, 2, 2]) {
        0 => gen_gp(s, max_len, mag),
        1 => a.clone(),
        2 => Gp {
            terms: a.terms.iter().map(|(d, c)| (*d, neg(*c))).collect(),
            lead: gen_lead(s),
        },
        3 => {
            // Agrees or cancels in the high degrees only.
            let flip = s.chance(1, 2);
            let from = s.usize(a.terms.len() + 1);
            let mut b = gen_gp(s, from, mag);
            for (d, c) in a.terms.iter() {
                if *d >= from {
                    b.terms.insert(*d, if flip { neg(*c) } else { *c });
                }
            }
            b
        }
        _ => {
            // The same length.
            let n = a.terms.keys().next_back().map_or(0, |d| d + 1);
            let mut r;
            let s = if n > 200 {
                r = Src::random(s.below(1 << 20));
                &mut r
            } else {
                s
            };
            Gp {
                terms: (0..n).map(|d| (d, T::gen(s, mag))).collect(),
                lead: a.lead,
            }
        }
    }
}

/// Halves all coefficients of both as little as is needed to make `ok` true.
pub fn fit2<T: Coef + Zero>(
    a: Gp<T>,
    b: Gp<T>,
    ok: impl Fn(&Gp<T>, &Gp<T>) -> bool,
) -> Result<(Gp<T>, Gp<T>), Bad> {
    if ok(&a, &b) {
        return Ok((a, b));
    }
    let (mut lo, mut hi) = (0u32, 128u32);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        if ok(&a.halved(mid), &b.halved(mid)) {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    let (a, b) = (a.halved(hi), b.halved(hi));
    if ok(&a, &b) {
        Ok((a, b))
    } else {
        Err(Bad::Discard)
    }
}

pub fn fit1<T: Coef + Zero>(a: Gp<T>, ok: impl Fn(&Gp<T>) -> bool) -> Result<Gp<T>, Bad> {
    let z = Gp {
        terms: BTreeMap::new(),
        lead: 0,
    };
    fit2(a, z, |a, _| ok(a)).map(|(a, _)| a)
}

pub fn sums_ok<T: Coef>(m: &BTreeMap<usize, Sums>) -> bool {
    m.values()
        .all(|s| T::sum_ok(s) && T::proj(&s.total()).is_some())
}

/// Access to the stored terms of every polynomial type, through its public fields.
pub trait Stored<T> {
    fn stored(&self) -> Vec<(usize, T)>;
}

impl<T: Copy> Stored<T> for Polynomial<T> {
    fn stored(&self) -> Vec<(usize, T)> {
        let n = self.terms.len();
        self.terms
            .iter()
            .enumerate()
            .map(|(i, c)| (n - 1 - i, *c))
            .collect()
    }
}

impl<T: Copy> Stored<T> for SparsePolynomial<T> {
    fn stored(&self) -> Vec<(usize, T)> {
        self.terms.iter().map(|(d, c)| (*d, *c)).collect()
    }
}

impl<T: Copy> Stored<T> for Monomial<T> {
    fn stored(&self) -> Vec<(usize, T)> {
        vec![(self.deg, self.coefficient)]
    }
}

impl<T: Copy> Stored<T> for LinearBinomial<T> {
    fn stored(&self) -> Vec<(usize, T)> {
        vec![(1, self.coefficients[0]), (0, self.coefficients[1])]
    }
}

impl<T: Copy> Stored<T> for QuadraticTrinomial<T> {
    fn stored(&self) -> Vec<(usize, T)> {
        vec![
            (2, self.coefficients[0]),
            (1, self.coefficients[1]),
            (0, self.coefficients[2]),
        ]
    }
}

pub fn nonzero<T: Coef + Zero, P: Stored<T>>(p: &P) -> BTreeMap<usize, T> {
    p.stored()
        .into_iter()
        .filter(|(_, c)| !c.is_zero())
        .collect()
}

pub fn show_map<T: Coef>(m: &BTreeMap<usize, T>) -> String {
    if m.is_empty() {
        return "0".into();
    }
    let v: Vec<String> = m
        .iter()
        .rev()
        .take(40)
        .map(|(d, c)| format!("({c:?})x^{d}"))
        .collect();
    v.join(" + ")
}

/// The polynomial has exactly the wanted non-zero coefficients.
pub fn expect<T: Coef + Zero, P: Stored<T>>(
    what: &str,
    got: &P,
    want: &BTreeMap<usize, T>,
) -> Res {
    let got = nonzero(got);
    if &got != want {
        return Err(Bad::Fail(format!(
            "{what} over {} is {} but should be {}",
            T::NAME,
            show_map(&got),
            show_map(want)
        )));
    }
    Ok(())
}

/// Labels which describe a pair of operands.
pub fn label_pair<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, b: &Gp<T>) {
    ctx.label_if(a.is_zero() || b.is_zero(), "zero operand");
    ctx.label_if(a.has_stored_zero() || b.has_stored_zero(), "stored zeros");
    ctx.label_if(a.terms.len() > 30 || b.terms.len() > 30, "more than 30 terms");
    ctx.label_if(T::FLOAT, "float");
    ctx.label_if(T::MODULAR, "modular type");
}

pub fn pow2(n: usize) -> Q {
    Q::from_integer(BigInt::one() << n)
}

/// A fixed number of coefficients, of which some are zero.
pub fn gen_fixed<T: Coef + Zero>(s: &mut Src, n: usize, mag: Mag) -> Gp<T> {
    let terms = (0..n)
        .map(|d| {
            let z = s.chance(1, 5);
            (d, if z { T::zero() } else { T::gen(s, mag) })
        })
        .collect();
    Gp { terms, lead: 0 }
}

pub fn lin<T: Coef>(g: &Gp<T>) -> LinearBinomial<T> {
    LinearBinomial::new([g.terms[&1], g.terms[&0]])
}

pub fn quad<T: Coef>(g: &Gp<T>) -> QuadraticTrinomial<T> {
    QuadraticTrinomial::new([g.terms[&2], g.terms[&1], g.terms[&0]])
}

/// Any finite float, and often a simple one.
pub fn gen_f64(s: &mut Src) -> f64 {
    match s.below(7) {
        0 => 0.0,
        1 => s.range(-1000, 1000) as f64 / 10.0,
        2 => {
            // Next to a simple number.
            let v = if s.chance(1, 3) {
                let v = s.named_float() as f64;
                if v.is_finite() && v > 1e-30 {
                    v
                } else {
                    1.0
                }
            } else {
                *s.pick(&[1.0 as f64, 2.0, 0.5, 10.0, 100.0, 0.1, 1e7, 1e15, 1e16, 1e21])
            };
            let v = match s.below(3) {
                0 => v,
                1 => f64::from_bits(v.to_bits() + s.below(5) as u64 - 2),
                _ => v + [1.0, -1.0][s.usize(2)] * (10.0 as f64).powi(s.range(-18, -1) as i32),
            };
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        3 => {
            // Close to zero, or subnormal.
            let v = f64::from_bits(f64::MIN_POSITIVE.to_bits() >> s.below(f64::MANTISSA_DIGITS as u64));
            let v = if s.chance(1, 2) { v } else { (10.0 as f64).powi(s.range(-30, -1) as i32) };
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        4 => {
            // Few decimal digits, of any size.
            let digits = s.range(-99, 99);
            let v: f64 = format!("{digits}e{}", s.range(-323, 308)).parse().expect("a number");
            if v.is_finite() {
                v
            } else {
                f64::MAX
            }
        }
        _ => {
            let v = f64::from_bits(s.below(0));
            if v.is_finite() {
                v
            } else {
                f64::MIN_POSITIVE
            }
        }
    }
}

pub fn gen_f32(s: &mut Src) -> f32 {
    match s.below(7) {
        0 => 0.0,
        1 => s.range(-1000, 1000) as f32 / 10.0,
        2 => {
            // Next to a simple number.
            let v = if s.chance(1, 3) {
                let v = s.named_float() as f32;
                if v.is_finite() && v > 1e-30 {
                    v
                } else {
                    1.0
                }
            } else {
                *s.pick(&[1.0 as f32, 2.0, 0.5, 10.0, 100.0, 0.1, 1e7, 1e15, 1e16, 1e21])
            };
            let v = match s.below(3) {
                0 => v,
                1 => f32::from_bits(v.to_bits() + s.below(5) as u32 - 2),
                _ => v + [1.0, -1.0][s.usize(2)] * (10.0 as f32).powi(s.range(-18, -1) as i32),
            };
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        3 => {
            // Close to zero, or subnormal.
            let v = f32::from_bits(f32::MIN_POSITIVE.to_bits() >> s.below(f32::MANTISSA_DIGITS as u64));
            let v = if s.chance(1, 2) { v } else { (10.0 as f32).powi(s.range(-30, -1) as i32) };
            if s.chance(1, 2) {
                -v
            } else {
                v
            }
        }
        4 => {
            // Few decimal digits, of any size.
            let digits = s.range(-99, 99);
            let v: f32 = format!("{digits}e{}", s.range(-45, 38)).parse().expect("a number");
            if v.is_finite() {
                v
            } else {
                f32::MAX
            }
        }
        _ => {
            let v = f32::from_bits(s.below(1 << 32) as u32);
            if v.is_finite() {
                v
            } else {
                f32::MIN_POSITIVE
            }
        }
    }
}

/// A float with a random mantissa, and an exponent of at most `e` in magnitude.
pub fn gen_mid_f64(s: &mut Src, e: i64) -> f64 {
    if s.chance(1, 6) {
        return 0.0;
    }
    let m = if s.chance(1, 3) {
        s.below(2000) as f64 / 10.0
    } else {
        1.0 + s.below(1 << 52) as f64 / (1u64 << 52) as f64
    };
    let v = m * 2f64.powi(s.range(-e, e) as i32);
    if s.chance(1, 2) {
        -v
    } else {
        v
    }
}

/// A degree close to where some coefficient type stops to represent it.
pub fn gen_limit_degree(s: &mut Src, dense: bool) -> usize {
    let small: &[usize] = &[0, 126, 254, 32766, 65534];
    let all: &[usize] = &[
        0,
        126,
        254,
        32766,
        65534,
        (1 << 24) - 2,
        (1 << 31) - 2,
        (1 << 32) - 2,
        (1 << 53) - 2,
        (1 << 63) - 2,
        usize::MAX - 4,
    ];
    *s.pick(if dense { small } else { all }) + s.usize(5)
}

/// `n` as a `T`, if `T` has it exactly.
pub fn from_degree<T: Coef>(n: usize) -> Option<T> {
    T::proj(&qu(n))
}

/// Few terms, of degrees around the limits of the coefficient types, over some of low degree.
pub fn gen_gp_limits<T: Coef + Zero>(s: &mut Src, dense: bool, mag: Mag) -> Gp<T> {
    let mut terms = BTreeMap::new();
    for _ in 0..s.usize(6) {
        terms.insert(s.usize(8), T::gen(s, mag));
    }
    for _ in 0..s.urange(1, 3) {
        let c = if s.chance(1, 3) { T::zero() } else { T::gen(s, mag) };
        terms.insert(gen_limit_degree(s, dense), c);
    }
    Gp {
        terms,
        lead: if dense { gen_lead(s) } else { 0 },
    }
}

/// True if `T` has all of the numbers up to `n` exactly.
pub fn counts_to<T: Coef>(n: usize) -> bool {
    match T::NAME {
        "f32" => n <= 1 << 24,
        "f64" => n <= 1 << 53,
        _ => from_degree::<T>(n).is_some(),
    }
}

/// A polynomial over any values of a primitive type: zeros, ones and negative ones are frequent.
pub fn gen_prim<T: Prim>(s: &mut Src, max_len: usize) -> Gp<T> {
    let mag = gen_mag(s);
    if s.long > 0 && max_len >= 30 {
        let units = s.usize(4) as u64;
        return gen_long(s, |r| gen_unit_or(r, units, mag));
    }
    let n = gen_len(s, max_len);
    let units = s.usize(4) as u64;
    let keep_zeros = s.chance(1, 2);
    let mut terms = BTreeMap::new();
    for d in 0..n {
        let c: T = gen_unit_or(s, units, mag);
        if !c.is_zero() || keep_zeros {
            terms.insert(d, c);
        }
    }
    let lead = gen_lead(s);
    Gp { terms, lead }
}

/// Zero, one or minus one with a chance of `units` in 6, and else any value.
pub fn gen_unit_or<T: Prim>(s: &mut Src, units: u64, mag: Mag) -> T {
    if units > 0 && s.chance(units, 6) {
        match s.below(4) {
            0 => T::zero(),
            1 => T::one(),
            2 => T::proj(&-Q::one()).unwrap_or_else(T::one),
            _ => T::any(s, Mag::Special),
        }
    } else {
        T::any(s, mag)
    }
}

/// How a polynomial is written: the reference for Display.
pub fn canonical<T: Prim>(terms: &BTreeMap<usize, T>) -> String {
    let mut out = String::new();
    for (d, c) in terms.iter().rev().filter(|(_, c)| !c.is_zero()) {
        out.push_str(match (out.is_empty(), c.is_neg()) {
            (true, false) => "",
            (true, true) => "-",
            (false, false) => " + ",
            (false, true) => " - ",
        });
        let digits = c.abs_string();
        if *d == 0 || digits != "1" {
            out.push_str(&digits);
        }
        match d {
            0 => {}
            1 => out.push('x'),
            d => out.push_str(&format!("x^{d}")),
        }
    }
    if out.is_empty() {
        out.push('0');
    }
    out
}

/// The terms, cut down so that their description stays readable.
pub fn brief(text: &str) -> String {
    if text.chars().count() <= 200 {
        return text.to_string();
    }
    text.chars().take(200).chain("...".chars()).collect()
}
