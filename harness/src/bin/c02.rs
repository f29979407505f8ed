//! Multiplication, powers, and multiplication and division by a number.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::rational::Ratio;
use num::traits::{Signed, Zero};
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

fn factors_ok<T: Coef + Zero>(a: &Gp<T>, b: &Gp<T>) -> bool {
    sums_ok::<T>(&m_mul_sums(&a.model(), &b.model()))
}

fn count<T: Coef + Zero>(a: &Gp<T>) -> usize {
    a.terms.values().filter(|c| !c.is_zero()).count()
}

fn note_pair<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, b: &Gp<T>) {
    ctx.note(|| format!("{}: a = {}, b = {}", T::NAME, a.show(), b.show()));
    label_pair(ctx, a, b);
    if count(a) >= 2 && count(b) >= 2 {
        ctx.nontrivial();
    }
}

fn mul_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res {
    let mag = gen_mag(s);
    let (a, b): (Gp<T>, Gp<T>) = if big {
        (gen_gp_sparse(s, mag), gen_gp_sparse(s, mag))
    } else {
        // Rarely, both operands are long.
        let (la, lb) = match s.weighted(&[60, 8, 8, 1]) {
            0 => (14, 14),
            1 => (140, 6),
            2 => (6, 140),
            _ => (70, 70),
        };
        let a = gen_gp(s, la, mag);
        let b = gen_related(s, &a, lb, mag);
        (a, b)
    };
    let (a, b) = fit2(a, b, factors_ok)?;
    note_pair(ctx, &a, &b);
    let want = project::<T>(&m_mul(&a.model(), &b.model()))?;
    if !big {
        let (ra, rb) = (a.dense(), b.dense());
        expect("dense a * b", &(a.dense() * b.dense()), &want)?;
        expect("dense a * &b", &(a.dense() * &rb), &want)?;
        expect("dense &a * b", &(&ra * b.dense()), &want)?;
        expect("dense &a * &b", &(&ra * &rb), &want)?;
        let mut p = a.dense();
        p *= b.dense();
        expect("dense a *= b", &p, &want)?;
        let mut p = a.dense();
        p *= &rb;
        expect("dense a *= &b", &p, &want)?;
        ensure!(
            ra.terms == a.dense_vec() && rb.terms == b.dense_vec(),
            "dense multiplication changes a borrowed operand"
        );
    }
    let rb = b.sparse();
    expect("sparse a * b", &(a.sparse() * b.sparse()), &want)?;
    expect("sparse a * &b", &(a.sparse() * &rb), &want)?;
    expect("sparse a.borrow_mul(&b)", &a.sparse().borrow_mul(&rb), &want)?;
    let mut p = a.sparse();
    p *= b.sparse();
    expect("sparse a *= b", &p, &want)?;
    let mut p = a.sparse();
    p *= &rb;
    expect("sparse a *= &b", &p, &want)?;
    ensure!(rb.terms == b.terms, "sparse multiplication changes a borrowed operand");

    // Monomials: the leading term of each.
    let lead = |g: &Gp<T>| g.terms.iter().next_back().map_or((0, T::zero()), |(d, c)| (*d, *c));
    let ((da, ca), (db, cb)) = (lead(&a), lead(&b));
    let m: Model = clean([(da + db, ca.lift() * cb.lift())].into_iter().collect());
    let want = match project::<T>(&m) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let (ma, mb) = (Monomial::new(ca, da), Monomial::new(cb, db));
    expect("monomial a * b", &(ma.clone() * mb.clone()), &want)?;
    expect("monomial a * &b", &(ma.clone() * &mb), &want)?;
    let mut p = ma.clone();
    p *= mb.clone();
    expect("monomial a *= b", &p, &want)?;
    let mut p = ma;
    p *= &mb;
    expect("monomial a *= &b", &p, &want)
}

/// An exponent for which repeated squaring, even with one squaring too many, fits.
fn squarings(e: usize) -> usize {
    if e == 0 {
        1
    } else {
        1 << (usize::BITS - e.leading_zeros())
    }
}

fn pow_ok<T: Coef + Zero>(a: &Gp<T>, e: usize) -> bool {
    if T::MODULAR {
        return true;
    }
    let m = a.model();
    let e2 = squarings(e);
    // At least one for every intermediate power to be no larger than the last.
    let n = m_norm1(&m);
    let n = if n < qi(1) { qi(1) } else { n };
    if (n > qi(1) || m.values().any(|c| !c.is_integer())) && e2 > 400 {
        return false;
    }
    if !m.values().all(|c| T::proj(c).is_some()) {
        return false;
    }
    let mut t = Sums::default();
    t.add(&q_pow(&n, e2));
    t.add(&-q_pow(&n, e2));
    // Every coefficient of every power has a denominator dividing this.
    let den = m
        .values()
        .fold(num::bigint::BigInt::from(1), |d, c| num::integer::lcm(d, c.denom().clone()));
    t.den = num::pow(den, if n > qi(1) || m.values().any(|c| !c.is_integer()) { e2 } else { 1 });
    if T::SIGNED {
        T::sum_ok(&t)
    } else {
        T::proj(&t.pos).is_some()
    }
}

fn pow_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let (len, emax) = match s.weighted(&[6, 3, 3, 1]) {
        0 => (5, 9),
        1 => (3, 33),
        2 => (12, 5),
        _ => (2, 70),
    };
    let e = s.urange(0, emax);
    let a = fit1(gen_gp::<T>(s, len, mag), |a| pow_ok(a, e))?;
    ctx.note(|| format!("{}: ({})^{e}", T::NAME, a.show()));
    ctx.label_if(e == 0, "exponent 0");
    ctx.label_if(a.is_zero(), "zero operand");
    ctx.label_if(e > 9, "exponent above 9");
    if e >= 2 && count(&a) >= 2 {
        ctx.nontrivial();
    }
    let want = if T::MODULAR {
        // Reduced at every step.
        let am = a.model();
        let mut m = m_pow(&am, 0);
        for _ in 0..e {
            m = clean(project::<T>(&m_mul(&m, &am))?.iter().map(|(d, c)| (*d, c.lift())).collect());
        }
        project::<T>(&m)?
    } else {
        project::<T>(&m_pow(&a.model(), e))?
    };
    expect("dense pow", &a.dense().pow(e), &want)?;
    expect("sparse pow", &a.sparse().pow(e), &want)
}

/// Powers of a few terms of any degree, as long as the degree of the power can be represented.
fn pow_big_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let e = s.urange(2, 7);
    let limit = usize::MAX / (squarings(e) + 1);
    let mut terms = BTreeMap::new();
    // Sometimes all terms lie a little above one large degree.
    let base = if s.chance(1, 2) { gen_big_degree(s) } else { 0 };
    for _ in 0..s.urange(1, 4) {
        let d = if s.chance(1, 2) { s.usize(12) } else { gen_big_degree(s) };
        terms.insert(base.saturating_add(d) % limit, T::gen(s, mag));
    }
    if s.chance(1, 4) {
        let d = if s.chance(1, 2) { base.saturating_add(s.usize(4)) } else { gen_big_degree(s) };
        terms.entry(d % limit).or_insert_with(T::zero);
    }
    let a = fit1(Gp { terms, lead: 0 }, |a| pow_ok(a, e))?;
    ctx.note(|| format!("{}: ({})^{e}", T::NAME, a.show()));
    ctx.label_if(a.has_stored_zero(), "stored zero");
    let am = a.model();
    ctx.label_if(am.keys().next().map_or(false, |d| *d > u32::MAX as usize), "lowest degree beyond 32 bits");
    if count(&a) >= 2 {
        ctx.nontrivial();
    }
    let mut m = m_pow(&am, 0);
    for _ in 0..e {
        m = m_mul(&m, &am);
        if T::MODULAR {
            m = clean(project::<T>(&m)?.iter().map(|(d, c)| (*d, c.lift())).collect());
        }
    }
    expect("sparse pow", &a.sparse().pow(e), &project::<T>(&m)?)
}

/// Polynomials with one term, to huge powers: sparse ones, and dense ones while they are short.
fn pow_single_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = *s.pick(&[2, 3, 5, 16, 31, 100, 255, 256, 257, 258, 500, 1024, 65535, 65536, (1 << 31) - 1, 1 << 31,
        (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 40) + 3]);
    let d = if s.chance(1, 3) {
        s.usize(2000 / e + 2)
    } else {
        s.usize(if e > 1 << 33 { 1000 } else { 100_000 })
    };
    let c = match s.below(3) {
        0 => T::one(),
        1 => T::zero(),
        _ => T::gen(s, Mag::Tiny),
    };
    let g = Gp {
        terms: [(d, c)].into_iter().collect(),
        lead: 0,
    };
    if !pow_ok(&g, e) {
        return Err(Bad::Discard);
    }
    ctx.note(|| format!("{}: ({})^{e}", T::NAME, g.show()));
    ctx.nontrivial();
    let m: Model = if T::MODULAR {
        let (mut acc, mut b, mut k) = (qi(1), c.lift(), e);
        let red = |q: Q| T::proj(&q).map(|v| v.lift()).unwrap_or_else(Q::zero);
        while k > 0 {
            if k % 2 == 1 {
                acc = red(&acc * &b);
            }
            b = red(&b * &b);
            k /= 2;
        }
        [(d * e, acc)].into_iter().collect()
    } else {
        [(d * e, q_pow(&c.lift(), e))].into_iter().collect()
    };
    let want = project::<T>(&clean(m))?;
    expect("sparse pow", &g.sparse().pow(e), &want)?;
    if d.saturating_mul(e) <= 2100 {
        ctx.label_if(e > 255, "dense, exponent above 255");
        expect("dense pow", &g.dense().pow(e), &want)?;
    }
    Ok(())
}

trait MonoPow: Ring {
    fn mono_pow(m: &Monomial<Self>, e: usize) -> Monomial<Self>;
}
macro_rules! mono_pow {
    ($($T:ident)*) => {$(
        impl MonoPow for $T {
            fn mono_pow(m: &Monomial<$T>, e: usize) -> Monomial<$T> { m.pow(e) }
        }
    )*};
}
mono_pow! { i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize f32 f64 }

fn mono_pow_t<T: MonoPow>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = match s.weighted(&[10, 3, 2]) {
        0 => s.usize(20),
        1 => s.usize(140),
        _ => *s.pick(&[255, 256, 257, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1,
            1 << 32, (1 << 32) + 1, (1 << 33) + 1, (1 << 40) + 3]),
    };
    let d = match s.below(3) {
        0 => 0,
        1 => s.usize(10),
        _ => s.usize(100_000),
    };
    let mag = gen_mag(s);
    let c = if e > 140 { Mag::Tiny } else { mag };
    let g = Gp {
        terms: [(d, T::gen(s, c))].into_iter().collect(),
        lead: 0,
    };
    let g = fit1(g, |g| pow_ok(g, e))?;
    let c = g.terms[&d];
    ctx.note(|| format!("{}: ({c:?} x^{d})^{e}", T::NAME));
    ctx.label_if(e == 0, "exponent 0");
    ctx.label_if(e > 1 << 31, "exponent above 32 bits");
    if e >= 2 && !c.is_zero() {
        ctx.nontrivial();
    }
    let m: Model = clean([(d * e, q_pow(&c.lift(), e))].into_iter().collect());
    expect("monomial pow", &T::mono_pow(&Monomial::new(c, d), e), &project::<T>(&m)?)
}

fn scalar_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let huge = s.long == 0 && s.chance(1, 4);
    let a = if huge { gen_gp_sparse::<T>(s, mag) } else { gen_gp::<T>(s, 140, mag) };
    let k = T::gen(s, mag);
    let kg = Gp {
        terms: [(0, k)].into_iter().collect(),
        lead: 0,
    };
    let (ag, kg) = fit2(a.clone(), kg, factors_ok)?;
    let kk = kg.terms[&0];
    let want = project::<T>(&m_scale(&ag.model(), &kk.lift()))?;
    ctx.note(|| format!("{}: ({}) * {kk:?} and ({}) / {k:?}", T::NAME, ag.show(), a.show()));
    ctx.label_if(kk.is_zero(), "scaled by zero");
    label_pair(ctx, &ag, &kg);
    if count(&ag) >= 2 && !kk.is_zero() {
        ctx.nontrivial();
    }
    if !huge {
        expect("dense a * k", &(ag.dense() * kk), &want)?;
        let mut p = ag.dense();
        p *= kk;
        expect("dense a *= k", &p, &want)?;
    }
    expect("sparse a * k", &(ag.sparse() * kk), &want)?;
    let mut p = ag.sparse();
    p *= kk;
    expect("sparse a *= k", &p, &want)?;

    // Division by a number divides every coefficient, as the type itself divides.
    let signed_min = |c: T| T::proj(&-c.lift()).is_none() && (-k.lift()) == qi(1);
    if k.is_zero() || (!T::MODULAR && T::SIGNED && a.terms.values().any(|c| signed_min(*c))) {
        return Ok(());
    }
    let want: BTreeMap<usize, T> = a
        .terms
        .iter()
        .map(|(d, c)| (*d, *c / k))
        .filter(|(_, c)| !c.is_zero())
        .collect();
    if !huge {
        expect("dense a / k", &(a.dense() / k), &want)?;
        let mut p = a.dense();
        p /= k;
        expect("dense a /= k", &p, &want)?;
    }
    expect("sparse a / k", &(a.sparse() / k), &want)?;
    let mut p = a.sparse();
    p /= k;
    expect("sparse a /= k", &p, &want)
}

fn scalar_fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = gen_fixed::<T>(s, 3, mag);
    let deg = gen_big_degree(s);
    let k = T::gen(s, mag);
    let kg = Gp {
        terms: [(0, k)].into_iter().collect(),
        lead: 0,
    };
    let (ag, kg) = fit2(a.clone(), kg, factors_ok)?;
    let kk = kg.terms[&0];
    ctx.note(|| {
        format!(
            "{}: ({}) * {kk:?} and ({}) / {k:?}; monomial degree {deg}",
            T::NAME,
            ag.show(),
            a.show()
        )
    });
    if count(&ag) >= 2 && !kk.is_zero() {
        ctx.nontrivial();
    }
    let low = |w: &BTreeMap<usize, T>| -> BTreeMap<usize, T> {
        w.range(..2).map(|(d, c)| (*d, *c)).collect()
    };
    let one = |w: &BTreeMap<usize, T>| -> BTreeMap<usize, T> {
        w.get(&0).map(|c| (deg, *c)).into_iter().collect()
    };
    let want = project::<T>(&m_scale(&ag.model(), &kk.lift()))?;
    expect("trinomial a * k", &(quad(&ag) * kk), &want)?;
    let mut p = quad(&ag);
    p *= kk;
    expect("trinomial a *= k", &p, &want)?;
    expect("binomial a * k", &(lin(&ag) * kk), &low(&want))?;
    let mut p = lin(&ag);
    p *= kk;
    expect("binomial a *= k", &p, &low(&want))?;
    let m = Monomial::new(ag.terms[&0], deg);
    expect("monomial a * k", &(m.clone() * kk), &one(&want))?;
    let mut p = m;
    p *= kk;
    expect("monomial a *= k", &p, &one(&want))?;

    let signed_min = |c: T| T::proj(&-c.lift()).is_none() && (-k.lift()) == qi(1);
    if k.is_zero() || (!T::MODULAR && T::SIGNED && a.terms.values().any(|c| signed_min(*c))) {
        return Ok(());
    }
    let want: BTreeMap<usize, T> = a
        .terms
        .iter()
        .map(|(d, c)| (*d, *c / k))
        .filter(|(_, c)| !c.is_zero())
        .collect();
    expect("trinomial a / k", &(quad(&a) / k), &want)?;
    let mut p = quad(&a);
    p /= k;
    expect("trinomial a /= k", &p, &want)?;
    expect("binomial a / k", &(lin(&a) / k), &low(&want))?;
    let mut p = lin(&a);
    p /= k;
    expect("binomial a /= k", &p, &low(&want))?;
    let m = Monomial::new(a.terms[&0], deg);
    expect("monomial a / k", &(m.clone() / k), &one(&want))?;
    let mut p = m;
    p /= k;
    expect("monomial a /= k", &p, &one(&want))
}

/// Floats which round: every coefficient is within the rounding error of its sum of products.
fn check_float_rounding(s: &mut Src, ctx: &mut Ctx) -> Res {
    let range = *s.pick(&[3, 40, 200]);
    let av: Vec<f64> = (0..gen_len(s, 16)).map(|_| gen_mid_f64(s, range)).collect();
    let bv: Vec<f64> = (0..gen_len(s, 16)).map(|_| gen_mid_f64(s, range)).collect();
    ctx.note(|| format!("f64: a = {av:?}, b = {bv:?}"));
    if av.len() > 1 && bv.len() > 1 {
        ctx.nontrivial();
    }
    let model = |v: &Vec<f64>| -> Model {
        let n = v.len();
        clean(v.iter().enumerate().map(|(i, c)| (n - 1 - i, c.lift())).collect())
    };
    let sums = m_mul_sums(&model(&av), &model(&bv));
    let close = |what: &str, got: Vec<(usize, f64)>| -> Res {
        let got: BTreeMap<usize, f64> = got.into_iter().collect();
        for d in sums.keys().chain(got.keys()) {
            let g = got.get(d).copied().unwrap_or(0.0);
            ensure!(g.is_finite(), "{what}: coefficient of x^{d} is {g}");
            let (want, scale) = sums
                .get(d)
                .map_or((Q::zero(), Q::zero()), |t| (t.total(), t.abs()));
            // 40 roundings of at most 2^-53 each, plus the smallest denormal.
            let tol = scale * pow2(6) / pow2(53) + qi(1) / pow2(1060);
            ensure!(
                (g.lift() - &want).abs() <= tol,
                "{what}: coefficient of x^{d} is {g:e}, which is not close to the exact value"
            );
        }
        Ok(())
    };
    let dense = |v: &Vec<f64>| Polynomial { terms: v.clone() };
    let sparse = |v: &Vec<f64>| SparsePolynomial::from(v.clone());
    close("dense a * b", (dense(&av) * dense(&bv)).stored())?;
    close("sparse a * b", (sparse(&av) * sparse(&bv)).stored())?;
    close("sparse borrow_mul", sparse(&av).borrow_mul(&sparse(&bv)).stored())?;
    let mut p = dense(&av);
    p *= &dense(&bv);
    close("dense a *= &b", p.stored())
}

fn check_mul(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Wrapping<u64>, Gf<7>, Gf<65537>, Ratio<i128>]; mul_t(s, ctx, false))
}

fn check_mul_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i8, i128, u8, u64, f64, Wrapping<i8>, Gf<7>]; mul_t(s, ctx, true))
}

fn check_pow(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i128, u64, u128, f64, i8, u16, f32,
        Wrapping<i8>, Wrapping<u64>, Gf<7>, Gf<65537>, Ratio<i128>]; pow_t(s, ctx))
}

fn check_pow_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i128, u64, f64, Wrapping<i8>, Gf<7>]; pow_big_t(s, ctx))
}

fn check_pow_single(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i128, f64, Wrapping<i8>, Gf<7>]; pow_single_t(s, ctx))
}

fn check_mono_pow(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64];
        mono_pow_t(s, ctx))
}

fn check_scalar(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Wrapping<u64>, Gf<7>, Gf<65537>, Ratio<i128>]; scalar_t(s, ctx))
}

fn check_scalar_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; scalar_fixed_t(s, ctx))
}

/// Long factors with small coefficients, multiplied by machine numbers.
fn mul_long_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (la, lb) = *s.pick(&[(300, 300), (300, 300), (1100, 40), (40, 1100), (1100, 1100), (4100, 10), (10, 4100), (17_000, 3), (3, 17_000)]);
    let lo = if T::SIGNED { -3 } else { 0 };
    let [av, bv] = [la, lb].map(|n| gen_long_with::<i64>(s, n, |r| r.range(lo, 3)));
    let (lead_a, lead_b) = (gen_lead(s), gen_lead(s));
    let mut want = vec![0i64; av.len() + bv.len()];
    for (i, x) in av.iter().enumerate().filter(|(_, x)| **x != 0) {
        for (j, y) in bv.iter().enumerate() {
            want[i + j] += x * y;
        }
    }
    let conv = |v: i64| T::proj(&qi(v));
    let mut terms = BTreeMap::new();
    for (d, v) in want.iter().enumerate().filter(|(_, v)| **v != 0) {
        let Some(c) = conv(*v) else { return Err(Bad::Discard) };
        if !c.is_zero() {
            terms.insert(d, c);
        }
    }
    let make = |v: &Vec<i64>, lead| Gp::<T> {
        terms: v.iter().enumerate().map(|(d, c)| (d, conv(*c).unwrap())).collect(),
        lead,
    };
    let (mut a, mut b) = (make(&av, lead_a), make(&bv, lead_b));
    if s.chance(1, 2) {
        a.terms.retain(|_, c| !c.is_zero());
        b.terms.retain(|_, c| !c.is_zero());
    }
    note_pair(ctx, &a, &b);
    ctx.label_if(count(&a) > 500 && count(&b) > 500, "both with more than 500 terms");
    let (ra, rb) = (a.dense(), b.dense());
    expect("dense &a * &b", &(&ra * &rb), &terms)?;
    expect("dense b * a", &(b.dense() * a.dense()), &terms)?;
    let mut p = a.dense();
    p *= &rb;
    expect("dense a *= &b", &p, &terms)?;
    let rb = b.sparse();
    expect("sparse a.borrow_mul(&b)", &a.sparse().borrow_mul(&rb), &terms)?;
    let mut p = a.sparse();
    p *= &rb;
    expect("sparse a *= &b", &p, &terms)
}

/// Squares and cubes of long polynomials, and higher powers of shorter ones.
fn pow_long_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (n, e) = *s.pick(&[(60, 2), (60, 2), (140, 2), (300, 2), (1100, 2), (60, 3), (140, 3), (60, 4), (30, 5), (40, 6), (30, 7), (20, 8), (10, 12)]);
    let top = if e > 3 { 1 } else { 3 };
    let lo = if T::SIGNED { -top } else { 0 };
    let v = gen_long_with::<i64>(s, n, |r| r.range(lo, top));
    let lead = gen_lead(s);
    let mut want = vec![1i64];
    for _ in 0..e {
        let mut next = vec![0i64; want.len() + v.len()];
        for (i, x) in v.iter().enumerate().filter(|(_, x)| **x != 0) {
            for (j, y) in want.iter().enumerate() {
                next[i + j] += x * y;
            }
        }
        want = next;
    }
    let conv = |v: i64| T::proj(&qi(v));
    // What a power adds up to, whatever the signs, also bounds all that is on the way to it.
    let all: i64 = v.iter().map(|x| x.abs()).sum::<i64>().max(1);
    if !T::MODULAR && !counts_to::<T>(all.pow(e) as usize) {
        return Err(Bad::Discard);
    }
    let mut terms = BTreeMap::new();
    for (d, v) in want.iter().enumerate().filter(|(_, v)| **v != 0) {
        let Some(c) = conv(*v) else { return Err(Bad::Discard) };
        if !c.is_zero() {
            terms.insert(d, c);
        }
    }
    let mut a = Gp::<T> {
        terms: v.iter().enumerate().map(|(d, c)| (d, conv(*c).unwrap())).collect(),
        lead,
    };
    if s.chance(1, 2) {
        a.terms.retain(|_, c| !c.is_zero());
    }
    ctx.note(|| format!("{}: ({})^{e}", T::NAME, a.show()));
    ctx.label_if(count(&a) > 100, "more than 100 terms");
    if count(&a) >= 2 {
        ctx.nontrivial();
    }
    expect("dense pow", &a.dense().pow(e as usize), &terms)?;
    expect("sparse pow", &a.sparse().pow(e as usize), &terms)
}

fn check_pow_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i128, u32, u64, f32, f64, Wrapping<i8>, Wrapping<u64>, Gf<65537>]; pow_long_t(s, ctx))
}

fn check_mul_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i128, u32, u64, f32, f64, Wrapping<i8>, Wrapping<u64>, Gf<65537>]; mul_long_t(s, ctx))
}

fn check_scalar_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_scalar(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C02",
        rule: "cases are factors, powers and scalars over 12 integer types, f32, f64, wrapping, modular and rational types in random representations; non-trivial: both factors have at least two non-zero terms (powers: exponent at least 2 and a non-zero base; scalars: not zero)",
        assumptions: &[
            "every coefficient of the result, and every sum of its partial products, fits the coefficient type (halved until they do); floats are dyadic so that results are exact, except in float_rounding",
            "powers leave room for repeated squaring",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "mul", check: check_mul, quick: 100_000 },
            Sub { name: "mul_huge_degrees", check: check_mul_big, quick: 60_000 },
            Sub { name: "pow", check: check_pow, quick: 60_000 },
            Sub { name: "pow_huge_degrees", check: check_pow_big, quick: 100_000 },
            Sub { name: "pow_single_term", check: check_pow_single, quick: 40_000 },
            Sub { name: "monomial_pow", check: check_mono_pow, quick: 100_000 },
            Sub { name: "scalar", check: check_scalar, quick: 100_000 },
            Sub { name: "scalar_fixed_size", check: check_scalar_fixed, quick: 100_000 },
            Sub { name: "float_rounding", check: check_float_rounding, quick: 20_000 },
            Sub { name: "mul_long", check: check_mul_long, quick: 8_000 },
            Sub { name: "pow_long", check: check_pow_long, quick: 20_000 },
            Sub { name: "scalar_long", check: check_scalar_long, quick: 6_000 },
        ],
        known: vec![],
    });
}
