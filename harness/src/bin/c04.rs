//! Evaluation.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::bigint::BigInt;
use num::rational::Ratio;
use num::traits::{One, Signed, ToPrimitive, Zero};
use rustnomial::*;
use std::collections::BTreeMap;
use std::num::Wrapping;

fn squarings(e: usize) -> usize {
    if e == 0 {
        1
    } else {
        1 << (usize::BITS - e.leading_zeros())
    }
}

/// Every way of adding up the terms stays inside of what T represents exactly, with some room for
/// computing powers.
fn eval_ok<T: Coef>(m: &Model, x: &Q) -> bool {
    if T::MODULAR {
        return true;
    }
    let unit = x.is_zero() || x.abs().is_one();
    let top = m_degree(m).unwrap_or(0);
    if !unit && top > 300 {
        return false;
    }
    let both = |q: &Q| T::proj(q).is_some() && (!T::SIGNED || T::proj(&-q).is_some());
    let ax = x.abs();
    let big = if ax < qi(1) { qi(1) } else { ax };
    let bound: Q = m.iter().map(|(d, c)| c.abs() * q_pow(&big, *d)).sum();
    if T::FLOAT || T::NAME.starts_with("Ratio") {
        let mut den = m.values().fold(BigInt::one(), |d, c| num::integer::lcm(d, c.denom().clone()));
        if !unit {
            den *= num::pow(x.denom().clone(), top + 1);
            if T::FLOAT && (x.numer().bits() + x.denom().bits()) * squarings(top) as u64 > 100 {
                return false;
            }
        }
        let t = Sums { pos: bound, neg: Q::zero(), den };
        T::sum_ok(&t)
    } else {
        both(&bound) && (unit || both(&q_pow(&big, squarings(top)))) && both(&big)
    }
}

fn value<T: Coef>(m: &Model, x: T) -> Result<T, Bad> {
    T::proj(&m_eval(m, &x.lift())).ok_or(Bad::Discard)
}

fn note_eval<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>, x: T) {
    ctx.note(|| format!("{}: {} at {x:?}", T::NAME, a.show()));
    ctx.label_if(x.is_zero(), "at zero");
    ctx.label_if(x.lift().abs() > qi(1), "at a point beyond 1");
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 && !x.is_zero() {
        ctx.nontrivial();
    }
}

fn gen_at<T: Coef + Zero>(s: &mut Src, big: bool) -> Result<(Gp<T>, T), Bad> {
    let (mag, xmag) = (gen_mag(s), gen_mag(s));
    let mut a = if big {
        gen_gp_sparse::<T>(s, mag)
    } else {
        let n = *s.pick(&[4, 4, 8, 16, 140]);
        gen_gp::<T>(s, n, mag)
    };
    let x = T::gen(s, xmag);
    if big && s.chance(1, 2) {
        // Few terms of low degree that are not zero, and zeros of any degree.
        a.terms.values_mut().for_each(|c| *c = T::zero());
        for _ in 0..s.usize(5) {
            a.terms.insert(s.usize(8), T::gen(s, mag));
        }
    }
    let xg = Gp { terms: [(0, x)].into_iter().collect(), lead: 0 };
    let (a, xg) = fit2(a, xg, |a, x| eval_ok::<T>(&a.model(), &x.terms[&0].lift()))?;
    Ok((a, xg.terms[&0]))
}

fn same<T: Coef>(what: &str, got: T, want: T, x: T) -> Res {
    ensure!(got == want, "{what} over {} at {x:?} is {got:?} but should be {want:?}", T::NAME);
    Ok(())
}

fn generic_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (a, x) = gen_at::<T>(s, false)?;
    note_eval(ctx, &a, x);
    let want = value(&a.model(), x)?;
    same("dense eval", a.dense().eval(x), want, x)?;
    same("trimmed dense eval", Polynomial::new(a.dense_vec()).eval(x), want, x)
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mag, xmag) = (gen_mag(s), gen_mag(s));
    let a = gen_fixed::<T>(s, 3, mag);
    let xg = Gp { terms: [(0, T::gen(s, xmag))].into_iter().collect(), lead: 0 };
    let (a, xg) = fit2(a, xg, |a, x| eval_ok::<T>(&a.model(), &x.terms[&0].lift()))?;
    let x = xg.terms[&0];
    note_eval(ctx, &a, x);
    let m = a.model();
    same("trinomial eval", quad(&a).eval(x), value(&m, x)?, x)?;
    let low: Model = m.range(..2).map(|(d, c)| (*d, c.clone())).collect();
    same("binomial eval", lin(&a).eval(x), value(&low, x)?, x)
}

fn prim_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, big: bool) -> Res
where
    SparsePolynomial<T>: Evaluable<T>,
    Monomial<T>: Evaluable<T>,
{
    let (a, x) = gen_at::<T>(s, big)?;
    note_eval(ctx, &a, x);
    let m = a.model();
    same("sparse eval", a.sparse().eval(x), value(&m, x)?, x)?;
    if let Some((d, c)) = a.terms.iter().next_back() {
        let one: Model = clean([(*d, c.lift())].into_iter().collect());
        if eval_ok::<T>(&one, &x.lift()) {
            same("monomial eval", Monomial::new(*c, *d).eval(x), value(&one, x)?, x)?;
        }
    }
    Ok(())
}

/// Floats that round: within the rounding error of the sum of the magnitudes of the terms.
fn rounding_t<T: SRing>(s: &mut Src, ctx: &mut Ctx, cast: fn(f64) -> T, mant: usize, zeros: bool) -> Res
where
    SparsePolynomial<T>: Evaluable<T>,
    Monomial<T>: Evaluable<T>,
{
    let n = gen_len(s, 40);
    let e = *s.pick(&[2, 12]);
    let mut a = Gp { terms: (0..n).map(|d| (d, cast(gen_mid_f64(s, e)))).collect(), lead: gen_lead(s) };
    let x = cast(gen_mid_f64(s, 0) / [1.0, 1.0, 8.0, 100.0][s.usize(4)]);
    if zeros {
        a.lead = 0;
        for _ in 0..4 {
            a.terms.entry(gen_big_degree(s)).or_insert_with(T::zero);
        }
    }
    // Nothing may overflow: f32 has an exponent range of 127.
    let ax = x.lift().abs();
    let limit = pow2(100);
    let m = a.model();
    let top = m_degree(&m).unwrap_or(0);
    let scale: Q = m.iter().map(|(d, c)| c.abs() * q_pow(&ax, *d)).sum();
    if scale > limit || q_pow(&ax, top) > limit || ax > qi(200) {
        return Err(Bad::Discard);
    }
    note_eval(ctx, &a, x);
    let want = m_eval(&m, &x.lift());
    // Powers may underflow to zero, or to few digits; the coefficients are below 2^20 each.
    let tol = scale * qu(6 * top + 30) / pow2(mant) + qu(top + 1) * pow2(25) / pow2(120);
    let near = |what: &str, got: T, want: &Q| -> Res {
        let ok = catch(|| got.lift()).ok();
        let Some(g) = ok else { return fail(format!("{what} at {x:?} is {got:?}")) };
        ensure!(
            (&g - want).abs() <= tol,
            "{what} over {} at {x:?} is {got:?}, not close to {:e}",
            T::NAME,
            want.to_f64().unwrap_or(f64::NAN)
        );
        Ok(())
    };
    near("sparse eval", a.sparse().eval(x), &want)?;
    if !zeros {
        near("dense eval", a.dense().eval(x), &want)?;
    }
    if let Some((d, c)) = a.terms.iter().next_back() {
        if *d <= 300 {
            near("monomial eval", Monomial::new(*c, *d).eval(x), &(c.lift() * q_pow(&x.lift(), *d)))?;
        } else {
            near("monomial eval", Monomial::new(*c, *d).eval(x), &Q::zero())?;
        }
    }
    let at = |d: usize| a.terms.get(&d).copied().unwrap_or_else(T::zero);
    let low = |n: usize| -> Model { m.range(..n).map(|(d, c)| (*d, c.clone())).collect() };
    near("binomial eval", LinearBinomial::new([at(1), at(0)]).eval(x), &m_eval(&low(2), &x.lift()))?;
    near(
        "trinomial eval",
        QuadraticTrinomial::new([at(2), at(1), at(0)]).eval(x),
        &m_eval(&low(3), &x.lift()),
    )
}

fn check_generic(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Wrapping<u64>, Gf<7>, Gf<65537>, Ratio<i128>]; generic_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64,
        Wrapping<i8>, Gf<7>, Ratio<i128>]; fixed_t(s, ctx))
}

fn check_prim(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64];
        prim_t(s, ctx, false))
}

fn check_prim_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64];
        prim_t(s, ctx, true))
}

fn check_rounding(s: &mut Src, ctx: &mut Ctx) -> Res {
    let zeros = s.chance(1, 4);
    if s.chance(1, 2) {
        rounding_t::<f64>(s, ctx, |v| v, 53, zeros)
    } else {
        rounding_t::<f32>(s, ctx, |v| v as f32, 24, zeros)
    }
}

/// Long polynomials, by the arithmetic of the type. Powers of the point are exact.
fn long_value<T: Ring>(terms: &BTreeMap<usize, T>, x: T) -> T {
    let (mut sum, mut power, mut at) = (T::zero(), T::one(), 0);
    for (d, c) in terms {
        while at < *d {
            power *= x;
            at += 1;
        }
        sum += *c * power;
    }
    sum
}

fn gen_long_gp<T: Ring>(s: &mut Src) -> Gp<T> {
    s.long = pick_long(s);
    gen_gp::<T>(s, 140, if T::MODULAR { Mag::Full } else { Mag::Tiny })
}

fn long_dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_long_gp::<T>(s);
    let x = T::gen(s, Mag::Full);
    note_eval(ctx, &a, x);
    let want = long_value(&a.terms, x);
    same("dense eval", a.dense().eval(x), want, x)?;
    same("trimmed dense eval", Polynomial::new(a.dense_vec()).eval(x), want, x)
}

fn long_unit_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<T>: Evaluable<T>,
{
    let a = gen_long_gp::<T>(s);
    let x = *s.pick(&[1, 0, -1]);
    let x = if T::SIGNED { x } else { x.abs() };
    let x = T::proj(&qi(x)).unwrap();
    note_eval(ctx, &a, x);
    let want = long_value(&a.terms, x);
    same("dense eval", a.dense().eval(x), want, x)?;
    same("sparse eval", a.sparse().eval(x), want, x)
}

fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        pick_type!(s; [Gf<65537>, Wrapping<u64>, Wrapping<i8>]; long_dense_t(s, ctx))
    } else {
        pick_type!(s; [i32, i64, i128, u32, u64, f32, f64]; long_unit_t(s, ctx))
    }
}

fn main() {
    harness::engine::main(Property {
        id: "C04",
        rule: "cases are a polynomial in a random representation and a point; non-trivial: at least two non-zero terms, and a point which is not zero",
        assumptions: &[
            "the sum of the magnitudes of the terms fits the coefficient type, and so does the point to the power of the degree, with room for repeated squaring (coefficients and point are halved until they do)",
            "floats are dyadic so that the value is exact; in float_rounding they round, and the error may be a few units in the last place per degree",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense", check: check_generic, quick: 180_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 180_000 },
            Sub { name: "sparse_monomial", check: check_prim, quick: 180_000 },
            Sub { name: "huge_degrees", check: check_prim_big, quick: 180_000 },
            Sub { name: "float_rounding", check: check_rounding, quick: 90_000 },
            Sub { name: "long", check: check_long, quick: 6_000 },
        ],
        known: vec![],
    });
}
