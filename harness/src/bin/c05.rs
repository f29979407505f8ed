//! Derivatives.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::traits::Zero;
use rustnomial::*;
use std::collections::BTreeMap;

/// The derivative, if every degree that matters is representable.
fn derived<T: Ring>(terms: &BTreeMap<usize, T>) -> Result<Option<BTreeMap<usize, T>>, Bad> {
    let mut want = BTreeMap::new();
    for (d, c) in terms.iter().filter(|(d, c)| **d > 0 && !c.is_zero()) {
        let Some(k) = from_degree::<T>(*d) else { return Ok(None) };
        if !T::FLOAT && T::proj(&(c.lift() * k.lift())).is_none() {
            return Err(Bad::Discard);
        }
        let v = *c * k;
        if !v.is_zero() {
            want.insert(*d - 1, v);
        }
    }
    Ok(Some(want))
}

fn product_fits<T: Coef + Zero>(a: &Gp<T>) -> bool {
    T::FLOAT
        || a.terms.iter().all(|(d, c)| {
            c.is_zero() || from_degree::<T>(*d).is_none() || T::proj(&(c.lift() * qu(*d))).is_some()
        })
}

fn note_one<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>) {
    ctx.note(|| format!("{}: derivative of {}", T::NAME, a.show()));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    if a.terms.iter().filter(|(d, c)| **d > 0 && !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn agree<T: Ring, P: Stored<T>>(
    what: &str,
    got: Result<P, String>,
    want: &Option<BTreeMap<usize, T>>,
) -> Res {
    match (got, want) {
        (Ok(p), Some(w)) => expect(what, &p, w),
        // No product overflows, so that the overflow is of the degree, and without checks for
        // overflow there would be a wrong result.
        (Err(m), None) if m.contains("with overflow") => fail(format!(
            "{what} over {} overflows ({m}) instead of refusing a degree without exact representation",
            T::NAME
        )),
        (Err(_), None) => Ok(()),
        (Err(m), Some(_)) => fail(format!("{what} over {} panics: {m}", T::NAME)),
        (Ok(p), None) => fail(format!(
            "{what} over {} returns {} although a degree has no exact representation",
            T::NAME,
            show_map(&nonzero(&p))
        )),
    }
}

fn check_gp<T: Ring>(ctx: &mut Ctx, a: &Gp<T>, dense: bool) -> Res
where
    Polynomial<T>: Derivable<T>,
    SparsePolynomial<T>: Derivable<T>,
    Monomial<T>: Derivable<T>,
{
    let want = derived(&a.terms)?;
    ctx.label_if(want.is_none(), "degree not representable");
    if dense {
        // A dense polynomial needs all numbers up to its degree.
        let want = match a.degree() {
            Some(d) if !counts_to::<T>(d) => None,
            _ => want.clone(),
        };
        let p = a.dense();
        agree("dense derivative", catch(|| p.derivative()), &want)?;
        ensure!(p.terms == a.dense_vec(), "dense derivative changes the polynomial");
    }
    let p = a.sparse();
    agree("sparse derivative", catch(|| p.derivative()), &want)?;
    ensure!(p.terms == a.terms, "sparse derivative changes the polynomial");
    for (d, c) in a.terms.iter().rev().take(2) {
        let one = derived(&[(*d, *c)].into_iter().collect())?;
        agree("monomial derivative", catch(|| Monomial::new(*c, *d).derivative()), &one)?;
    }
    Ok(())
}

fn usual_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Derivable<T>,
    SparsePolynomial<T>: Derivable<T>,
    Monomial<T>: Derivable<T>,
{
    let mag = gen_mag(s);
    let a = fit1(gen_gp::<T>(s, 140, mag), product_fits)?;
    note_one(ctx, &a);
    check_gp(ctx, &a, true)
}

fn limits_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, dense: bool) -> Res
where
    Polynomial<T>: Derivable<T>,
    SparsePolynomial<T>: Derivable<T>,
    Monomial<T>: Derivable<T>,
{
    let mag = *s.pick(&[Mag::Tiny, Mag::Tiny, Mag::Small, Mag::Full]);
    let mut a = gen_gp_limits::<T>(s, dense, mag);
    if !T::FLOAT {
        // Lower only the coefficients whose product is too large.
        for (d, c) in a.terms.iter_mut() {
            while from_degree::<T>(*d).is_some() && T::proj(&(c.lift() * qu(*d))).is_none() {
                *c = c.halve();
            }
        }
    }
    note_one(ctx, &a);
    check_gp(ctx, &a, dense)
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    LinearBinomial<T>: Derivable<T>,
    QuadraticTrinomial<T>: Derivable<T>,
{
    let mag = gen_mag(s);
    let a = fit1(gen_fixed::<T>(s, 3, mag), product_fits)?;
    note_one(ctx, &a);
    let want = derived(&a.terms)?;
    agree("trinomial derivative", catch(|| quad(&a).derivative()), &want)?;
    let low = derived(&a.terms.range(..2).map(|(d, c)| (*d, *c)).collect())?;
    agree("binomial derivative", catch(|| lin(&a).derivative()), &low)
}

/// Any finite floats: each coefficient is one rounded product.
fn any_float_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, gen: fn(&mut Src) -> T, finite: fn(T) -> bool) -> Res
where
    Polynomial<T>: Derivable<T>,
    SparsePolynomial<T>: Derivable<T>,
    Monomial<T>: Derivable<T>,
{
    let n = gen_len(s, 40);
    let a = Gp { terms: (0..n).map(|d| (d, gen(s))).collect(), lead: gen_lead(s) };
    note_one(ctx, &a);
    let want = derived(&a.terms)?;
    if want.iter().flat_map(|w| w.values()).any(|c| !finite(*c)) {
        return Err(Bad::Discard);
    }
    check_gp(ctx, &a, true)
}

/// The largest degrees f32 counts to without gaps.
fn check_f32_limit(s: &mut Src, ctx: &mut Ctx) -> Res {
    let d = (1usize << 24) - 1 + s.usize(4);
    ctx.note(|| format!("f32: derivative of 3x^{d} + 5x^2 + 7x"));
    ctx.nontrivial();
    let a = Gp::<f32> {
        terms: [(d, 3.0), (2, 5.0), (1, 7.0)].into_iter().collect(),
        lead: 0,
    };
    check_gp(ctx, &a, true)
}

fn check_usual(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64]; usual_t(s, ctx))
}

fn check_dense_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64];
        limits_t(s, ctx, true))
}

fn check_sparse_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64];
        limits_t(s, ctx, false))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64]; fixed_t(s, ctx))
}

fn check_any_float(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        any_float_t(s, ctx, gen_f32, f32::is_finite)
    } else {
        any_float_t(s, ctx, gen_f64, f64::is_finite)
    }
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_usual(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C05",
        rule: "cases are polynomials in random representations over 10 integer types, f32 and f64, with degrees around every limit of those types; non-trivial: at least two non-zero terms of degree 1 or more",
        assumptions: &["the coefficients of the derivative fit the coefficient type (halved until they do)"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "usual", check: check_usual, quick: 750_000 },
            Sub { name: "dense_limits", check: check_dense_limits, quick: 30_000 },
            Sub { name: "sparse_limits", check: check_sparse_limits, quick: 750_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 500_000 },
            Sub { name: "any_float", check: check_any_float, quick: 250_000 },
            Sub { name: "f32_limit", check: check_f32_limit, quick: 16 },
            Sub { name: "long", check: check_long, quick: 7_500 },
        ],
        known: vec![],
    });
}
