//! How polynomials and integrals are written.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::Display;

type Map<T> = BTreeMap<usize, T>;

fn written<T: Prim>(what: &str, p: &dyn Display, terms: &Map<T>) -> Res {
    let got = p.to_string();
    let want = canonical(terms);
    ensure!(
        got == want,
        "{what} over {} is written as {:?} instead of {:?}",
        T::NAME,
        brief(&got),
        brief(&want)
    );
    Ok(())
}

fn note_one<T: Prim>(ctx: &mut Ctx, a: &Gp<T>) {
    ctx.note(|| format!("{}: {:?}", T::NAME, brief(&canonical(&a.terms))));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    ctx.label_if(a.is_zero(), "zero");
    ctx.label_if(
        a.terms.values().any(|c| c.is_neg() && T::proj(&-c.lift()).is_none() && !T::FLOAT),
        "a coefficient without a negation",
    );
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn free_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Display,
    SparsePolynomial<T>: Display,
{
    let mut a = gen_prim::<T>(s, 80);
    if s.chance(1, 4) {
        // Only constants, or all but constants.
        let keep = s.chance(1, 2);
        a.terms.retain(|d, _| (*d == 0) == keep);
    }
    note_one(ctx, &a);
    written("a dense polynomial", &a.dense(), &a.terms)?;
    written("a sparse polynomial", &a.sparse(), &a.terms)
}

fn huge_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<T>: Display,
    Monomial<T>: Display,
{
    let mag = gen_mag(s);
    let mut terms = Map::new();
    for _ in 0..s.usize(8) {
        let d = if s.chance(1, 2) { gen_big_degree(s) } else { gen_limit_degree(s, false) };
        terms.insert(d, gen_unit_or(s, 2, mag));
    }
    let a = Gp { terms, lead: 0 };
    note_one(ctx, &a);
    written("a sparse polynomial", &a.sparse(), &a.terms)?;
    for (d, c) in &a.terms {
        written("a monomial", &Monomial::new(*c, *d), &[(*d, *c)].into_iter().collect())?;
    }
    Ok(())
}

fn fixed_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    LinearBinomial<T>: Display,
    QuadraticTrinomial<T>: Display,
    Monomial<T>: Display,
{
    let mag = gen_mag(s);
    let a: Gp<T> = Gp {
        terms: (0..3).map(|d| (d, gen_unit_or(s, 3, mag))).collect(),
        lead: 0,
    };
    note_one(ctx, &a);
    written("a trinomial", &quad(&a), &a.terms)?;
    let low: Map<T> = a.terms.range(..2).map(|(d, c)| (*d, *c)).collect();
    written("a binomial", &lin(&a), &low)?;
    for (d, c) in &a.terms {
        written("a monomial", &Monomial::new(*c, *d), &[(*d, *c)].into_iter().collect())?;
    }
    Ok(())
}

/// "C" or a polynomial and "+ C".
fn integral_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Display + FreeSizePolynomial<T> + Evaluable<T>,
    SparsePolynomial<T>: Display + FreeSizePolynomial<T> + Evaluable<T>,
    Integral<T, Polynomial<T>>: Display,
    Integral<T, SparsePolynomial<T>>: Display,
{
    let mut a = gen_prim::<T>(s, 30);
    if s.chance(1, 4) {
        a.terms.clear();
    }
    note_one(ctx, &a);
    let want = if a.is_zero() { "C".to_string() } else { canonical(&a.terms) + " + C" };
    let got = Integral::new(a.dense()).to_string();
    ensure!(got == want, "the integral of a dense polynomial over {} is written as {got:?} instead of {want:?}", T::NAME);
    let got = Integral::new(a.sparse()).to_string();
    ensure!(got == want, "the integral of a sparse polynomial over {} is written as {got:?} instead of {want:?}", T::NAME);
    Ok(())
}

/// Integrals as the library makes them.
fn integrated(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = *s.pick(&[Mag::Tiny, Mag::Small]);
    let a = gen_gp::<i64>(s, 12, mag);
    note_one(ctx, &a);
    // Multiples, so that the quotients are exact.
    let scaled: Map<i64> = a.terms.iter().map(|(d, c)| (*d, c * (*d as i64 + 1))).collect();
    let want: Map<i64> = a.terms.iter().map(|(d, c)| (*d + 1, *c)).collect();
    let want = if a.is_zero() { "C".to_string() } else { canonical(&want) + " + C" };
    let g = Gp { terms: scaled, lead: a.lead };
    let got = g.dense().integral().to_string();
    ensure!(got == want, "dense: {got:?} instead of {want:?}");
    let got = g.sparse().integral().to_string();
    ensure!(got == want, "sparse: {got:?} instead of {want:?}");
    Ok(())
}

fn check_free(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; free_t(s, ctx))
}

fn check_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; huge_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; fixed_t(s, ctx))
}

fn check_integral(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; integral_t(s, ctx))
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_free(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C10",
        rule: "cases are polynomials over the 14 primitive types, with values from the whole of the type; non-trivial: at least two non-zero terms",
        assumptions: &[
            "floats are finite",
            "numbers are written as the standard library writes them without formatting options",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense_sparse", check: check_free, quick: 1_920_000 },
            Sub { name: "huge_degrees", check: check_huge, quick: 1_920_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 2_880_000 },
            Sub { name: "integrals", check: check_integral, quick: 1_440_000 },
            Sub { name: "integrated", check: integrated, quick: 1_440_000 },
            Sub { name: "long", check: check_long, quick: 18_000 },
        ],
        known: vec![],
    });
}
