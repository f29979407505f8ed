//! Conversions to a wider coefficient type.

use harness::coef::*;
use harness::engine::*;
use harness::ensure;
use harness::model::*;
use rustnomial::*;
use std::collections::BTreeMap;

type Map<T> = BTreeMap<usize, T>;

fn agree<A: Prim, B: Prim, P: Stored<B>>(what: &str, got: &P, from: &Map<A>) -> Res {
    let got = nonzero(got);
    let want: Map<A> = from.iter().filter(|(_, c)| !c.is_zero()).map(|(d, c)| (*d, *c)).collect();
    let same = got.len() == want.len()
        && got.iter().zip(&want).all(|((d, b), (e, a))| d == e && b.lift() == a.lift());
    ensure!(
        same,
        "{what} from {} to {} turns {} into {}",
        A::NAME,
        B::NAME,
        show_map(&want),
        show_map(&got)
    );
    Ok(())
}

fn note_one<A: Prim, B: Prim>(ctx: &mut Ctx, a: &Gp<A>) {
    ctx.note(|| format!("{} to {}: {}", A::NAME, B::NAME, brief(&canonical(&a.terms))));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn free<A: Prim, B: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<B>: From<Polynomial<A>>,
    SparsePolynomial<B>: From<SparsePolynomial<A>>,
{
    let a = gen_prim::<A>(s, 60);
    note_one::<A, B>(ctx, &a);
    agree::<A, B, _>("Polynomial::from", &Polynomial::<B>::from(a.dense()), &a.terms)?;
    agree::<A, B, _>("SparsePolynomial::from", &SparsePolynomial::<B>::from(a.sparse()), &a.terms)
}

fn fixed<A: Prim, B: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<B>: From<SparsePolynomial<A>>,
    Monomial<B>: From<Monomial<A>>,
    LinearBinomial<B>: From<LinearBinomial<A>>,
    QuadraticTrinomial<B>: From<QuadraticTrinomial<A>>,
{
    let mag = gen_mag(s);
    let a: Gp<A> = Gp {
        terms: (0..3).map(|d| (d, gen_unit_or(s, 2, mag))).collect(),
        lead: 0,
    };
    note_one::<A, B>(ctx, &a);
    let low: Map<A> = a.terms.range(..2).map(|(d, c)| (*d, *c)).collect();
    agree::<A, B, _>("QuadraticTrinomial::from", &QuadraticTrinomial::<B>::from(quad(&a)), &a.terms)?;
    agree::<A, B, _>("LinearBinomial::from", &LinearBinomial::<B>::from(lin(&a)), &low)?;
    let d = if s.chance(1, 2) { gen_big_degree(s) } else { gen_limit_degree(s, false) };
    let c = a.terms[&0];
    let one: Map<A> = [(d, c)].into_iter().collect();
    agree::<A, B, _>("Monomial::from", &Monomial::<B>::from(Monomial::new(c, d)), &one)?;
    let mut terms = a.terms.clone();
    terms.insert(d, c);
    let g = Gp { terms, lead: 0 };
    agree::<A, B, _>("SparsePolynomial::from", &SparsePolynomial::<B>::from(g.sparse()), &g.terms)
}

macro_rules! pairs {
    ($f:ident, $s:ident, $ctx:ident; $($A:ty => $($B:ty)+;)+) => {{
        const TABLE: &[Check] = &[$($($f::<$A, $B>,)+)+];
        let i = $s.usize(TABLE.len());
        TABLE[i]($s, $ctx)
    }};
}

macro_rules! all_pairs {
    ($f:ident, $s:ident, $ctx:ident) => {
        pairs!($f, $s, $ctx;
            u8 => u16 u32 u64 u128 i16 i32 i64 i128 f32 f64;
            u16 => u32 u64 u128 i32 i64 i128 f32 f64;
            u32 => u64 u128 i64 i128 f64;
            u64 => u128 i128;
            i8 => i16 i32 i64 i128 f32 f64;
            i16 => i32 i64 i128 f32 f64;
            i32 => i64 i128 f64;
            i64 => i128;
            f32 => f64;
        )
    };
}

fn check_free(s: &mut Src, ctx: &mut Ctx) -> Res {
    all_pairs!(free, s, ctx)
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    all_pairs!(fixed, s, ctx)
}

/// Dense and sparse polynomials from each other and from lists of numbers.
fn shapes<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen_prim::<T>(s, 60);
    note_one::<T, T>(ctx, &a);
    let v = a.dense_vec();
    agree::<T, T, _>("Polynomial::from a list", &Polynomial::from(v.clone()), &a.terms)?;
    agree::<T, T, _>("SparsePolynomial::from a list", &SparsePolynomial::from(v), &a.terms)?;
    let c: T = gen_unit_or(s, 2, Mag::Full);
    let one: Map<T> = [(0, c)].into_iter().collect();
    agree::<T, T, _>("Monomial::from a number", &Monomial::from(c), &one)
}

fn check_shapes(s: &mut Src, ctx: &mut Ctx) -> Res {
    harness::pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; shapes(s, ctx))
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_free(s, ctx)
}

fn check_shapes_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_shapes(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C13",
        rule: "cases are polynomials over the narrower type of one of the 41 pairs, with values from the whole of the type; non-trivial: at least two non-zero terms",
        assumptions: &["floats are finite"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense_sparse", check: check_free, quick: 3_200_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 3_200_000 },
            Sub { name: "lists_and_numbers", check: check_shapes, quick: 2_400_000 },
            Sub { name: "long", check: check_long, quick: 12_000 },
            Sub { name: "lists_long", check: check_shapes_long, quick: 12_000 },
        ],
        known: vec![],
    });
}
