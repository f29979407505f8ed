//! Writing a polynomial and reading it back.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};
use std::str::FromStr;

type Map<T> = BTreeMap<usize, T>;

fn there_and_back<T: Prim, P>(what: &str, p: &P, want: &Map<T>) -> Res
where
    P: Display + FromStr + Stored<T> + PartialEq,
    P::Err: Debug,
{
    let text = p.to_string();
    let back = match P::from_str(&text) {
        Ok(b) => b,
        Err(e) => {
            return fail(format!(
                "{what}<{}>: {} is written as {:?}, which is refused with {e:?}",
                T::NAME,
                show_map(want),
                brief(&text)
            ))
        }
    };
    let got = nonzero(&back);
    let same = got.len() == want.len()
        && got.iter().zip(want).all(|((d, c), (e, k))| d == e && c.same_bits(*k));
    ensure!(
        same,
        "{what}<{}>: {} is written as {:?}, which reads as {}",
        T::NAME,
        show_map(want),
        brief(&text),
        show_map(&got)
    );
    ensure!(&back == p, "{what}<{}>: what is read back is not == to {}", T::NAME, show_map(want));
    let again = back.to_string();
    ensure!(
        again == text,
        "{what}<{}>: {:?} is written as {:?} after it was read",
        T::NAME,
        brief(&text),
        brief(&again)
    );
    Ok(())
}

fn nz<T: Prim>(terms: &Map<T>) -> Map<T> {
    terms.iter().filter(|(_, c)| !c.is_zero()).map(|(d, c)| (*d, *c)).collect()
}

fn note_one<T: Prim>(ctx: &mut Ctx, a: &Gp<T>) {
    ctx.note(|| format!("{}: {:?}", T::NAME, brief(&canonical(&a.terms))));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    ctx.label_if(a.is_zero(), "zero");
    ctx.label_if(
        a.terms.values().any(|c| !T::FLOAT && c.is_neg() && T::proj(&-c.lift()).is_none()),
        "a coefficient without a negation",
    );
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

trait Both: Display + FromStr<Err = err::PolynomialFromStringError> + PartialEq {}
impl<P: Display + FromStr<Err = err::PolynomialFromStringError> + PartialEq> Both for P {}

fn free_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Both,
    SparsePolynomial<T>: Both,
{
    let a = gen_prim::<T>(s, 100);
    note_one(ctx, &a);
    let want = nz(&a.terms);
    there_and_back("Polynomial", &a.dense(), &want)?;
    there_and_back("SparsePolynomial", &a.sparse(), &want)?;
    // Both types write the same and read what the other has written.
    let d = match Polynomial::<T>::from_str(&a.sparse().to_string()) {
        Ok(d) => d,
        Err(e) => return fail(format!("Polynomial refuses what SparsePolynomial writes: {e:?}")),
    };
    expect("the dense reading of a sparse polynomial", &d, &want)?;
    let d = match SparsePolynomial::<T>::from_str(&a.dense().to_string()) {
        Ok(d) => d,
        Err(e) => return fail(format!("SparsePolynomial refuses what Polynomial writes: {e:?}")),
    };
    expect("the sparse reading of a dense polynomial", &d, &want)
}

fn huge_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<T>: Both,
    Monomial<T>: Both,
{
    let mag = gen_mag(s);
    let mut terms = Map::new();
    for _ in 0..s.usize(8) {
        let d = if s.chance(1, 2) { gen_big_degree(s) } else { gen_limit_degree(s, false) };
        terms.insert(d, gen_unit_or(s, 2, mag));
    }
    let a = Gp { terms, lead: 0 };
    note_one(ctx, &a);
    there_and_back("SparsePolynomial", &a.sparse(), &nz(&a.terms))?;
    for (d, c) in &a.terms {
        let want = nz(&[(*d, *c)].into_iter().collect());
        there_and_back("Monomial", &Monomial::new(*c, *d), &want)?;
    }
    Ok(())
}

fn fixed_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    LinearBinomial<T>: Both,
    QuadraticTrinomial<T>: Both,
    Monomial<T>: Both,
{
    let mag = gen_mag(s);
    let a: Gp<T> = Gp {
        terms: (0..3).map(|d| (d, gen_unit_or(s, 3, mag))).collect(),
        lead: 0,
    };
    note_one(ctx, &a);
    there_and_back("QuadraticTrinomial", &quad(&a), &nz(&a.terms))?;
    let low: Map<T> = a.terms.range(..2).map(|(d, c)| (*d, *c)).collect();
    there_and_back("LinearBinomial", &lin(&a), &nz(&low))?;
    for (d, c) in &a.terms {
        let want = nz(&[(*d, *c)].into_iter().collect());
        there_and_back("Monomial", &Monomial::new(*c, *d), &want)?;
    }
    Ok(())
}

/// Every finite float, by its bits.
fn bits_t<T: Prim>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Both,
    SparsePolynomial<T>: Both,
{
    let n = s.urange(1, 6);
    let a: Gp<T> = Gp {
        terms: (0..n).map(|d| (d, T::any(s, Mag::Full))).collect(),
        lead: 0,
    };
    note_one(ctx, &a);
    let want = nz(&a.terms);
    there_and_back("Polynomial", &a.dense(), &want)?;
    there_and_back("SparsePolynomial", &a.sparse(), &want)
}

fn check_free(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; free_t(s, ctx))
}

fn check_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; huge_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, isize, u8, u16, u32, u64, u128, usize, f32, f64]; fixed_t(s, ctx))
}

fn check_bits(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [f64, f32, i128, u128]; bits_t(s, ctx))
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_free(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C12",
        rule: "cases are polynomials over the 14 primitive types, with values from the whole of the type; non-trivial: at least two non-zero terms",
        assumptions: &["floats are finite"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense_sparse", check: check_free, quick: 1_800_000 },
            Sub { name: "huge_degrees", check: check_huge, quick: 1_800_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 2_400_000 },
            Sub { name: "any_value", check: check_bits, quick: 2_400_000 },
            Sub { name: "long", check: check_long, quick: 9_000 },
        ],
        known: vec![],
    });
}
