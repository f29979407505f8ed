//! Integrals.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::traits::{Signed, ToPrimitive, Zero};
use rustnomial::*;
use std::collections::BTreeMap;

/// The antiderivative without a constant, if every degree that matters is representable.
fn integrated<T: Ring>(terms: &BTreeMap<usize, T>) -> Option<BTreeMap<usize, T>> {
    let mut want = BTreeMap::new();
    for (d, c) in terms.iter().filter(|(_, c)| !c.is_zero()) {
        let v = *c / from_degree::<T>(*d + 1)?;
        if !v.is_zero() {
            want.insert(*d + 1, v);
        }
    }
    Some(want)
}

fn note_one<T: Coef + Zero>(ctx: &mut Ctx, a: &Gp<T>) {
    ctx.note(|| format!("{}: integral of {}", T::NAME, a.show()));
    ctx.label_if(a.has_stored_zero(), "stored zeros");
    ctx.label_if(a.is_zero(), "zero");
    if a.terms.values().filter(|c| !c.is_zero()).count() >= 2 {
        ctx.nontrivial();
    }
}

fn same_integral<T: Ring, P>(
    what: &str,
    got: Result<Integral<T, P>, String>,
    want: &Option<BTreeMap<usize, T>>,
    c: T,
) -> Res
where
    P: Stored<T> + SizedPolynomial<T> + FreeSizePolynomial<T> + Evaluable<T> + Clone,
{
    match (got, want) {
        // No product overflows, so that the overflow is of the degree, and without checks for
        // overflow there would be a wrong result.
        (Err(m), None) if m.contains("with overflow") => fail(format!(
            "{what} over {} overflows ({m}) instead of refusing a degree without exact representation",
            T::NAME
        )),
        (Err(_), None) => Ok(()),
        (Err(m), Some(_)) => fail(format!("{what} over {} panics: {m}", T::NAME)),
        (Ok(i), None) => fail(format!(
            "{what} over {} returns {} although a degree has no exact representation",
            T::NAME,
            show_map(&nonzero(i.inner()))
        )),
        (Ok(i), Some(w)) => {
            expect(what, i.inner(), w)?;
            let mut with_c = w.clone();
            if !c.is_zero() {
                with_c.insert(0, c);
            }
            expect(&format!("{what}.replace_c({c:?})"), &i.replace_c(c), &with_c)?;
            expect(&format!("{what} after replace_c"), i.inner(), w)
        }
    }
}

fn check_gp<T: Ring>(ctx: &mut Ctx, a: &Gp<T>, c: T, dense: bool) -> Res
where
    Polynomial<T>: Integrable<T, Polynomial<T>> + Evaluable<T>,
    SparsePolynomial<T>: Integrable<T, SparsePolynomial<T>> + Evaluable<T>,
    Monomial<T>: Integrable<T, SparsePolynomial<T>>,
{
    let want = integrated(&a.terms);
    ctx.label_if(want.is_none(), "degree not representable");
    if dense {
        let want = match a.degree() {
            Some(d) if !counts_to::<T>(d + 1) => None,
            _ => want.clone(),
        };
        let p = a.dense();
        same_integral("dense integral", catch(|| p.integral()), &want, c)?;
        ensure!(p.terms == a.dense_vec(), "dense integral changes the polynomial");
    }
    let p = a.sparse();
    same_integral("sparse integral", catch(|| p.integral()), &want, c)?;
    ensure!(p.terms == a.terms, "sparse integral changes the polynomial");
    for (d, k) in a.terms.iter().rev().take(2) {
        let one = integrated(&[(*d, *k)].into_iter().collect());
        same_integral("monomial integral", catch(|| Monomial::new(*k, *d).integral()), &one, c)?;
    }
    Ok(())
}

fn usual_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Integrable<T, Polynomial<T>> + Evaluable<T>,
    SparsePolynomial<T>: Integrable<T, SparsePolynomial<T>> + Evaluable<T>,
    Monomial<T>: Integrable<T, SparsePolynomial<T>>,
{
    let mag = gen_mag(s);
    let a = gen_gp::<T>(s, 140, mag);
    let c = T::gen(s, mag);
    note_one(ctx, &a);
    check_gp(ctx, &a, c, true)
}

fn limits_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, dense: bool) -> Res
where
    Polynomial<T>: Integrable<T, Polynomial<T>> + Evaluable<T>,
    SparsePolynomial<T>: Integrable<T, SparsePolynomial<T>> + Evaluable<T>,
    Monomial<T>: Integrable<T, SparsePolynomial<T>>,
{
    let mag = gen_mag(s);
    let mut a = gen_gp_limits::<T>(s, dense, mag);
    // Its degree plus one would not even be a usize.
    a.terms.remove(&usize::MAX);
    let c = T::gen(s, mag);
    note_one(ctx, &a);
    check_gp(ctx, &a, c, dense)
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Evaluable<T>,
    LinearBinomial<T>: Integrable<T, Polynomial<T>>,
    QuadraticTrinomial<T>: Integrable<T, Polynomial<T>>,
{
    let mag = gen_mag(s);
    let a = gen_fixed::<T>(s, 3, mag);
    let c = T::gen(s, mag);
    note_one(ctx, &a);
    let want = integrated(&a.terms);
    same_integral("trinomial integral", catch(|| quad(&a).integral()), &want, c)?;
    let low = integrated(&a.terms.range(..2).map(|(d, c)| (*d, *c)).collect());
    same_integral("binomial integral", catch(|| lin(&a).integral()), &low, c)
}

/// Any finite floats: each coefficient is one rounded quotient.
fn any_float_t<T: Ring>(s: &mut Src, ctx: &mut Ctx, gen: fn(&mut Src) -> T) -> Res
where
    Polynomial<T>: Integrable<T, Polynomial<T>> + Evaluable<T>,
    SparsePolynomial<T>: Integrable<T, SparsePolynomial<T>> + Evaluable<T>,
    Monomial<T>: Integrable<T, SparsePolynomial<T>>,
{
    let n = gen_len(s, 40);
    let a = Gp { terms: (0..n).map(|d| (d, gen(s))).collect(), lead: gen_lead(s) };
    let c = gen(s);
    note_one(ctx, &a);
    check_gp(ctx, &a, c, true)
}

/// The area between two points is the difference of the antiderivative there.
fn area_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Integrable<T, Polynomial<T>> + Evaluable<T>,
    SparsePolynomial<T>: Integrable<T, SparsePolynomial<T>> + Evaluable<T>,
    Monomial<T>: Integrable<T, SparsePolynomial<T>>,
    LinearBinomial<T>: Integrable<T, Polynomial<T>>,
    QuadraticTrinomial<T>: Integrable<T, Polynomial<T>>,
{
    let mag = gen_mag(s);
    let xmag = *s.pick(&[Mag::Tiny, Mag::Small]);
    let n = *s.pick(&[3, 3, 6, 12]);
    let mut a = gen_gp::<T>(s, n, mag);
    let mut pts = [T::gen(s, xmag), T::gen(s, xmag)];
    let mut fits = false;
    for _ in 0..140 {
        let Some(f) = integrated(&a.terms) else { return Err(Bad::Discard) };
        if pts.iter().all(|x| bounded::<T>(&f, *x)) {
            fits = true;
            break;
        }
        if s.chance(1, 3) {
            pts = pts.map(|x| x.halve());
        }
        a = a.halved(1);
    }
    if !fits {
        return Err(Bad::Discard);
    }
    let [mut x, mut y] = pts;
    if !T::SIGNED && x.lift() > y.lift() {
        std::mem::swap(&mut x, &mut y);
    }
    ctx.note(|| format!("{}: integral of {} from {x:?} to {y:?}", T::NAME, a.show()));
    ctx.label_if(x == y, "empty interval");
    if x != y && !a.is_zero() {
        ctx.nontrivial();
    }
    let area = |what: &str, terms: &BTreeMap<usize, T>, got: T| -> Res {
        let f: Model = integrated(terms).unwrap().iter().map(|(d, c)| (*d, c.lift())).collect();
        let (fx, fy) = (m_eval(&f, &x.lift()), m_eval(&f, &y.lift()));
        if T::FLOAT {
            let top = m_degree(&f).unwrap_or(0);
            let scale = m_eval(&m_abs(&f), &x.lift().abs()) + m_eval(&m_abs(&f), &y.lift().abs());
            let mant = if T::NAME == "f32" { 24 } else { 53 };
            let tol = scale * qu(6 * top + 30) / pow2(mant);
            ensure!(
                (got.lift() - (&fy - &fx)).abs() <= tol,
                "{what} is {got:?}, not close to {:?}",
                (fy - fx).to_f64()
            );
        } else {
            let want = T::proj(&(&fy - &fx)).ok_or(Bad::Discard)?;
            ensure!(got == want, "{what} over {} is {got:?} but should be {want:?}", T::NAME);
        }
        Ok(())
    };
    let d = |k: usize| a.terms.get(&k).copied().unwrap_or_else(T::zero);
    area("dense area", &a.terms, a.dense().integral().eval(x, y))?;
    area("sparse area", &a.terms, a.sparse().integral().eval(x, y))?;
    let low = |n: usize| -> BTreeMap<usize, T> { (0..n).map(|k| (k, d(k))).collect() };
    // Parts of the polynomial may leave the domain although the whole does not.
    let safe = |t: &BTreeMap<usize, T>| {
        let f = integrated(t).unwrap();
        let m: Model = f.iter().map(|(d, c)| (*d, c.lift())).collect();
        bounded::<T>(&f, x)
            && bounded::<T>(&f, y)
            && (T::FLOAT || T::proj(&(m_eval(&m, &y.lift()) - m_eval(&m, &x.lift()))).is_some())
    };
    if safe(&low(2)) {
        let p = LinearBinomial::new([d(1), d(0)]);
        area("binomial area", &low(2), p.integral().eval(x, y))?;
    }
    if safe(&low(3)) {
        let p = QuadraticTrinomial::new([d(2), d(1), d(0)]);
        area("trinomial area", &low(3), p.integral().eval(x, y))?;
    }
    if let Some((k, c)) = a.terms.iter().next_back() {
        let one: BTreeMap<usize, T> = [(*k, *c)].into_iter().collect();
        if safe(&one) {
            area("monomial area", &one, Monomial::new(*c, *k).integral().eval(x, y))?;
        }
    }
    Ok(())
}

/// The antiderivative at x, with room for powers, stays inside of half of T.
fn bounded<T: Coef>(f: &BTreeMap<usize, T>, x: T) -> bool {
    let ax = x.lift().abs();
    let big = if ax < qi(1) { qi(1) } else { ax };
    let top = f.keys().next_back().copied().unwrap_or(0);
    let sum: Q = f.iter().map(|(d, c)| c.lift().abs() * q_pow(&big, *d)).sum();
    let unit = big == qi(1);
    let power = if unit { qi(1) } else { q_pow(&big, (2 * top).next_power_of_two()) };
    if T::FLOAT {
        return power < pow2(100) && sum < pow2(100);
    }
    [sum * qi(2), power].iter().all(|q| T::proj(q).is_some())
}

/// The largest degrees f32 counts to without gaps.
fn check_f32_limit(s: &mut Src, ctx: &mut Ctx) -> Res {
    let d = (1usize << 24) - 2 + s.usize(4);
    ctx.note(|| format!("f32: integral of 3x^{d} + 5x^2 + 7x"));
    ctx.nontrivial();
    let a = Gp::<f32> {
        terms: [(d, 3.0), (2, 5.0), (1, 7.0)].into_iter().collect(),
        lead: 0,
    };
    check_gp(ctx, &a, 1.0, true)
}

fn check_usual(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64]; usual_t(s, ctx))
}

fn check_dense_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64];
        limits_t(s, ctx, true))
}

fn check_sparse_limits(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64];
        limits_t(s, ctx, false))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64]; fixed_t(s, ctx))
}

fn check_area(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i8, i16, i128, u8, u16, u32, u64, u128, f32, f64]; area_t(s, ctx))
}

fn check_any_float(s: &mut Src, ctx: &mut Ctx) -> Res {
    if s.chance(1, 2) {
        any_float_t(s, ctx, gen_f32)
    } else {
        any_float_t(s, ctx, gen_f64)
    }
}

/// The same with long polynomials.
fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = pick_long(s);
    check_usual(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C06",
        rule: "cases are polynomials in random representations over 10 integer types, f32 and f64, with degrees around every limit of those types, constants of integration, and intervals; non-trivial: at least two non-zero terms (areas: a non-zero polynomial and a non-empty interval)",
        assumptions: &["areas: the antiderivative and the powers of both ends fit the coefficient type"],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "usual", check: check_usual, quick: 400_000 },
            Sub { name: "dense_limits", check: check_dense_limits, quick: 24_000 },
            Sub { name: "sparse_limits", check: check_sparse_limits, quick: 400_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 300_000 },
            Sub { name: "area", check: check_area, quick: 300_000 },
            Sub { name: "any_float", check: check_any_float, quick: 120_000 },
            Sub { name: "f32_limit", check: check_f32_limit, quick: 16 },
            Sub { name: "long", check: check_long, quick: 6_000 },
        ],
        known: vec![],
    });
}
