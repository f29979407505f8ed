//! Roots and factors of monomials, binomials and trinomials.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::bigint::BigInt;
use num::complex::Complex;
use num::rational::Ratio;
use num::traits::{One, Signed, ToPrimitive, Zero};
use rustnomial::*;
use std::cmp::Ordering;
use std::num::Wrapping;

// ---------------------------------------------------------------------------------------------
// Degree zero and one.

/// Types whose binomials have roots.
trait HasRoot: SRing {
    fn binomial_root(a: Self, b: Self) -> Roots<Self>;
    fn monomial_root(c: Self, d: usize) -> Roots<Self>;
}

macro_rules! has_root {
    ($($T:ty)*) => {$(
        impl HasRoot for $T {
            fn binomial_root(a: Self, b: Self) -> Roots<Self> {
                LinearBinomial::new([a, b]).root()
            }
            fn monomial_root(c: Self, d: usize) -> Roots<Self> {
                Monomial::new(c, d).root()
            }
        }
    )*};
}
has_root! { i8 i16 i32 i64 i128 isize f32 f64 Gf<7> Gf<1000003> Ratio<i128> Wrapping<i32> }

fn linear_t<T: HasRoot>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = gen_mag(s);
    let a = if s.chance(1, 6) { T::zero() } else { T::gen(s, mag) };
    let mut b = if s.chance(1, 6) { T::zero() } else { T::gen(s, mag) };
    if s.chance(1, 2) {
        // A root which the type can represent.
        let r = T::gen(s, Mag::Small);
        if let Some(v) = T::proj(&-(a.lift() * r.lift())) {
            b = v;
        }
    }
    ctx.note(|| format!("{}: root of ({a:?})x + ({b:?})", T::NAME));
    if !T::MODULAR && (T::proj(&-b.lift()).is_none() || T::proj(&-a.lift()).is_none()) {
        return Err(Bad::Discard);
    }
    let got = T::binomial_root(a, b);
    match (a.is_zero(), b.is_zero()) {
        (true, true) => ensure!(got == Roots::InfiniteRoots, "the root of 0 over {} is {got:?}", T::NAME),
        (true, false) => ensure!(got == Roots::NoRoots, "the root of {b:?} over {} is {got:?}", T::NAME),
        _ => {
            ctx.nontrivial();
            let Roots::OneRealRoot(r) = got else {
                return fail(format!("the root over {} is {got:?}", T::NAME));
            };
            let modular = T::MODULAR && T::NAME != "Gf(p)";
            if modular {
                // Not a field: only that it is there.
            } else if T::MODULAR || T::NAME.starts_with("Ratio") {
                ensure!((a * r + b).is_zero(), "{r:?} is not a root over {}", T::NAME);
            } else {
                let exact = -b.lift() / a.lift();
                let off = (r.lift() - &exact).abs();
                if T::FLOAT {
                    // Both are multiples of 1/8 with few digits: one rounded division.
                    let eps = if T::NAME == "f32" { 1e-6 } else { 1e-15 };
                    ensure!(
                        off <= exact.abs() * Q::from_float(eps).unwrap(),
                        "{r:?} is not the root over {}",
                        T::NAME
                    );
                } else {
                    // Exact if it is an integer, and else rounded to one of its neighbours.
                    ctx.label_if(exact.is_integer(), "integer root");
                    ensure!(off < Q::one(), "{r:?} is not the root {exact} over {}", T::NAME);
                }
            }
        }
    }
    let d = if s.chance(1, 3) { 0 } else { gen_big_degree(s) };
    let got = T::monomial_root(a, d);
    let want = match (a.is_zero(), d) {
        (true, _) => Roots::InfiniteRoots,
        (false, 0) => Roots::NoRoots,
        _ => Roots::OneRealRoot(T::zero()),
    };
    ensure!(got == want, "the root of ({a:?})x^{d} over {} is {got:?} instead of {want:?}", T::NAME);
    Ok(())
}

fn check_linear(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, f64, i8, i16, i64, i128, isize, f32, Gf<7>, Gf<1000003>, Ratio<i128>, Wrapping<i32>];
        linear_t(s, ctx))
}

// ---------------------------------------------------------------------------------------------
// Degree two.

type CLin<T> = LinearBinomial<Complex<T>>;

trait HasRoots: SRing {
    fn roots(c: [Self; 3]) -> Roots<Self>;
    fn discriminant(c: [Self; 3]) -> Self;
    fn real_factors(c: [Self; 3]) -> Option<(Self, LinearBinomial<Self>, LinearBinomial<Self>)>;
    fn complex_factors(c: [Self; 3]) -> (Self, CLin<Self>, CLin<Self>);
}

macro_rules! has_roots {
    ($($T:ty)*) => {$(
        impl HasRoots for $T {
            fn roots(c: [Self; 3]) -> Roots<Self> {
                QuadraticTrinomial::new(c).roots()
            }
            fn discriminant(c: [Self; 3]) -> Self {
                QuadraticTrinomial::new(c).discriminant()
            }
            fn real_factors(c: [Self; 3]) -> Option<(Self, LinearBinomial<Self>, LinearBinomial<Self>)> {
                QuadraticTrinomial::new(c).real_factors()
            }
            fn complex_factors(c: [Self; 3]) -> (Self, CLin<Self>, CLin<Self>) {
                QuadraticTrinomial::new(c).complex_factors()
            }
        }
    )*};
}
has_roots! { i16 i32 i64 i128 isize f32 f64 }

/// The discriminant, if no step on the way to it and to the roots overflows.
fn disc<T: Coef>(c: &[T; 3]) -> Option<Q> {
    let [a, b, c] = [c[0].lift(), c[1].lift(), c[2].lift()];
    let fits = |q: &Q| T::proj(q).is_some() && T::proj(&-q).is_some();
    let bb = &b * &b;
    let ac4 = qi(4) * &a * &c;
    let d = &bb - &ac4;
    let all = [&b, &c, &bb, &(&a * &c), &ac4, &(&bb + ac4.abs()), &(qi(2) * &a), &d];
    if all.iter().all(|q| fits(q)) {
        Some(d)
    } else {
        None
    }
}

fn show3<T: Coef>(c: &[T; 3]) -> String {
    format!("{} ({:?})x^2 + ({:?})x + ({:?})", T::NAME, c[0], c[1], c[2])
}

/// A leading coefficient of zero leaves a binomial.
fn degenerate<T: HasRoots + HasRoot>(c: [T; 3]) -> Res {
    let (got, want) = (T::roots(c), T::binomial_root(c[1], c[2]));
    ensure!(got == want, "the roots of {} are {got:?}, but as a binomial it has {want:?}", show3(&c));
    let f = T::real_factors(c);
    ensure!(f.is_none(), "{} has two linear factors: {f:?}", show3(&c));
    Ok(())
}

/// The factors are the ones of the roots.
fn factors<T: HasRoots>(c: [T; 3], roots: &Roots<T>) -> Res {
    let real = T::real_factors(c);
    let (lead, f, g) = T::complex_factors(c);
    let (one, zero) = (T::one(), T::zero());
    let pair = |f: &CLin<T>, g: &CLin<T>| [f.coefficients, g.coefficients];
    ensure!(lead == c[0], "complex_factors of {} starts with {lead:?}", show3(&c));
    let shown = format!("{real:?}");
    let (p, q, want_real) = match roots {
        Roots::TwoRealRoots(r, t) => {
            let z = |v: T| Complex::new(zero - v, zero);
            (z(*r), z(*t), Some((c[0], [one, zero - *r], [one, zero - *t])))
        }
        Roots::TwoComplexRoots(r, t) => {
            let z = |v: &Complex<T>| Complex::new(zero - v.re, zero - v.im);
            (z(r), z(t), None)
        }
        _ => return fail(format!("the roots of {} are {roots:?}", show3(&c))),
    };
    let u = Complex::new(one, zero);
    let got = pair(&f, &g);
    ensure!(
        got == [[u, p], [u, q]] || got == [[u, q], [u, p]],
        "complex_factors of {} are {f:?} and {g:?} for the roots {roots:?}",
        show3(&c)
    );
    let got = real.map(|(l, f, g)| (l, f.coefficients, g.coefficients));
    let swapped = want_real.map(|(l, f, g)| (l, g, f));
    ensure!(
        got == want_real || got == swapped,
        "real_factors of {} are {shown} for the roots {roots:?}",
        show3(&c)
    );
    Ok(())
}

fn isqrt(q: &Q) -> BigInt {
    q.abs().to_integer().sqrt()
}

/// Integer coefficients.
fn int_t<T: HasRoots + HasRoot>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = *s.pick(&[Mag::Tiny, Mag::Small, Mag::Mid, Mag::Full]);
    let mut c = [T::gen(s, mag), T::gen(s, mag), T::gen(s, mag)];
    let mut known = None;
    if s.chance(2, 3) {
        // From its roots.
        let (a, r, t) = (T::gen(s, Mag::Small), T::gen(s, mag), T::gen(s, mag));
        let t = if s.chance(1, 6) { r } else { t };
        let (qa, qr, qt) = (a.lift(), r.lift(), t.lift());
        let b = T::proj(&(-&qa * (&qr + &qt)));
        let k = T::proj(&(&qa * &qr * &qt));
        if let (Some(b), Some(k)) = (b, k) {
            c = [a, b, k];
            known = Some(if qr > qt { (r, t) } else { (t, r) });
        }
    }
    let bits = 8 * std::mem::size_of::<T>();
    if s.chance(1, 8) {
        // Powers of two and their neighbours.
        let mut special = |s: &mut Src| {
            let v = pow2(s.usize(bits)) + qi(s.range(-1, 2));
            let v = if s.chance(1, 5) { qi(s.range(-1, 2)) } else { v };
            T::proj(&if s.chance(1, 2) { -v } else { v }).unwrap_or_else(T::one)
        };
        c = [special(s), special(s), special(s)];
        known = None;
    } else if s.chance(1, 6) {
        // A discriminant close to a square, of any size.
        let m = T::gen(s, Mag::Full).lift().abs().to_integer().sqrt();
        let m = m >> s.usize(bits / 2);
        let b = BigInt::from(s.range(-5, 6));
        let d = &m * &m + s.range(-5, 6);
        let d = if s.chance(1, 4) { -d } else { d };
        let k: BigInt = (&b * &b - d) / 4;
        let (a, b, k) = if s.chance(1, 2) { (1, b, k) } else { (-1, -b, -k) };
        if let (Some(b), Some(k)) = (T::proj(&Q::from_integer(b)), T::proj(&Q::from_integer(k))) {
            c = [T::proj(&qi(a)).unwrap(), b, k];
            known = None;
        }
    }
    // As small as it has to be.
    while disc(&c).is_none() {
        known = None;
        c = [c[0].halve(), c[1].halve(), c[2].halve()];
    }
    ctx.note(|| show3(&c));
    let d = disc(&c).unwrap();
    let got_d = T::discriminant(c);
    ensure!(got_d.lift() == d, "the discriminant of {} is {got_d:?} instead of {d}", show3(&c));
    if c[0].is_zero() {
        ctx.label("no degree 2 term");
        return degenerate(c);
    }
    ctx.nontrivial();
    let roots = T::roots(c);
    let (qa, qb) = (c[0].lift(), c[1].lift());
    let two_a = qi(2) * &qa;
    let axis = -&qb / &two_a;
    // Half of the distance of the roots is the square root of this.
    let square = d.abs() / (&two_a * &two_a);
    // `v` is middle + sign * sqrt(square): exactly if that is whole, and else within one.
    let near = |v: T, middle: &Q, sign: i64| {
        let v = v.lift();
        // The sign of sqrt(square) - q.
        let above = |q: &Q| if q.is_negative() { Ordering::Greater } else { square.cmp(&(q * q)) };
        let root = Q::from_integer(isqrt(&d)) / two_a.abs();
        let whole = &root * &root == square && (middle + qi(sign) * &root).is_integer();
        let off = (&v - middle) * qi(sign);
        if whole {
            off == root
        } else {
            above(&(&off - qi(1))) == Ordering::Greater && above(&(&off + qi(1))) == Ordering::Less
        }
    };
    match &roots {
        Roots::TwoRealRoots(r, t) => {
            ensure!(!d.is_negative(), "{} has the roots {roots:?} although its discriminant is {d}", show3(&c));
            ensure!(r.lift() >= t.lift(), "the roots {roots:?} of {} are not in order", show3(&c));
            ensure!(
                near(*r, &axis, 1) && near(*t, &axis, -1),
                "the roots of {} are {roots:?}",
                show3(&c)
            );
        }
        Roots::TwoComplexRoots(r, t) => {
            ctx.label("complex roots");
            ensure!(d.is_negative(), "{} has the roots {roots:?} although its discriminant is {d}", show3(&c));
            ensure!(r.re == t.re && r.im == T::zero() - t.im, "the roots {roots:?} of {} are not conjugate", show3(&c));
            let im = if r.im.lift().is_negative() { t.im } else { r.im };
            let off = (r.re.lift() - &axis).abs();
            let re_ok = off < qi(1) && (off.is_zero() || !axis.is_integer());
            ensure!(
                re_ok && near(im, &qi(0), 1),
                "the roots of {} are {roots:?}",
                show3(&c)
            );
        }
        _ => return fail(format!("the roots of {} are {roots:?}", show3(&c))),
    }
    if let Some((r, t)) = known {
        ctx.label("integer roots");
        ctx.label_if(r == t, "double root");
        ctx.label_if(qa.is_negative(), "negative leading coefficient");
        let want = Roots::TwoRealRoots(r, t);
        ensure!(roots == want, "the roots of {} are {roots:?} instead of {want:?}", show3(&c));
    }
    factors(c, &roots)
}

fn check_int(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i16, i128, isize]; int_t(s, ctx))
}

/// Floats for which the discriminant is exact, so that its sign decides.
fn exact_float_t<T: HasRoots + HasRoot>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mag = *s.pick(&[Mag::Tiny, Mag::Small, Mag::Mid]);
    let mut c = [T::gen(s, mag), T::gen(s, mag), T::gen(s, mag)];
    let mut known = None;
    if s.chance(1, 2) {
        let (a, r, t) = (T::gen(s, Mag::Tiny), T::gen(s, mag), T::gen(s, mag));
        let t = if s.chance(1, 4) { r } else { t };
        let (qa, qr, qt) = (a.lift(), r.lift(), t.lift());
        let b = T::proj(&(-&qa * (&qr + &qt)));
        let k = T::proj(&(&qa * &qr * &qt));
        if let (Some(b), Some(k)) = (b, k) {
            c = [a, b, k];
            known = Some(if qr > qt { (r, t) } else { (t, r) });
        }
    }
    ctx.note(|| show3(&c));
    let Some(d) = disc(&c) else { return Err(Bad::Discard) };
    let got_d = T::discriminant(c);
    ensure!(got_d.lift() == d, "the discriminant of {} is {got_d:?} instead of {d}", show3(&c));
    if c[0].is_zero() {
        return degenerate(c);
    }
    ctx.nontrivial();
    let roots = T::roots(c);
    let real = !d.is_negative();
    ctx.label_if(real, "real roots");
    ctx.label_if(!real, "complex roots");
    ctx.label_if(d.is_zero(), "double root");
    ensure!(
        matches!(&roots, Roots::TwoRealRoots(..)) == real && matches!(&roots, Roots::TwoComplexRoots(..)) != real,
        "the roots of {} are {roots:?} although the discriminant is {d}",
        show3(&c)
    );
    vieta(&c, &roots)?;
    if let (Some((r, t)), Roots::TwoRealRoots(p, q)) = (known, &roots) {
        let scale = r.lift().abs() + t.lift().abs();
        let eps = Q::from_float(if T::NAME == "f32" { 1e-5 } else { 1e-13 }).unwrap();
        ensure!(
            (p.lift() - r.lift()).abs() <= &eps * &scale && (q.lift() - t.lift()).abs() <= &eps * &scale,
            "the roots of {} are {roots:?} instead of {r:?} and {t:?}",
            show3(&c)
        );
    }
    factors(c, &roots)
}

/// The sum and the product of the roots are right, up to rounding; real roots are in order.
fn vieta<T: HasRoots>(c: &[T; 3], roots: &Roots<T>) -> Res {
    let [a, b, k] = [c[0].lift(), c[1].lift(), c[2].lift()];
    let (sum, product) = (-&b / &a, &k / &a);
    let scale = &sum * &sum + product.abs();
    let eps = Q::from_float(if T::NAME == "f32" { 1e-5 } else { 1e-13 }).unwrap();
    let (got_sum, got_product) = match roots {
        Roots::TwoRealRoots(r, t) => {
            ensure!(r.lift() >= t.lift(), "the roots {roots:?} of {} are not in order", show3(c));
            (r.lift() + t.lift(), r.lift() * t.lift())
        }
        Roots::TwoComplexRoots(r, t) => {
            ensure!(r.re == t.re && r.im == T::zero() - t.im, "the roots {roots:?} of {} are not conjugate", show3(c));
            (qi(2) * r.re.lift(), r.re.lift() * r.re.lift() + r.im.lift() * r.im.lift())
        }
        _ => return fail(format!("the roots of {} are {roots:?}", show3(c))),
    };
    let (ds, dp) = (got_sum - sum, got_product - product);
    ensure!(
        &ds * &ds <= &eps * &eps * &scale && dp.abs() <= &eps * &scale,
        "the roots {roots:?} of {} have the wrong sum or product (off by {:e} and {:e})",
        show3(c),
        ds.to_f64().unwrap_or(f64::NAN),
        dp.to_f64().unwrap_or(f64::NAN)
    );
    Ok(())
}

/// Floats with random digits.
fn float(s: &mut Src, ctx: &mut Ctx) -> Res {
    let e = [2, 20, 100][s.usize(3)];
    let c = [gen_mid_f64(s, e), gen_mid_f64(s, e), gen_mid_f64(s, e)];
    ctx.note(|| show3(&c));
    if c[0] == 0.0 {
        return degenerate(c);
    }
    ctx.nontrivial();
    let roots = f64::roots(c);
    vieta(&c, &roots)?;
    // Which kind of roots it has, if this is not a matter of rounding.
    let [a, b, k] = [c[0].lift(), c[1].lift(), c[2].lift()];
    let (bb, ac4) = (&b * &b, qi(4) * a * k);
    let d = &bb - &ac4;
    let got = f64::discriminant(c);
    let margin = (&bb + ac4.abs()) * Q::from_float(1e-14).unwrap();
    ensure!((got.lift() - &d).abs() <= margin, "the discriminant of {} is {got:e}", show3(&c));
    if d.abs() > margin {
        ensure!(
            matches!(roots, Roots::TwoRealRoots(..)) == d.is_positive(),
            "the roots of {} are {roots:?} although the discriminant is about {:e}",
            show3(&c),
            d.to_f64().unwrap_or(f64::NAN)
        );
        ctx.label("far from a double root");
    }
    factors(c, &roots)
}

fn check_exact_float(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [f64, f32]; exact_float_t(s, ctx))
}

fn main() {
    harness::engine::main(Property {
        id: "C14",
        rule: "cases are coefficients of a monomial, a binomial or a trinomial, half of them made from chosen roots; non-trivial: the leading coefficient is not zero",
        assumptions: &[
            "integers: the squares and products in the discriminant do not overflow",
            "floats are finite, with binary exponents of at most 100 in magnitude; errors of up to 1e-13 (f32: 1e-5), relative to the size of the roots, are rounding",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "linear", check: check_linear, quick: 900_000 },
            Sub { name: "quadratic_integers", check: check_int, quick: 900_000 },
            Sub { name: "quadratic_exact_floats", check: check_exact_float, quick: 480_000 },
            Sub { name: "quadratic_floats", check: float, quick: 360_000 },
        ],
        known: vec![],
    });
}
