//! Programs: long sequences of operations on several polynomials, which are kept densely, sparsely
//! and exactly at the same time.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use num::traits::Signed;
use rustnomial::*;
use std::collections::BTreeMap;
use std::fmt::Display;
use std::str::FromStr;

type Map<T> = BTreeMap<usize, T>;
type Pair<P> = (P, P);

type Collected<T> = (Polynomial<T>, SparsePolynomial<T>, [Result<(), TryAddError>; 2]);

macro_rules! collect {
    () => {
        fn collect(x: &Reg<Self>, y: &Reg<Self>, op: u64) -> Collected<Self> {
            use rustnomial::poly_math::{add_poly, mul_poly_vec, sub_poly};
            let (mut d, mut p) = (x.dense.clone(), x.sparse.clone());
            let (a, b) = (y.sparse.ordered_term_iter(), y.dense.ordered_term_iter());
            let r = match op {
                0 => [add_poly(a, &mut d), add_poly(b, &mut p)],
                1 => [sub_poly(a, &mut d), sub_poly(b, &mut p)],
                _ => {
                    let (u, v) = (x.dense.terms_as_vec(), x.sparse.terms_as_vec());
                    (d, p) = (Polynomial::zero(), SparsePolynomial::zero());
                    [mul_poly_vec(a, &u, &mut d), mul_poly_vec(b, &v, &mut p)]
                }
            };
            (d, p, r)
        }
    };
}

/// What needs negation, and is left out for unsigned types.
trait Prog: Prim {
    const LIMIT_BITS: usize;
    fn neg_dense(p: Polynomial<Self>) -> Polynomial<Self>;
    fn neg_sparse(p: SparsePolynomial<Self>) -> SparsePolynomial<Self>;
    fn div_sparse(
        p: &SparsePolynomial<Self>,
        d: &SparsePolynomial<Self>,
    ) -> Pair<SparsePolynomial<Self>>;
    fn rem_sparse(
        p: SparsePolynomial<Self>,
        d: SparsePolynomial<Self>,
        assign: bool,
    ) -> SparsePolynomial<Self>;
    /// Sums (0), differences (1) and products (2) of `x` and `y` through the functions that collect
    /// terms, from the terms of the other representation.
    fn collect(x: &Reg<Self>, y: &Reg<Self>, op: u64) -> Collected<Self>;
    /// The difference, found in one of four ways.
    fn subtract(x: Reg<Self>, y: Reg<Self>, variant: u64) -> (Polynomial<Self>, SparsePolynomial<Self>);
}

macro_rules! prog_signed {
    ($($t:ident $bits:literal)*) => {$(
        impl Prog for $t {
            const LIMIT_BITS: usize = $bits;
            collect!();
            fn neg_dense(p: Polynomial<Self>) -> Polynomial<Self> {
                -p
            }
            fn neg_sparse(p: SparsePolynomial<Self>) -> SparsePolynomial<Self> {
                -p
            }
            fn div_sparse(
                p: &SparsePolynomial<Self>,
                d: &SparsePolynomial<Self>,
            ) -> Pair<SparsePolynomial<Self>> {
                p.div_mod(d)
            }
            fn rem_sparse(
                p: SparsePolynomial<Self>,
                d: SparsePolynomial<Self>,
                assign: bool,
            ) -> SparsePolynomial<Self> {
                if assign {
                    let mut p = p;
                    p %= d;
                    p
                } else {
                    p % d
                }
            }
            fn subtract(
                x: Reg<Self>,
                y: Reg<Self>,
                variant: u64,
            ) -> (Polynomial<Self>, SparsePolynomial<Self>) {
                let (mut d, mut p) = (x.dense, x.sparse);
                match variant {
                    0 => (d - y.dense, p - y.sparse),
                    1 => {
                        d -= y.dense;
                        p -= y.sparse;
                        (d, p)
                    }
                    2 => (d - &y.dense, p - y.dense),
                    _ => {
                        d -= &y.dense;
                        p -= y.sparse;
                        (d, p)
                    }
                }
            }
        }
    )*};
}
prog_signed! { i8 6 i16 13 i32 29 i64 61 i128 125 f32 22 f64 51 }

macro_rules! prog_unsigned {
    ($($t:ident $bits:literal)*) => {$(
        impl Prog for $t {
            const LIMIT_BITS: usize = $bits;
            collect!();
            fn neg_dense(_: Polynomial<Self>) -> Polynomial<Self> {
                unreachable!()
            }
            fn neg_sparse(_: SparsePolynomial<Self>) -> SparsePolynomial<Self> {
                unreachable!()
            }
            fn div_sparse(
                _: &SparsePolynomial<Self>,
                _: &SparsePolynomial<Self>,
            ) -> Pair<SparsePolynomial<Self>> {
                unreachable!()
            }
            fn rem_sparse(
                _: SparsePolynomial<Self>,
                _: SparsePolynomial<Self>,
                _: bool,
            ) -> SparsePolynomial<Self> {
                unreachable!()
            }
            fn subtract(
                x: Reg<Self>,
                y: Reg<Self>,
                _: u64,
            ) -> (Polynomial<Self>, SparsePolynomial<Self>) {
                // There is no operator.
                let (mut d, mut p) = (x.dense, x.sparse);
                for (c, k) in y.dense.ordered_term_iter() {
                    d.try_sub_term(c, k).expect("try_sub_term");
                    p.try_sub_term(c, k).expect("try_sub_term");
                }
                (d, p)
            }
        }
    )*};
}
prog_unsigned! { u8 7 u16 14 u32 30 u64 62 u128 126 }

#[derive(Clone)]
struct Reg<T> {
    dense: Polynomial<T>,
    sparse: SparsePolynomial<T>,
    model: Model,
}

/// The exact quotient and remainder, if they and everything on the way are whole and within the limit.
fn exact_div(a: &Model, d: &Model, limit: &Q) -> Option<(Model, Model)> {
    let (&dd, dl) = d.iter().next_back()?;
    let mut r = a.clone();
    let mut q = Model::new();
    while let Some((&k, c)) = r.iter().next_back() {
        if k < dd {
            break;
        }
        let f = c / dl;
        if !f.is_integer() {
            return None;
        }
        let part: Model = d.iter().map(|(e, v)| (e + k - dd, v * &f)).collect();
        if m_norm1(&part) > *limit {
            return None;
        }
        q.insert(k - dd, f);
        r = m_sub(&r, &part);
        if m_norm1(&r) > *limit {
            return None;
        }
    }
    Some((q, r))
}

/// Products of more terms than this are left out: the exact ones would take too long.
const MAX_WORK: usize = 60_000;

fn lcm_to(n: usize) -> Q {
    let mut l: u128 = 1;
    for k in 1..=n as u128 {
        l = num::integer::lcm(l, k);
    }
    Q::from_integer(l.into())
}

fn program_t<T: Prog>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: Derivable<T>
        + Integrable<T, Polynomial<T>>
        + FreeSizePolynomial<T>
        + Evaluable<T>
        + Display
        + FromStr<Err = err::PolynomialFromStringError>
        + PartialEq,
    SparsePolynomial<T>: Derivable<T>
        + Integrable<T, SparsePolynomial<T>>
        + FreeSizePolynomial<T>
        + Evaluable<T>
        + Display
        + FromStr<Err = err::PolynomialFromStringError>
        + PartialEq,
{
    let limit = pow2(T::LIMIT_BITS);
    let max_degree = match s.long {
        0 => [70, 70, 70, 30, 120][s.usize(5)],
        n => n + 100,
    };
    let mag = *s.pick(&[Mag::Tiny, Mag::Tiny, Mag::Small]);
    let whole = |s: &mut Src, max: usize| {
        let mut g = gen_gp::<T>(s, max, mag);
        for c in g.terms.values_mut() {
            // Whole numbers, also of the floats.
            *c = T::proj(&c.lift().trunc()).unwrap_or_else(T::zero);
        }
        g
    };
    let mut regs: Vec<Reg<T>> = Vec::new();
    for _ in 0..3 {
        let max = [8, 8, 8, 40][s.usize(4)];
        let g = whole(s, max);
        regs.push(Reg { dense: g.dense(), sparse: g.sparse(), model: g.model() });
    }
    ctx.note(|| {
        let m = |i: usize| m_show(&regs[i].model);
        format!("{}: a = {}, b = {}, c = {}", T::NAME, m(0), m(1), m(2))
    });
    let steps = match s.weighted(&[3, 4, 2]) {
        0 => s.urange(1, 4),
        1 => s.urange(5, 15),
        _ if s.long > 0 => s.urange(5, 15),
        _ => s.urange(16, 50),
    };
    let mut done = 0;
    for _ in 0..steps {
        let i = s.usize(3);
        let j = s.usize(3);
        let name = |i: usize| ["a", "b", "c"][i];
        if s.chance(1, 4) {
            // A different way to store the same polynomial.
            let k = if s.chance(1, 4) { gen_lead(s) + 1 } else { s.urange(1, 3) };
            let mut v = vec![T::zero(); k];
            v.extend(&regs[i].dense.terms);
            regs[i].dense.terms = v;
            let d = s.usize(max_degree);
            regs[i].sparse.terms.entry(d).or_insert_with(T::zero);
            ctx.note(|| format!("zeros stored in {}", name(i)));
            ctx.label("stored zeros");
        }
        let x = regs[i].clone();
        let y = regs[j].clone();
        let sum_ok = m_norm1(&x.model) + m_norm1(&y.model) <= limit;
        let product_ok = m_norm1(&x.model) * m_norm1(&y.model) <= limit
            && m_degree(&x.model).unwrap_or(0) + m_degree(&y.model).unwrap_or(0) <= max_degree
            && x.model.len() * y.model.len() <= MAX_WORK;
        let kind = s.weighted(&[2, 4, 4, 4, 2, 2, 2, 2, 2, 2, 2, 3, 2, 2, 2, 2, 1, 2, 2]);
        let variant = s.below(4);
        if kind == 0 {
            continue;
        }
        let operation = [
            "add", "subtract", "multiply", "negate", "scale", "divide by a number", "shift left", "shift right",
            "derive", "integrate", "divide", "pow", "add terms", "copy terms", "copy text", "replace", "product rule", "collect",
        ][kind - 1];
        ctx.note(|| format!("{operation} ({} {}, variant {variant})", name(i), name(j)));
        let (what, dense, sparse, model): (String, Polynomial<T>, SparsePolynomial<T>, Model) = match kind {
            1 => {
                if !sum_ok {
                    continue;
                }
                let (d, p) = if variant % 2 == 0 {
                    (x.dense + y.dense, x.sparse + y.sparse)
                } else {
                    let (mut d, mut p) = (x.dense, x.sparse);
                    d += y.dense;
                    p += y.sparse;
                    (d, p)
                };
                (format!("{} + {}", name(i), name(j)), d, p, m_add(&x.model, &y.model))
            }
            2 => {
                let m = m_sub(&x.model, &y.model);
                if !sum_ok || (!T::SIGNED && m.values().any(|c| c.is_negative())) {
                    continue;
                }
                let (d, p) = T::subtract(x, y, variant);
                (format!("{} - {}", name(i), name(j)), d, p, m)
            }
            3 => {
                if !product_ok {
                    continue;
                }
                let (d, p) = match variant {
                    0 => (x.dense * y.dense, x.sparse * y.sparse),
                    1 => (&x.dense * &y.dense, x.sparse * &y.sparse),
                    2 => {
                        let (mut d, mut p) = (x.dense, x.sparse);
                        d *= &y.dense;
                        p *= &y.sparse;
                        (d, p)
                    }
                    _ => {
                        let (mut d, mut p) = (x.dense, x.sparse);
                        d *= y.dense;
                        p *= y.sparse;
                        (d, p)
                    }
                };
                (format!("{} * {}", name(i), name(j)), d, p, m_mul(&x.model, &y.model))
            }
            4 => {
                if !T::SIGNED {
                    continue;
                }
                (format!("-{}", name(i)), T::neg_dense(x.dense), T::neg_sparse(x.sparse), m_neg(&x.model))
            }
            5 => {
                let k = T::proj(&T::gen(s, Mag::Tiny).lift().trunc()).unwrap_or_else(T::zero);
                let m = m_scale(&x.model, &k.lift());
                if m_norm1(&m) > limit {
                    continue;
                }
                let (d, p) = if variant % 2 == 0 {
                    (x.dense * k, x.sparse * k)
                } else {
                    let (mut d, mut p) = (x.dense, x.sparse);
                    d *= k;
                    p *= k;
                    (d, p)
                };
                (format!("{} * {k}", name(i)), d, p, m)
            }
            6 => {
                // The exact quotient by a number.
                let k = s.urange(1, 6);
                let m = m_scale(&x.model, &(qi(1) / qu(k)));
                if m.values().any(|c| !c.is_integer()) {
                    continue;
                }
                let k = from_degree::<T>(k).unwrap();
                let (d, p) = if variant % 2 == 0 {
                    (x.dense / k, x.sparse / k)
                } else {
                    let (mut d, mut p) = (x.dense, x.sparse);
                    d /= k;
                    p /= k;
                    (d, p)
                };
                (format!("{} / {k}", name(i)), d, p, m)
            }
            7 | 8 => {
                let n = if s.chance(1, 5) { s.usize(max_degree + 10) } else { s.usize(6) };
                let left = kind == 7;
                if left && m_degree(&x.model).unwrap_or(0) + n > max_degree {
                    continue;
                }
                let m = if left { m_shl(&x.model, n) } else { m_shr(&x.model, n) };
                let k = n as i32;
                let (mut d, mut p) = (x.dense.clone(), x.sparse.clone());
                match (left, variant) {
                    (true, 0) => (d, p) = (d << k, p << k),
                    (false, 0) => (d, p) = (d >> k, p >> k),
                    (true, 1) => (d, p) = (d >> -k, p >> -k),
                    (false, 1) => (d, p) = (d << -k, p << -k),
                    (true, _) => {
                        d <<= k;
                        p <<= k;
                    }
                    (false, _) => {
                        d >>= k;
                        p >>= k;
                    }
                }
                (format!("{} {} {n}", name(i), if left { "<<" } else { ">>" }), d, p, m)
            }
            9 => {
                let m = m_deriv(&x.model);
                if m_norm1(&m) > limit {
                    continue;
                }
                (format!("{}'", name(i)), x.dense.derivative(), x.sparse.derivative(), m)
            }
            10 => {
                // Multiplied first, so that the integral is whole.
                let Some(top) = m_degree(&x.model) else { continue };
                if top > 12 {
                    continue;
                }
                let k = lcm_to(top + 1);
                let scaled = m_scale(&x.model, &k);
                if m_norm1(&scaled) > limit {
                    continue;
                }
                let k = T::proj(&k).unwrap();
                let c = T::proj(&T::gen(s, Mag::Tiny).lift().trunc()).unwrap_or_else(T::zero);
                let mut m: Model = scaled.iter().map(|(d, v)| (d + 1, v / qu(d + 1))).collect();
                m.insert(0, c.lift());
                (
                    format!("integral of {k} * {}, plus {c}", name(i)),
                    (x.dense * k).integral().replace_c(c),
                    (x.sparse * k).integral().replace_c(c),
                    clean(m),
                )
            }
            11 => {
                // Division.
                if !T::SIGNED || y.model.is_empty() {
                    continue;
                }
                if s.long > 0 && x.model.len() * y.model.len() > MAX_WORK {
                    continue;
                }
                let Some((q, r)) = exact_div(&x.model, &y.model, &limit) else { continue };
                let (q, r) = (project::<T>(&q)?, project::<T>(&r)?);
                ctx.label("division");
                let (dq, dr) = x.dense.div_mod(&y.dense);
                let (pq, pr) = T::div_sparse(&x.sparse, &y.sparse);
                let what = format!("{} by {}", m_show(&x.model), m_show(&y.model));
                expect(&format!("the dense quotient of {what}"), &dq, &q)?;
                expect(&format!("the dense remainder of {what}"), &dr, &r)?;
                expect(&format!("the sparse quotient of {what}"), &pq, &q)?;
                expect(&format!("the sparse remainder of {what}"), &pr, &r)?;
                let lift = |m: &Map<T>| -> Model { m.iter().map(|(d, c)| (*d, c.lift())).collect() };
                match variant {
                    0 => (format!("{} div {}", name(i), name(j)), dq, pq, lift(&q)),
                    1 => (format!("{} mod {}", name(i), name(j)), dr, pr, lift(&r)),
                    2 => (
                        format!("{} % {}", name(i), name(j)),
                        x.dense % y.dense,
                        T::rem_sparse(x.sparse, y.sparse, false),
                        lift(&r),
                    ),
                    _ => {
                        let mut d = x.dense;
                        d %= y.dense;
                        (
                            format!("{} %= {}", name(i), name(j)),
                            d,
                            T::rem_sparse(x.sparse, y.sparse, true),
                            lift(&r),
                        )
                    }
                }
            }
            12 => {
                let e = if s.chance(1, 4) { s.usize(17) } else { s.usize(5) };
                let mut n = qi(1);
                for _ in 0..e {
                    n *= m_norm1(&x.model).max(qi(1));
                }
                // The square of it, as a power may be found from squares.
                if &n * &n > limit || m_degree(&x.model).unwrap_or(0) * e > max_degree || x.model.len() > 150 {
                    continue;
                }
                (format!("{} to the {e}", name(i)), x.dense.pow(e), x.sparse.pow(e), m_pow(&x.model, e))
            }
            13 => {
                let mut r = x.clone();
                let mut m = x.model;
                for _ in 0..s.urange(1, 4) {
                    let c = T::proj(&T::gen(s, mag).lift().trunc()).unwrap_or_else(T::zero);
                    let d = if s.chance(1, 4) { s.usize(max_degree) } else { s.usize(12) };
                    m = m_add(&m, &clean([(d, c.lift())].into_iter().collect()));
                    if m_norm1(&m) > limit {
                        return Err(Bad::Discard);
                    }
                    r.dense.add_term(c, d);
                    r.sparse.add_term(c, d);
                }
                (format!("{} with terms added", name(i)), r.dense, r.sparse, m)
            }
            14 => {
                // Through the terms of the other representation.
                let t: Vec<(T, usize)> = x.sparse.ordered_term_iter().collect();
                let u: Vec<(T, usize)> = x.dense.ordered_term_iter().collect();
                (
                    format!("{} from its terms", name(i)),
                    Polynomial::from_terms(&t),
                    SparsePolynomial::from_terms(&u),
                    x.model,
                )
            }
            15 => {
                // Through the text of the other representation.
                let (t, u) = (x.sparse.to_string(), x.dense.to_string());
                match (Polynomial::from_str(&t), SparsePolynomial::from_str(&u)) {
                    (Ok(d), Ok(p)) => (format!("{} from its text", name(i)), d, p, x.model),
                    r => return fail(format!("reading {t:?} and {u:?} gives {r:?}")),
                }
            }
            16 => {
                let (mut d, mut p) = (x.dense, x.sparse);
                match variant {
                    0 => {
                        d.set_to_zero();
                        p.set_to_zero();
                        (format!("{} set to zero", name(i)), d, p, Model::new())
                    }
                    1 => {
                        d.trim();
                        let v: Vec<T> = d.terms.clone();
                        (format!("{} trimmed", name(i)), d, SparsePolynomial::from(v), x.model)
                    }
                    _ => {
                        let g = whole(s, 6);
                        (format!("{}", g.show()), g.dense(), g.sparse(), g.model())
                    }
                }
            }
            18 => {
                // Through the functions that collect terms, from the other representation.
                let op = variant % 3;
                if !(if op == 2 { product_ok } else { sum_ok }) {
                    continue;
                }
                let m = [m_add, m_sub, m_mul][op as usize](&x.model, &y.model);
                let fits = T::SIGNED || m.values().all(|c| !c.is_negative());
                let (d, p, r) = T::collect(&x, &y, op);
                ensure!(
                    r.iter().all(|r| r.is_ok() == fits),
                    "collecting {} {} {} gives {r:?}",
                    m_show(&x.model),
                    ["+", "-", "*"][op as usize],
                    m_show(&y.model)
                );
                if !fits {
                    ctx.label("refused");
                    continue;
                }
                (format!("{} and {} collected", name(i), name(j)), d, p, m)
            }
            _ => {
                // The derivative of an integral and the like: (x y)' = x' y + x y'.
                if !product_ok || (m_norm1(&x.model) + qi(1)) * (m_norm1(&y.model) + qi(1)) * qu(2 * max_degree) > limit {
                    continue;
                }
                let m = m_deriv(&m_mul(&x.model, &y.model));
                let d = &x.dense.derivative() * &y.dense + &x.dense * &y.dense.derivative();
                let p = x.sparse.derivative() * &y.sparse + x.sparse * y.sparse.derivative();
                (format!("({} {})'", name(i), name(j)), d, p, m)
            }
        };
        done += 1;
        let k = s.usize(3);
        ctx.note(|| format!("put into {}", name(k)));
        let want = project::<T>(&model)?;
        expect(&format!("dense {what}"), &dense, &want)?;
        expect(&format!("sparse {what}"), &sparse, &want)?;
        observe(s, ctx, &what, &dense, &sparse, &want, &model, &limit, &regs)?;
        regs[k] = Reg { dense, sparse, model };
    }
    if done >= 4 {
        ctx.nontrivial();
    }
    ctx.label_if(done >= 15, "15 or more operations");
    Ok(())
}

/// Everything that can be seen of both representations is the same.
#[allow(clippy::too_many_arguments)]
fn observe<T: Prog>(
    s: &mut Src,
    ctx: &mut Ctx,
    what: &str,
    dense: &Polynomial<T>,
    sparse: &SparsePolynomial<T>,
    want: &Map<T>,
    model: &Model,
    limit: &Q,
    regs: &[Reg<T>],
) -> Res
where
    Polynomial<T>: Evaluable<T> + Display + PartialEq,
    SparsePolynomial<T>: Evaluable<T> + Display + PartialEq,
{
    let degree = match m_degree(model) {
        None => Degree::NegInf,
        Some(d) => Degree::Num(d),
    };
    let (a, b) = (dense.degree(), sparse.degree());
    ensure!(a == degree && b == degree, "{what}: degrees {a:?} and {b:?} instead of {degree:?}");
    let (a, b) = (dense.is_zero(), sparse.is_zero());
    ensure!(a == model.is_empty() && b == a, "{what}: is_zero {a} and {b}");
    for (d, c) in want {
        let (a, b) = (dense.term_with_degree(*d), sparse.term_with_degree(*d));
        ensure!(
            a == Term::Term(*c, *d) && b == a,
            "{what}: the term of degree {d} is {a:?} and {b:?} instead of {c:?}"
        );
    }
    let list: Vec<(T, usize)> = want.iter().rev().map(|(d, c)| (*c, *d)).collect();
    let a: Vec<_> = dense.ordered_term_iter().collect();
    let b: Vec<_> = sparse.ordered_term_iter().collect();
    ensure!(a == list && b == list, "{what}: terms {a:?} and {b:?} instead of {list:?}");
    let text = canonical(want);
    let (a, b) = (dense.to_string(), sparse.to_string());
    ensure!(a == text && b == text, "{what}: written as {a:?} and {b:?} instead of {text:?}");
    for r in regs {
        let same = &r.model == model;
        let (a, b) = (*dense == r.dense, *sparse == r.sparse);
        ctx.label_if(same, "equal polynomials");
        ensure!(
            a == same && b == same,
            "{what}: compared with {} gives {a} and {b}",
            m_show(&r.model)
        );
    }
    let x = s.range(-3, 3);
    if x < 0 && !T::SIGNED {
        return Ok(());
    }
    let top = m_degree(model).unwrap_or(0);
    if top > 200 && x.abs() > 1 {
        return Ok(());
    }
    let bound = (m_norm1(model) + qi(1)) * q_pow(&qi(x.abs().max(1)), 2 * top);
    if bound <= *limit {
        let x = T::proj(&qi(x)).unwrap();
        let y = T::proj(&m_eval(model, &x.lift())).ok_or(Bad::Discard)?;
        let (a, b) = (dense.eval(x), sparse.eval(x));
        ctx.label("evaluated");
        ensure!(a == y && b == y, "{what}: at {x:?} it is {a:?} and {b:?} instead of {y:?}");
    }
    Ok(())
}

/// The same for sparse polynomials alone, whose degrees can be anything.
fn sparse_program_t<T: Prog>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<T>: Derivable<T>
        + FreeSizePolynomial<T>
        + MutablePolynomial<T>
        + Evaluable<T>
        + Display
        + FromStr<Err = err::PolynomialFromStringError>
        + PartialEq,
    Polynomial<T>: Evaluable<T>,
{
    let limit = pow2(T::LIMIT_BITS);
    // With room for one more squaring.
    let max_degree = usize::MAX / 4;
    let mag = *s.pick(&[Mag::Tiny, Mag::Tiny, Mag::Small]);
    let coeff = |s: &mut Src| T::proj(&T::gen(s, mag).lift().trunc()).unwrap_or_else(T::zero);
    let start = |s: &mut Src| {
        let terms: Map<T> = (0..s.usize(5)).map(|_| (gen_big_degree(s) % max_degree, coeff(s))).collect();
        let model = clean(terms.iter().map(|(d, c)| (*d, c.lift())).collect());
        (SparsePolynomial::new(terms), model)
    };
    let mut regs: Vec<(SparsePolynomial<T>, Model)> = (0..3).map(|_| start(s)).collect();
    ctx.note(|| {
        let m = |i: usize| m_show(&regs[i].1);
        format!("{}: a = {}, b = {}, c = {}", T::NAME, m(0), m(1), m(2))
    });
    let steps = if s.chance(1, 3) { s.urange(1, 4) } else { s.urange(5, 20) };
    let mut done = 0;
    for _ in 0..steps {
        let (i, j) = (s.usize(3), s.usize(3));
        let name = |i: usize| ["a", "b", "c"][i];
        if s.chance(1, 4) {
            let d = if s.chance(1, 2) {
                // Next to a term, or at the place of one that is gone.
                let keys: Vec<usize> = regs[i].1.keys().copied().collect();
                if keys.is_empty() { 0 } else { s.pick(&keys).saturating_add(s.usize(3)).saturating_sub(1) }
            } else {
                gen_big_degree(s)
            };
            regs[i].0.terms.entry(d % max_degree).or_insert_with(T::zero);
            ctx.note(|| format!("a zero stored in {}", name(i)));
            ctx.label("stored zeros");
        }
        let (x, xm) = regs[i].clone();
        let (y, ym) = regs[j].clone();
        let (xd, yd) = (m_degree(&xm).unwrap_or(0), m_degree(&ym).unwrap_or(0));
        let sum_ok = m_norm1(&xm) + m_norm1(&ym) <= limit && xm.len() + ym.len() <= 200;
        let product_ok = m_norm1(&xm) * m_norm1(&ym) <= limit
            && xd <= max_degree - yd
            && x.terms.keys().next_back().unwrap_or(&0) <= &(max_degree - y.terms.keys().next_back().unwrap_or(&0))
            && xm.len() * ym.len() <= 2_000;
        let kind = s.weighted(&[2, 4, 4, 4, 2, 2, 4, 3, 3, 2, 2, 2, 2]);
        let variant = s.below(4);
        if kind == 0 {
            continue;
        }
        let operation = [
            "add", "subtract", "multiply", "negate", "scale", "shift", "derive", "divide", "pow", "add terms",
            "copy", "replace",
        ][kind - 1];
        ctx.note(|| format!("{operation} ({} {}, variant {variant})", name(i), name(j)));
        let (p, m): (SparsePolynomial<T>, Model) = match kind {
            1 if sum_ok => {
                let p = if variant % 2 == 0 {
                    x + y
                } else {
                    let mut p = x;
                    p += y;
                    p
                };
                (p, m_add(&xm, &ym))
            }
            2 if sum_ok => {
                let m = m_sub(&xm, &ym);
                if !T::SIGNED && m.values().any(|c| c.is_negative()) {
                    continue;
                }
                let none = || Polynomial::zero();
                let (x, y) = (
                    Reg { dense: none(), sparse: x, model: Model::new() },
                    Reg { dense: none(), sparse: y, model: Model::new() },
                );
                if T::SIGNED {
                    (T::subtract(x, y, variant % 2).1, m)
                } else {
                    let mut p = x.sparse;
                    for (c, k) in y.sparse.ordered_term_iter() {
                        p.try_sub_term(c, k).expect("try_sub_term");
                    }
                    (p, m)
                }
            }
            3 if product_ok => {
                let p = match variant {
                    0 => x * y,
                    1 => x * &y,
                    2 => {
                        let mut p = x;
                        p *= &y;
                        p
                    }
                    _ => {
                        let mut p = x;
                        p *= y;
                        p
                    }
                };
                (p, m_mul(&xm, &ym))
            }
            4 if T::SIGNED => (T::neg_sparse(x), m_neg(&xm)),
            5 => {
                let k = coeff(s);
                let m = m_scale(&xm, &k.lift());
                if m_norm1(&m) > limit {
                    continue;
                }
                (x * k, m)
            }
            6 => {
                let n = match s.below(4) {
                    0 => s.usize(6),
                    1 => *s.pick(&[i32::MAX as usize, 1 << 30, 1 << 16, 1 << 31]),
                    // Close to a term.
                    2 if !xm.is_empty() => {
                        let keys: Vec<usize> = xm.keys().copied().collect();
                        s.pick(&keys).saturating_add(s.usize(3)).saturating_sub(1).min(1 << 31)
                    }
                    _ => gen_big_degree(s).min(1 << 31),
                };
                let left = s.chance(1, 2);
                let top = x.terms.keys().next_back().copied().unwrap_or(0);
                if left && top.saturating_add(n) > max_degree {
                    continue;
                }
                let m = if left { m_shl(&xm, n) } else { m_shr(&xm, n) };
                let mut p = x;
                // A shift by 2^31 can only be written as a negative one the other way.
                let back = n == 1 << 31 || variant % 2 == 1;
                let k = if back { (n as i64).wrapping_neg() as i32 } else { n as i32 };
                match (left != back, variant / 2) {
                    (true, 0) => p = p << k,
                    (false, 0) => p = p >> k,
                    (true, _) => p <<= k,
                    (false, _) => p >>= k,
                }
                (p, m)
            }
            7 => {
                let m = m_deriv(&xm);
                if m_norm1(&m) > limit || xm.keys().any(|d| T::proj(&qu(*d)).is_none()) {
                    continue;
                }
                (x.derivative(), m)
            }
            8 => {
                // As long as there are few steps: by a single term, or one of nearly the same degree.
                if !T::SIGNED || ym.is_empty() || (ym.len() > 1 && xd.saturating_sub(yd) > 40) {
                    continue;
                }
                let Some((q, r)) = exact_div(&xm, &ym, &limit) else { continue };
                ctx.label("division");
                let what = format!("{} by {}", m_show(&xm), m_show(&ym));
                let (pq, pr) = T::div_sparse(&x, &y);
                expect(&format!("the sparse quotient of {what}"), &pq, &project::<T>(&q)?)?;
                expect(&format!("the sparse remainder of {what}"), &pr, &project::<T>(&r)?)?;
                match variant {
                    0 => (pq, q),
                    1 => (pr, r),
                    _ => (T::rem_sparse(x, y, variant == 2), r),
                }
            }
            9 => {
                let e = s.usize(6);
                let n = num::pow(m_norm1(&xm).max(qi(1)), 2 * e);
                let top = x.terms.keys().next_back().copied().unwrap_or(0);
                if n > limit || top.saturating_mul(2 * e) > max_degree || xm.len() > 8 {
                    continue;
                }
                (x.pow(e), m_pow(&xm, e))
            }
            10 => {
                let (mut p, mut m) = (x, xm);
                for _ in 0..s.urange(1, 4) {
                    let c = coeff(s);
                    let keys: Vec<usize> = m.keys().copied().collect();
                    let d = if s.chance(1, 2) && !keys.is_empty() { *s.pick(&keys) } else { gen_big_degree(s) % max_degree };
                    m = m_add(&m, &clean([(d, c.lift())].into_iter().collect()));
                    if m_norm1(&m) > limit {
                        return Err(Bad::Discard);
                    }
                    p.add_term(c, d);
                }
                (p, m)
            }
            11 => {
                if variant % 2 == 0 {
                    let t: Vec<(T, usize)> = x.ordered_term_iter().collect();
                    (SparsePolynomial::from_terms(&t), xm)
                } else {
                    let t = x.to_string();
                    match SparsePolynomial::from_str(&t) {
                        Ok(p) => (p, xm),
                        r => return fail(format!("reading {t:?} gives {r:?}")),
                    }
                }
            }
            12 => start(s),
            _ => continue,
        };
        done += 1;
        let k = s.usize(3);
        ctx.note(|| format!("put into {}", name(k)));
        let want = project::<T>(&m)?;
        let what = format!("sparse {operation} of {} and {}", m_show(&regs[i].1), m_show(&regs[j].1));
        expect(&what, &p, &want)?;
        let top = m_degree(&m);
        let (degree, got) = (top.map_or(Degree::NegInf, Degree::Num), p.degree());
        ensure!(got == degree, "{what}: degree {got:?} instead of {degree:?}");
        ctx.label_if(top > Some(u32::MAX as usize), "degree beyond 32 bits");
        let list: Vec<(T, usize)> = want.iter().rev().map(|(d, c)| (*c, *d)).collect();
        let got: Vec<_> = p.ordered_term_iter().collect();
        ensure!(got == list, "{what}: terms {got:?} instead of {list:?}");
        let (text, got) = (canonical(&want), p.to_string());
        ensure!(got == text, "{what}: written as {got:?} instead of {text:?}");
        for r in &regs {
            let same = r.1 == m;
            ensure!((p == r.0) == same, "{what}: compared with {} gives {}", m_show(&r.1), !same);
        }
        let z = s.range(if T::SIGNED { -1 } else { 0 }, 1);
        let y: Q = m.iter().map(|(d, c)| match (z, d % 2) {
            (0, _) if *d > 0 => qi(0),
            (-1, 1) => -c,
            _ => c.clone(),
        }).fold(qi(0), |a, b| a + b);
        let (z, y) = (T::proj(&qi(z)).unwrap(), T::proj(&y).ok_or(Bad::Discard)?);
        let got = p.eval(z);
        ensure!(got == y, "{what}: at {z:?} it is {got:?} instead of {y:?}");
        // A zero stored far above the degree would leave no room for the next operations.
        let mut p = p;
        p.terms.retain(|d, _| *d <= max_degree);
        regs[k] = (p, m);
    }
    if done >= 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn check_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i64, i128, f64, i32, u64, i8, u8]; sparse_program_t(s, ctx))
}

fn check_signed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, i64, i128, f64, i16, f32, i8]; program_t(s, ctx))
}

fn check_unsigned(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [u32, u64, u128, u16, u8]; program_t(s, ctx))
}

fn check_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 300, 300, 1100, 1100, 4100]);
    pick_type!(s; [i64, i128, f64, i32]; program_t(s, ctx))
}

fn main() {
    harness::engine::main(Property {
        id: "C17",
        rule: "cases are programs of up to 50 operations on three polynomials, each kept densely, sparsely and exactly, with zeros stored at random points; non-trivial: at least four operations were carried out",
        assumptions: &[
            "coefficients are whole and results stay well within the coefficient type (so that floats are exact); operations which would leave it are skipped",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "signed", check: check_signed, quick: 360_000 },
            Sub { name: "unsigned", check: check_unsigned, quick: 180_000 },
            Sub { name: "sparse_huge_degrees", check: check_sparse, quick: 150_000 },
            Sub { name: "long", check: check_long, quick: 3_000 },
        ],
        known: vec![],
    });
}
