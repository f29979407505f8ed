//! Histories of adding and subtracting single terms.

use harness::coef::*;
use harness::engine::*;
use harness::model::*;
use harness::{ensure, pick_type};
use rustnomial::err::TryAddError;
use rustnomial::*;
use std::collections::BTreeMap;

type Map<T> = BTreeMap<usize, T>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op<T> {
    TryAdd(T, usize),
    TrySub(T, usize),
    Add(T, usize),
    Clear,
}

/// What the operation has to do to the non-zero terms `m`.
enum Want<T> {
    New(Map<T>),
    Refused(TryAddError),
    /// A zero term of a degree the type does not have: allowed or refused, but nothing changes.
    Either,
}

#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Free,
    One,
    UpTo(usize),
}

/// `None` if the operation leaves what the coefficient type can represent.
fn step<T: Ring>(m: &Map<T>, op: Op<T>, shape: Shape) -> Option<Want<T>> {
    let (c, d, sub) = match op {
        Op::Clear => return Some(Want::New(Map::new())),
        Op::TryAdd(c, d) | Op::Add(c, d) => (c, d, false),
        Op::TrySub(c, d) => (c, d, true),
    };
    let refuse = match shape {
        Shape::Free => None,
        Shape::One if m.is_empty() || m.contains_key(&d) => None,
        Shape::One => Some(TryAddError::TooManyTerms),
        Shape::UpTo(n) if d <= n => None,
        Shape::UpTo(_) => Some(TryAddError::DegreeOutOfBounds),
    };
    if let Some(e) = refuse {
        return Some(if c.is_zero() { Want::Either } else { Want::Refused(e) });
    }
    let old = m.get(&d).copied().unwrap_or_else(T::zero).lift();
    let new = if sub { old - c.lift() } else { old + c.lift() };
    match T::proj(&new) {
        Some(v) => {
            let mut m = m.clone();
            if v.is_zero() {
                m.remove(&d);
            } else {
                m.insert(d, v);
            }
            Some(Want::New(m))
        }
        // Below zero. The types of fixed size have no way to find out: see known_findings.txt.
        None if sub && !T::SIGNED && shape == Shape::Free => {
            Some(Want::Refused(TryAddError::CanNotNegate))
        }
        None => None,
    }
}

fn gen_op<T: Ring>(s: &mut Src, m: &Map<T>, mag: Mag, degree: fn(&mut Src) -> usize, free: bool) -> Op<T> {
    let d = if !m.is_empty() && s.chance(1, 2) {
        *m.keys().nth(s.usize(m.len())).unwrap()
    } else {
        degree(s)
    };
    let there = m.get(&d).copied().unwrap_or_else(T::zero);
    let c = match s.below(8) {
        0 => T::zero(),
        1 | 2 => there,
        3 => there.halve(),
        4 => T::proj(&(there.lift() + qi(1))).unwrap_or(there),
        _ => T::gen(s, mag),
    };
    match s.weighted(&[8, 8, if free { 4 } else { 0 }, 1]) {
        0 => Op::TryAdd(c, d),
        1 => Op::TrySub(c, d),
        2 => Op::Add(c, d),
        _ => Op::Clear,
    }
}

fn apply<T: Ring, P: MutablePolynomial<T> + SizedPolynomial<T>>(
    p: &mut P,
    op: Op<T>,
    add: fn(&mut P, T, usize),
) -> Result<(), TryAddError> {
    match op {
        Op::TryAdd(c, d) => p.try_add_term(c, d),
        Op::TrySub(c, d) => p.try_sub_term(c, d),
        Op::Add(c, d) => {
            add(p, c, d);
            Ok(())
        }
        Op::Clear => {
            p.set_to_zero();
            Ok(())
        }
    }
}

fn judge<T: Ring, P: Stored<T> + SizedPolynomial<T>>(
    what: &str,
    p: &P,
    op: Op<T>,
    result: Result<(), TryAddError>,
    old: &Map<T>,
    want: &Want<T>,
) -> Res {
    let fine = match want {
        Want::New(_) => result.is_ok(),
        Want::Refused(e) => result == Err(*e),
        Want::Either => true,
    };
    ensure!(
        fine,
        "{what}<{}> {}: {op:?} gives {result:?}{}",
        T::NAME,
        show_map(old),
        match want {
            Want::Refused(e) => format!(" instead of {e:?}"),
            _ => String::new(),
        }
    );
    let now = match want {
        Want::New(m) => m,
        _ => old,
    };
    let got = nonzero(p);
    ensure!(
        &got == now,
        "{what}<{}> {}: after {op:?} ({result:?}) it is {} instead of {}",
        T::NAME,
        show_map(old),
        show_map(&got),
        show_map(now)
    );
    let list: Vec<(T, usize)> = now.iter().rev().map(|(d, c)| (*c, *d)).collect();
    let seen = p.terms_as_vec();
    ensure!(seen == list, "{what}<{}>: after {op:?}, terms_as_vec gives {seen:?}", T::NAME);
    Ok(())
}

/// Runs a history on one polynomial.
fn history<T: Ring, P>(
    s: &mut Src,
    ctx: &mut Ctx,
    what: &str,
    mut p: P,
    shape: Shape,
    degree: fn(&mut Src) -> usize,
    add: Option<fn(&mut P, T, usize)>,
) -> Res
where
    P: MutablePolynomial<T> + SizedPolynomial<T> + Stored<T>,
{
    let mag = gen_mag(s);
    let mut m = nonzero(&p);
    ctx.note(|| format!("{what}<{}> {}", T::NAME, show_map(&m)));
    let n = if s.chance(1, 20) { s.urange(1, 150) } else { s.urange(1, 24) };
    let (mut changes, mut refused) = (0, 0);
    for _ in 0..n {
        let op = gen_op(s, &m, mag, degree, add.is_some());
        let Some(want) = step(&m, op, shape) else { continue };
        ctx.note(|| format!("{op:?}"));
        let result = apply(&mut p, op, add.unwrap_or(|_, _, _| unreachable!()));
        judge(what, &p, op, result, &m, &want)?;
        match want {
            Want::New(new) => {
                changes += (new != m) as u32;
                m = new;
            }
            Want::Refused(_) => refused += 1,
            Want::Either => {}
        }
    }
    ctx.label_if(refused > 0, "with refused operations");
    if changes >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

fn low(s: &mut Src) -> usize {
    if s.long > 0 && s.chance(1, 2) {
        return gen_long_len(s, s.long + 200);
    }
    match s.weighted(&[8, 16, 8, 1]) {
        0 => s.usize(4),
        1 => s.usize(12),
        2 => s.usize(200),
        _ => s.named(24, 5000),
    }
}

fn any(s: &mut Src) -> usize {
    match s.weighted(&[6, 6, 6, 1]) {
        0 => s.usize(4),
        1 => gen_big_degree(s),
        2 => gen_limit_degree(s, false),
        _ => usize::MAX - s.usize(3),
    }
}

fn near(s: &mut Src) -> usize {
    match s.below(6) {
        0 => any(s),
        _ => s.usize(5),
    }
}

fn dense_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: MutablePolynomial<T> + SizedPolynomial<T> + FreeSizePolynomial<T>,
{
    let mag = gen_mag(s);
    let start = gen_gp::<T>(s, 30, mag);
    history(s, ctx, "Polynomial", start.dense(), Shape::Free, low, Some(|p, c, d| p.add_term(c, d)))
}

fn sparse_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    SparsePolynomial<T>: MutablePolynomial<T> + SizedPolynomial<T> + FreeSizePolynomial<T>,
{
    let mag = gen_mag(s);
    let (start, degree): (_, fn(&mut Src) -> usize) = if s.chance(1, 2) {
        (gen_gp_sparse::<T>(s, mag), any)
    } else {
        (gen_gp::<T>(s, 30, mag), low)
    };
    let p = start.sparse();
    history(s, ctx, "SparsePolynomial", p, Shape::Free, degree, Some(|p, c, d| p.add_term(c, d)))
}

fn fixed_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Monomial<T>: MutablePolynomial<T> + SizedPolynomial<T>,
    LinearBinomial<T>: MutablePolynomial<T> + SizedPolynomial<T>,
    QuadraticTrinomial<T>: MutablePolynomial<T> + SizedPolynomial<T>,
{
    let mag = gen_mag(s);
    let start = gen_fixed::<T>(s, 3, mag);
    match s.below(3) {
        0 => {
            let p = Monomial::new(start.terms[&0], any(s));
            history(s, ctx, "Monomial", p, Shape::One, near, None)
        }
        1 => history(s, ctx, "LinearBinomial", lin(&start), Shape::UpTo(1), near, None),
        _ => history(s, ctx, "QuadraticTrinomial", quad(&start), Shape::UpTo(2), near, None),
    }
}

/// Building from a list of terms is adding all of them up.
fn from_terms_t<T: Ring>(s: &mut Src, ctx: &mut Ctx) -> Res
where
    Polynomial<T>: FreeSizePolynomial<T>,
    SparsePolynomial<T>: FreeSizePolynomial<T>,
{
    let mag = gen_mag(s);
    let dense = s.chance(1, 2);
    let mut list = vec![];
    let mut m: Map<T> = Map::new();
    let n = match s.weighted(&[12, 2, 1]) {
        0 => s.usize(16),
        1 => s.usize(80),
        _ => s.usize(300),
    };
    for _ in 0..n {
        let d = match m.len() {
            n if n > 0 && s.chance(1, 3) => *m.keys().nth(s.usize(n)).unwrap(),
            _ if dense => low(s),
            _ => any(s),
        };
        let there = m.get(&d).copied().unwrap_or_else(T::zero);
        let c = match s.below(6) {
            0 => T::zero(),
            1 => T::proj(&-there.lift()).unwrap_or(there),
            _ => T::gen(s, mag),
        };
        let Some(sum) = T::proj(&(there.lift() + c.lift())) else { continue };
        m.insert(d, sum);
        list.push((c, d));
    }
    match s.below(6) {
        // In order; terms of the same degree stay in theirs.
        0 => list.sort_by_key(|(_, d)| *d),
        1 => list.sort_by_key(|(_, d)| std::cmp::Reverse(*d)),
        _ => {}
    }
    ctx.note(|| format!("{}: from_terms({list:?})", T::NAME));
    ctx.label_if(list.len() > m.len(), "repeated degrees");
    if m.len() >= 2 {
        ctx.nontrivial();
    }
    m.retain(|_, c| !c.is_zero());
    if dense {
        expect("Polynomial::from_terms", &Polynomial::from_terms(&list), &m)?;
    }
    expect("SparsePolynomial::from_terms", &SparsePolynomial::from_terms(&list), &m)
}

fn check_dense(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i64, u32, i8, i16, i128, isize, u16, u64, u128, usize, f32, f64];
        dense_t(s, ctx))
}

fn check_sparse(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i64, u32, i8, i16, i128, isize, u16, u64, u128, usize, f32, f64];
        sparse_t(s, ctx))
}

fn check_fixed(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i64, u32, i8, i16, i128, isize, u16, u64, u128, usize, f32, f64,
        std::num::Wrapping<u8>, Gf<7>]; fixed_t(s, ctx))
}

fn check_from_terms(s: &mut Src, ctx: &mut Ctx) -> Res {
    pick_type!(s; [i32, u8, i64, u32, i8, i16, i128, isize, u16, u64, u128, usize, f32, f64,
        std::num::Wrapping<u8>, Gf<7>]; from_terms_t(s, ctx))
}

fn probe_binomial() -> bool {
    let mut p = LinearBinomial::<u8>::new([0, 1]);
    !matches!(catch(move || p.try_sub_term(2, 0)), Ok(Err(_)))
}

fn probe_trinomial() -> bool {
    let mut p = QuadraticTrinomial::<u8>::new([0, 0, 1]);
    !matches!(catch(move || p.try_sub_term(2, 0)), Ok(Err(_)))
}

fn probe_monomial() -> bool {
    let mut p = Monomial::<u8>::new(1, 0);
    !matches!(catch(move || p.try_sub_term(2, 0)), Ok(Err(_)))
}

/// The same with long polynomials.
fn check_dense_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 1100]);
    check_dense(s, ctx)
}

fn check_sparse_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    s.long = *s.pick(&[300, 1100]);
    check_sparse(s, ctx)
}

fn main() {
    harness::engine::main(Property {
        id: "C09",
        rule: "cases are histories of up to 24 operations on one polynomial (or a list of terms to build one from); non-trivial: at least two operations that change the polynomial (two degrees)",
        assumptions: &[
            "operations whose exact result the coefficient type can not represent are left out, except subtractions below zero of unsigned coefficients on Polynomial and SparsePolynomial, which have to be refused",
            "degrees of dense polynomials are at most 230",
        ],
        thorough_factor: 20,
        subs: vec![
            Sub { name: "dense", check: check_dense, quick: 1_920_000 },
            Sub { name: "sparse", check: check_sparse, quick: 1_920_000 },
            Sub { name: "fixed_size", check: check_fixed, quick: 1_920_000 },
            Sub { name: "from_terms", check: check_from_terms, quick: 1_920_000 },
            Sub { name: "dense_long", check: check_dense_long, quick: 16_000 },
            Sub { name: "sparse_long", check: check_sparse_long, quick: 16_000 },
        ],
        known: vec![
            ("LinearBinomial::<u8>::new([0, 1]).try_sub_term(2, 0) overflows instead of returning an error", probe_binomial),
            ("QuadraticTrinomial::<u8>::new([0, 0, 1]).try_sub_term(2, 0) overflows instead of returning an error", probe_trinomial),
            ("Monomial::<u8>::new(1, 0).try_sub_term(2, 0) overflows instead of returning an error", probe_monomial),
        ],
    });
}
